-------------------------------- MODULE T_msg -------------------------------
EXTENDS Msg, TraceBase

(* the builder, the message and its copy, each possibly absent *)
MsgInitSt(sess) == [b |-> <<>>, m |-> <<>>, c |-> <<>>]
Expect(c, st2, x) == IF c THEN [ok |-> TRUE, st |-> st2, exp |-> ""] ELSE [ok |-> FALSE, st |-> st2, exp |-> x]
UrlShown(a, x) == /\ a.scheme = x.scheme /\ a.user = x.user /\ a.pass = x.pass /\ a.dom = x.dom /\ (a.port = x.port \/ (x.dom = None /\ {a.port, x.port} = {0, -1}))
                  /\ a.path = x.path /\ a.query = x.query
Shown(a, x) == /\ a.kind = x.kind /\ a.method = x.method /\ a.version = x.version /\ a.status = x.status /\ SameFields(a.hs, x.hs) /\ a.ext = x.ext
               /\ a.partial = x.partial /\ a.body = x.body /\ a.same = 1 /\ UrlShown(a.u, x.u)
Shows(r, mm, cc) == /\ (IF mm = <<>> THEN r.m = <<>> ELSE r.m # <<>> /\ Shown(r.m[1], mm[1]))
                    /\ (IF cc = <<>> THEN r.c = <<>> ELSE r.c # <<>> /\ Shown(r.c[1], cc[1]))
Flag01(bad) == IF bad THEN 0 ELSE 1
BShown(r, b) ==
  /\ \A k \in 1..Len(r.refs) : r.refs[k] = Flag01(b.bad)
  /\ IF b.bad THEN r.p = <<>> /\ r.blen = 0
     ELSE /\ r.p # <<>> /\ r.blen = BodyLen(b.p.hs) /\ SameFields(r.p[1].hs, b.p.hs)
          /\ IF b.p.kind = "req" THEN r.p[1].method = b.p.method /\ r.p[1].version = b.p.version /\ UrlShown(r.p[1].u, b.p.u) ELSE r.p[1].ext = b.p.ext

(* what a URL argument denotes; where its reading is open, what the builder shows is taken *)
UrlArg(e, r) ==
  IF e.op = "uval" THEN [v |-> "ok", u |-> Some(Strip(Built(e.calls)))]
  ELSE IF e.op # "url" THEN [v |-> "none", u |-> None]
  ELSE LET x == ParseUrl(e.v) IN
       CASE x.v = "ok" -> [v |-> "ok", u |-> Some(UrlIn(x))]
         [] x.v = "bad" -> [v |-> "bad", u |-> None]
         [] OTHER -> [v |-> "lax", u |-> IF r.p = <<>> THEN None ELSE Some(r.p[1].u)]
BuilderOps == {"method", "url", "uval", "version", "header", "headers", "hmut", "up2", "status", "rmethod", "ext"}
(* numbers that the code shows for an absent port of a URL without host stay as they are shown *)
Adopt(b, r) == IF b.bad \/ r.p = <<>> \/ b.p.kind # "req" THEN b ELSE [b EXCEPT !.p.u.port = r.p[1].u.port]

MsgStep(z, e) ==
  LET r == e.r IN
  CASE e.op = "new" -> LET b == NewB(e.kind, e.how) IN Expect(r.t = "ok" /\ BShown(r, b), [z EXCEPT !.b = <<b>>], b)
    [] e.op \in BuilderOps ->
         LET a == UrlArg(e, r) b == BStep(z.b[1], e, a.u, IF e.op = "up2" THEN r.b64 ELSE <<>>) IN
         Expect(r.t = "ok" /\ BShown(r, b), [z EXCEPT !.b = <<Adopt(b, r)>>], b)
    [] e.op = "from" -> LET b == IF z.m = <<>> THEN NewB("req", 0) ELSE FromB(z.m[1]) IN Expect(r.t = "ok" /\ BShown(r, b), [z EXCEPT !.b = <<b>>], b)
    [] e.op = "body" ->
         LET b == z.b[1] IN
         IF b.bad THEN Expect(r.t = "err" /\ Shows(r, z.m, z.c), [z EXCEPT !.b = <<>>], "the first error")
         ELSE LET m == Made(b.p, e.b, e.str) IN Expect(r.t = "ok" /\ Shows(r, <<m>>, z.c), [z EXCEPT !.b = <<>>, !.m = <<m>>], m)
    [] e.op = "plain" -> LET m == Plain(e.kind, e.how, e.b) IN Expect(r.t = "ok" /\ Shows(r, <<m>>, z.c), [z EXCEPT !.m = <<m>>], m)
    [] e.op \in {"into", "last", "type", "copy", "parts", "write", "fill"} /\ z.m = <<>> -> Expect(r.t = "ok" /\ Shows(r, z.m, z.c), z, "nothing")
    [] e.op = "fill" ->
         \* parsing is judged elsewhere; it leaves body and extensions
         Expect(r.t = "ok" /\ r.m # <<>> /\ LET a == r.m[1] m == z.m[1] IN a.kind = m.kind /\ a.body = m.body /\ a.ext = m.ext /\ a.same = 1,
                [z EXCEPT !.m = <<LET a == r.m[1] IN [kind |-> a.kind, method |-> a.method, u |-> a.u, version |-> a.version, status |-> a.status, hs |-> a.hs, ext |-> a.ext,
                                                      partial |-> a.partial, body |-> a.body, bt |-> z.m[1].bt]>>], "parsed")
    [] e.op = "copy" ->
         LET c == CopyOf(z.m[1]) m == AfterCopy(z.m[1], e.b)
             \* a copy may have no extensions
             c2 == IF r.c # <<>> /\ r.c[1].ext = Bared(c).ext THEN Bared(c) ELSE c IN
         Expect(r.t = "ok" /\ Shows(r, <<m>>, <<c2>>), [z EXCEPT !.m = <<m>>, !.c = <<c2>>], <<m, c>>)
    [] e.op = "parts" ->
         LET c == PartsOf(z.m[1])
             c2 == IF ~IsReq(z.m[1]) THEN <<>> ELSE IF r.c # <<>> /\ r.c[1].ext = Bared(c).ext THEN <<Bared(c)>> ELSE <<c>> IN
         Expect(r.t = "ok" /\ Shows(r, z.m, c2), [z EXCEPT !.c = c2], c2)
    [] e.op = "etouch" ->
         LET old == IF z.m = <<>> THEN None ELSE z.m[1].ext[3] m == Touched(z.m, old, e.n) c == Touched(z.c, old, e.n) IN
         Expect(r.t = "ok" /\ Shows(r, m, c), [z EXCEPT !.m = m, !.c = c], <<m, c>>)
    [] e.op = "last" -> LET q == IsReq(z.m[1]) m == IF q THEN z.m ELSE <<>> IN Expect(r.t = "ok" /\ Shows(r, m, z.c) /\ r.old = (IF q THEN <<>> ELSE z.m[1].body), [z EXCEPT !.m = m], m)
    [] e.op = "swap" -> Expect(r.t = "ok" /\ Shows(r, z.c, z.m), [z EXCEPT !.m = z.c, !.c = z.m], "swapped")
    [] e.op = "write" ->
         LET m == z.m[1] a == IF r.w = <<>> THEN [t |-> "err", view |-> m] ELSE [t |-> "ok", view |-> m, b |-> r.w[1], b2 |-> r.w[1]] IN
         Expect(r.t = "ok" /\ r.twice = 1 /\ r.hb = 1 /\ Shows(r, z.m, z.c) /\ WrittenOk(m.kind, a, m.body), z, m)
    [] e.op = "ubuild" -> LET u == Built(e.calls) IN Expect(IF u.bad THEN r.t = "err" ELSE r.t = "ok" /\ r.u = Strip(u), z, u)
    [] OTHER ->
         IF z.m = <<>> THEN Expect(r.t = "ok" /\ Shows(r, z.m, z.c), z, "nothing")
         ELSE LET m == MStep(z.m[1], e) IN
              Expect(r.t = "ok" /\ Shows(r, <<m>>, z.c) /\ (e.op = "into" => r.old = z.m[1].body), [z EXCEPT !.m = <<m>>], m)
=============================================================================
