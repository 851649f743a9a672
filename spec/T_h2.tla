-------------------------------- MODULE T_h2 --------------------------------
EXTENDS Http2, TraceBase

(* d: the decoding context of the session; e: its encoder's table *)
H2InitSt(sess) == [d |-> Table0, e |-> Table0]
Expect(c, st2, x) == IF c THEN [ok |-> TRUE, st |-> st2, exp |-> ""] ELSE [ok |-> FALSE, st |-> st2, exp |-> x]

StOf(p) == IF p.st = None THEN None ELSE Some(StatusVal(p.st[1]))
PartsOk(v, p, sc) == v.m = p.m /\ (sc => v.sc = p.sc) /\ v.au = p.au /\ v.pa = p.pa /\ v.st = StOf(p) /\ v.hs = p.hs
Ack(x) == x.fl % 2
ViewOk(v, x) ==
  /\ v.k = x.k /\ v.sid = x.sid
  /\ v.fl = (CASE x.k \in {"data", "headers", "push"} -> x.fl [] x.k = "settings" -> Ack(x) [] OTHER -> 0)
  /\ v.es = (IF x.k \in {"data", "headers"} THEN Ack(x) ELSE 0) /\ v.eh = (IF x.k = "headers" /\ Bit(x.fl, EndHeaders) THEN 1 ELSE 0)
  /\ v.ih = (IF x.k = "headers" THEN 1 ELSE 0) /\ v.idt = (IF x.k = "data" THEN 1 ELSE 0)
  /\ CASE x.k = "data" -> v.p = x.p /\ v.fid = x.sid
       [] x.k = "headers" -> PartsOk(v, x.parts, TRUE) /\ v.info = (IF x.parts.st # None /\ x.parts.st[1][1] = 49 THEN 1 ELSE 0)
       [] x.k = "push" -> PartsOk(v, x.parts, FALSE) /\ v.id = x.id /\ v.peh = (IF Bit(x.fl, EndHeaders) THEN 1 ELSE 0)
       [] x.k = "priority" -> v.id = x.dep.id /\ v.w = x.dep.w
       [] x.k = "reset" -> v.code = x.code
       [] x.k = "settings" -> v.ack = Ack(x) /\ v.sett = x.sett
       [] x.k = "ping" -> v.ack = Ack(x) /\ v.p = x.p
       [] x.k = "goaway" -> v.id = x.id /\ v.code = x.code /\ v.p = x.p
       [] x.k = "window" -> v.id = x.id
ViewsOk(vs, xs) == Len(vs) = Len(xs) /\ \A k \in 1..Len(xs) : ViewOk(vs[k], xs[k])
ReadOk(r, p) == IF p.end = "any" THEN Len(r.fs) >= Len(p.fs) /\ ViewsOk(Take(r.fs, Len(p.fs)), p.fs)
                ELSE r.end = p.end /\ ViewsOk(r.fs, p.fs)

(* a decoded frame written again by an encoder with a fresh context *)
Rewritten(x) == [x EXCEPT !.fl = CASE x.k \in {"settings", "ping"} -> Ack(x) [] x.k = "data" -> x.fl
                                   [] x.k = "headers" -> With(x.fl, EndHeaders) [] x.k = "push" -> With(x.fl, EndHeaders) [] OTHER -> 0]
NoFl(x) == [x EXCEPT !.fl = 0]
RewrittenOk(r, x) ==
  IF x.k = "push" /\ x.parts.st # None THEN TRUE
  ELSE /\ r.t = "ok" /\ r.n = Len(r.b)
       /\ LET q == Read(r.b, Table0, Huge) IN q.end = "done" /\ q.fs = <<Rewritten(x)>>

(* ---- encoding ---- *)
EndF(raw, k) == Bit(raw[k].fl, EndStream)
(* the value the given frame record stands for *)
GivenParts(f) ==
  LET hs == LowerFields(FoldLeft(LAMBDA a, y : SetField(a, y[1], y[2]), <<>>, f.hs)) IN
  [m |-> f.m, sc |-> f.sc, au |-> f.au, pa |-> f.pa, st |-> IF f.st = None THEN None ELSE Some(DecText(f.st[1])), hs |-> hs]
Given(f) ==
  LET x == [X0 EXCEPT !.k = f.k, !.sid = f.sid, !.fl = f.fl] IN
  CASE f.k = "data" -> [x EXCEPT !.p = f.p]
    [] f.k = "headers" -> [x EXCEPT !.parts = GivenParts(f), !.fl = Without(With(f.fl, EndHeaders), Prio)]
    [] f.k = "push" -> [x EXCEPT !.parts = GivenParts(f), !.id = f.id, !.fl = With(f.fl, EndHeaders)]
    [] f.k = "reset" -> [x EXCEPT !.code = f.code, !.fl = 0]
    [] f.k = "settings" -> [x EXCEPT !.sid = 0, !.fl = f.ack, !.sett = IF f.ack = 1 THEN Sett0 ELSE f.sett]
    [] f.k = "ping" -> [x EXCEPT !.sid = 0, !.fl = f.ack, !.p = f.p]
    [] f.k = "goaway" -> [x EXCEPT !.sid = 0, !.fl = 0, !.id = f.id, !.code = f.code, !.p = f.p]
    [] f.k = "window" -> [x EXCEPT !.fl = 0, !.id = f.id]
Limited(raw, max) == \A k \in 1..Len(raw) : raw[k].len <= max
(* header frame, then continuations: END_HEADERS on the last only, the other flags on the first *)
BlockFrames(raw, kind, sid, fl) ==
  /\ raw # <<>>
  /\ \A k \in 1..Len(raw) : /\ raw[k].sid = sid /\ raw[k].kind = (IF k = 1 THEN kind ELSE CONT)
                            /\ Without(raw[k].fl, EndHeaders) = (IF k = 1 THEN Without(fl, EndHeaders) ELSE 0)
                            /\ Bit(raw[k].fl, EndHeaders) = (k = Len(raw))
DataFrames(raw, sid, fl) ==
  /\ raw # <<>>
  /\ \A k \in 1..Len(raw) : raw[k].sid = sid /\ raw[k].kind = DATA /\ Bit(raw[k].fl, EndStream) = (k = Len(raw) /\ Bit(fl, EndStream))
  /\ Len(raw) = 1 => raw[1].fl = fl
Payloads(fs) == FoldLeft(LAMBDA a, x : a \o x.p, <<>>, fs)
SameParts(a, b) == a.m = b.m /\ a.sc = b.sc /\ a.au = b.au /\ a.pa = b.pa /\ a.st = b.st /\ a.hs = b.hs
(* fs: the values the written octets denote *)
WroteOk(x, raw, fs, max) ==
  CASE x.k = "data" -> Limited(raw, max) /\ DataFrames(raw, x.sid, x.fl) /\ Payloads(fs) = x.p
    [] x.k = "headers" -> Limited(raw, max) /\ BlockFrames(raw, HEADERS, x.sid, x.fl) /\ Len(fs) = 1 /\ SameParts(fs[1].parts, x.parts) /\ fs[1].dep = NoDep
    [] x.k = "push" ->
         IF x.parts.st = None
         THEN Limited(raw, max) /\ BlockFrames(raw, PUSH, x.sid, x.fl) /\ Len(fs) = 1 /\ SameParts(fs[1].parts, x.parts) /\ fs[1].id = x.id
         ELSE LET H == {k \in 1..Len(raw) : raw[k].kind = HEADERS} IN
              /\ Limited(raw, max) /\ Cardinality(H) = 1 /\ Len(fs) = 2
              /\ LET h == CHOOSE k \in H : TRUE IN
                 BlockFrames(Take(raw, h - 1), PUSH, x.sid, x.fl) /\ BlockFrames(Drop(raw, h - 1), HEADERS, x.id, x.fl % 2)
              /\ fs[1].id = x.id /\ SameParts(fs[1].parts, [x.parts EXCEPT !.st = None, !.hs = <<>>])
              /\ SameParts(fs[2].parts, [Parts0 EXCEPT !.st = x.parts.st, !.hs = x.parts.hs])
    [] OTHER -> Len(raw) = 1 /\ fs = <<x>>
Brief2(p) == [end |-> p.end, fs |-> IF Len(ToString(p.fs)) > 3000 THEN <<>> ELSE p.fs]

(* what octets an encoding event gave must be: written from context e, read back with context d *)
Encoded(m, r, max, lim, ok(_, _)) ==
  LET raw == RawFrames(r.b) p == Read(r.b, m.e, Huge) q == Read(r.b, m.d, max) IN
  [ok |-> /\ r.t = "ok" /\ r.n = Len(r.b) /\ p.end = "done" /\ ok(raw, p.fs) /\ (m.d.dead \/ ReadOk(r.back, q)),
   st |-> [m EXCEPT !.e = p.d, !.d = IF m.d.dead THEN @ ELSE q.d], p |-> p, q |-> q, raw |-> raw]

(* ---- messages ---- *)
DropHost(hs) == SelectSeq(hs, LAMBDA y : ~EqNoCase(y[1], HostN))
(* the URL of the pseudo-header fields *)
PseudoUrl(p) ==
  IF p.au = None THEN BadUrl
  ELSE LET path == IF p.pa = None THEN <<Slash>> ELSE p.pa[1] star == path = <<42>> IN
       IF Has(p.au[1], Slash) \/ Has(p.au[1], Question) \/ (~star /\ (path = <<>> \/ path[1] # Slash)) THEN BadUrl
       ELSE IF Has(p.au[1], AtSign) THEN LaxUrl
       ELSE LET u == ParseUrl((IF p.sc = None THEN HttpS ELSE p.sc[1]) \o <<Colon, Slash, Slash>> \o p.au[1] \o (IF star THEN <<Slash>> ELSE path)) IN
            IF u.v = "ok" /\ star THEN [u EXCEPT !.path = <<42>>] ELSE u
SameUrl(u, x) == /\ u.scheme = (IF x.scheme = None THEN <<>> ELSE <<x.scheme>>) /\ u.user = x.user /\ u.pass = x.pass
                 /\ u.dom = x.dom /\ u.port = x.port /\ u.path = x.path /\ u.query = x.query
GotFields(sent, got) ==
  /\ SameFields(DropHost(got), DropHost(sent))
  /\ FieldVal(sent, HostN) # None => FieldVal(got, HostN) = FieldVal(sent, HostN)
Delivered(r, max) ==   \* the reader took the whole message
  r.back.end = "done"
MsgFrames(raw, sid, body) ==
  LET D == {k \in 1..Len(raw) : raw[k].kind = DATA} h == Len(raw) - Cardinality(D) IN
  /\ BlockFrames(Take(raw, h), HEADERS, sid, EndHeaders + (IF body = <<>> THEN 1 ELSE 0))
  /\ IF body = <<>> THEN D = {} ELSE DataFrames(Drop(raw, h), sid, 1)
FlagCall(f, c) == CASE c = 1 -> With(f, EndStream) [] c = 2 -> Without(f, EndStream) [] c = 3 -> With(f, EndHeaders) [] c = 4 -> Without(f, EndHeaders)
                    [] c = 5 -> With(f, Padded) [] c = 6 -> Without(f, Padded) [] c = 7 -> With(f, 1) [] c = 8 -> 0 [] c = 9 -> 1 [] c = 10 -> EndStream
                    [] c = 11 -> EndHeaders [] c = 12 -> Padded [] c = 13 -> Prio
(* RFC 9113 8.4: a promised request is safe, cacheable and without content *)
PromiseMethod(x) == x \in {<<71,69,84>>, <<72,69,65,68>>}
PutAll(hs) == FoldLeft(LAMBDA a, y : SetField(a, y[1], y[2]), <<>>, hs)
Promisable(x, hs) == PromiseMethod(x) /\ LET c == FieldVal(PutAll(hs), ClN) t == FieldVal(PutAll(hs), TeN) IN t = None /\ (c = None \/ c = Some(<<48>>))
(* a declared length that is no number, or a coding that is not chunked: no content that can be told *)
PromiseOpen(x, hs) == PromiseMethod(x) /\ LET c == FieldVal(PutAll(hs), ClN) IN IF c = None THEN TRUE ELSE DecVal(c[1]) <= 0 \/ Len(c[1]) > 18

(* a frame handed to the parser by itself: the declared length and what is there may differ *)
One(e) ==
  IF ~KnownFlags(e.fl) THEN AnyF(Table0)
  ELSE IF e.own = 1 THEN
    IF e.kind \in {PRIORITY, RST} /\ e.sid = 0 THEN AnyF(Table0)
    ELSE Meaning(e.kind, e.fl, IF e.kind = GOAWAY THEN 0 ELSE e.sid, Len(e.p), e.p, Table0, e.max)
  ELSE IF Len(e.p) < e.len THEN Bad(Table0)
  ELSE IF Len(e.p) > e.len /\ e.kind \notin {HEADERS, PUSH} THEN AnyF(Table0)
  ELSE Meaning(e.kind, e.fl, e.sid, e.len, e.p, Table0, e.max)

H2Step(m, e) ==
  LET r == e.r IN
  CASE e.op = "hdr" ->
         Expect(IF Len(e.b) < 9 THEN r.t \in {"err", "partial"}
                ELSE IF ~KnownFlags(e.b[5]) THEN r.t = "err" \/ r.t = "ok"
                ELSE r.t = "ok" /\ r.len = BeVal(SubSeq(e.b, 1, 3)) /\ r.kind = (IF e.b[4] > CONT THEN 255 ELSE e.b[4]) /\ r.fl = e.b[5]
                     /\ r.sid = Id31(SubSeq(e.b, 6, 9)) /\ r.left = Len(e.b) - 9
                     /\ r.n = 9 /\ r.b = <<e.b[1], e.b[2], e.b[3], r.kind, r.fl>> \o Be4(r.sid), m, "header")
    [] e.op = "read" ->
         IF m.d.dead THEN Expect(TRUE, m, "any")
         ELSE LET p == Read(e.b, m.d, e.max) IN
              Expect(ReadOk(r, p) /\ (\A k \in 1..Len(p.fs) : RewrittenOk(r.re[k], p.fs[k])), [m EXCEPT !.d = p.d], Brief2(p))
    [] e.op = "one" ->
         LET z == One(e) IN Expect(CASE z.v = "any" -> r.t \in {"ok", "err"} [] z.v = "err" -> r.t = "err" [] OTHER -> r.t = "ok" /\ ViewOk(r.f, z.x), m, z.v)
    [] e.op = "resize" -> Expect(r.t = "ok", [m EXCEPT !.d = Resize(@, e.n), !.e = Resize(@, e.n)], "ok")
    [] e.op = "enc" ->
         LET x == Given(e.f)
             z == IF r.t = "ok" THEN Encoded(m, r, e.max, 0, LAMBDA raw, fs : WroteOk(x, raw, fs, e.mfs)) ELSE [ok |-> FALSE, st |-> m, p |-> [end |-> "", fs |-> <<>>]]
         IN Expect(z.ok, z.st, <<Brief2([end |-> "", fs |-> x]), Brief2(z.p)>>)
    [] e.op = "sett" ->
         LET f == RawFrame(r.b) IN
         Expect(/\ r.t = "ok" /\ r.view = e.sett /\ r.n = Len(r.b) /\ f.v = "ok" /\ f.rest = <<>> /\ f.kind = SETTINGS /\ f.fl = 0 /\ f.sid = 0
                /\ f.len = r.len /\ r.len = 6 * Cardinality({k \in 1..8 : e.sett[k] # None})
                /\ SettParse(f.p) = [ok |-> TRUE, v |-> e.sett] /\ r.text = B64Encode(f.p)
                /\ FieldVal(r.up, <<72,84,84,80,50,45,83,101,116,116,105,110,103,115>>) = Some(r.text)
                /\ FieldVal(r.up, <<85,112,103,114,97,100,101>>) = Some(<<104,50,99>>)
                /\ LET c == FieldVal(r.up, <<67,111,110,110,101,99,116,105,111,110>>) IN
                   c # None /\ HasToken(c[1], <<85,112,103,114,97,100,101>>) /\ HasToken(c[1], <<72,84,84,80,50,45,83,101,116,116,105,110,103,115>>)
                /\ FieldVal(r.up, <<88,45,65>>) = Some(<<49>>), m, e.sett)
    [] e.op = "b64" ->
         LET d == B64Decode(e.b) sp == SettParse(d.b) IN
         Expect(IF d.v = "bad" \/ ~sp.ok THEN r.t = "err"
                ELSE (d.v = "lax" /\ r.t = "err") \/ (r.t = "ok" /\ r.sett = sp.v /\ r.ack = 0
                      /\ LET y == B64Decode(r.text) IN y.v = "ok" /\ SettParse(y.b) = sp), m, sp)
    [] e.op = "promise" -> Expect(r.t = (IF Promisable(e.m, e.hs) THEN "ok" ELSE IF PromiseOpen(e.m, e.hs) THEN r.t ELSE "err"), m, Promisable(e.m, e.hs))
    [] e.op = "flags" -> LET f == FoldLeft(FlagCall, e.fl, e.calls) IN
                         Expect(IF KnownFlags(e.fl) THEN r.t = "ok" /\ r.b = f /\ r.is = [k \in 1..5 |-> IF Bit(f, <<1, EndStream, EndHeaders, Padded, Prio>>[k]) THEN 1 ELSE 0] ELSE r.t = "err", m, f)
    [] e.op = "ids" -> Expect(r.t = "ok" /\ Len(r.ids) = e.n /\ \A k \in 1..e.n : r.ids[k] = <<(IF e.first = 1 THEN 1 ELSE 2) + 2 * (k - 1), 1, 0>>, m, "consecutive")
    [] e.op = "xreq" ->
         IF r.t = "berr" THEN Expect(ParseUrl(e.url).v # "ok" \/ e.m \notin Methods, m, "a request")
         ELSE IF r.t # "ok" THEN Expect(FALSE, m, "ok")
         ELSE
         LET u == ParseUrl(e.url)
             z == Encoded(m, r, e.max, 0, LAMBDA raw, fs :
                    /\ Limited(raw, e.mfs) /\ MsgFrames(raw, e.sid, e.body)
                    /\ fs # <<>>
                    /\ LET p == fs[1].parts IN
                       /\ p.m = Some(e.m) /\ p.st = None /\ SameFields(p.hs, r.sent)
                       /\ IF e.form = 1 THEN u.v = "ok" => (LET w == PseudoUrl(p) IN IF u.dom = None THEN /\ w.v = "bad" /\ p.au = None /\ (u.scheme = None => p.sc = e.sc)
                                                                                                               /\ LET y == PseudoUrl([p EXCEPT !.au = Some(<<104>>)]) IN y.v = "lax" \/ (y.v = "ok" /\ y.path = u.path /\ y.query = u.query)
                                                                                          ELSE IF w.v = "ok" THEN [w EXCEPT !.user = u.user, !.pass = u.pass] = u ELSE w.v = "lax")
                          ELSE p.sc = e.sc /\ p.au = e.au /\ p.pa = e.pa /\ SameFields(r.sent, PartsOf(e.hs).hs))
             p == IF z.p.fs = <<>> THEN Parts0 ELSE z.p.fs[1].parts
             w == PseudoUrl(p)
         IN Expect(z.ok /\ (z.q.end # "done" \/ (CASE w.v = "bad" -> r.got.t = "err"
                                                   [] w.v = "lax" -> TRUE
                                                   [] OTHER -> r.got.t = "ok" /\ r.got.m = e.m /\ SameUrl(r.got.u, w) /\ GotFields(r.sent, r.got.hs))),
                   z.st, <<Brief2(z.p), w>>)
    [] e.op = "xresp" ->
         IF r.t # "ok" THEN Expect(FALSE, m, "ok")
         ELSE
         LET z == Encoded(m, r, e.max, 0, LAMBDA raw, fs :
                    /\ Limited(raw, e.mfs) /\ MsgFrames(raw, e.sid, e.body) /\ fs # <<>>
                    /\ LET p == fs[1].parts IN /\ p.st = Some(DecText(e.st)) /\ p.m = None /\ p.pa = None /\ p.sc = None /\ p.au = None /\ SameFields(p.hs, r.sent))
         IN Expect(z.ok /\ (z.q.end # "done" \/ (r.got.t = "ok" /\ r.got.st = e.st /\ SameFields(r.got.hs, r.sent))), z.st, Brief2(z.p))
=============================================================================
