------------------------------- MODULE T_http1 -------------------------------
EXTENDS Http1, TraceBase

(* kind and automaton of the bytes fed so far, receiver, and the last head parsed successfully *)
HttpInitSt(sess) == [kind |-> "req", h |-> Head0("req"), r |-> Recv0("req"), last |-> <<>>]
Expect(c, st2, x) == IF c THEN [ok |-> TRUE, st |-> st2, exp |-> ""] ELSE [ok |-> FALSE, st |-> st2, exp |-> x]

SameUrl(u, x) == /\ u.scheme = (IF x.scheme = None THEN <<>> ELSE <<x.scheme>>) /\ u.user = x.user /\ u.pass = x.pass
                 /\ u.dom = x.dom /\ (u.port = x.port \/ (x.dom = None /\ u.port \in {0, -1})) /\ u.path = x.path /\ u.query = x.query
FullName(v) == v
MsgOk(h, m) ==
  /\ m.version = h.version /\ SameFields(m.hs, h.hs) /\ m.partial = 0 /\ m.chunked = (IF IsChunked(h.hs) THEN 1 ELSE 0)
  /\ IF h.kind = "resp" THEN m.status = StatusVal(h.status)
     ELSE /\ m.method = h.method /\ m.path = m.u.path /\ m.complete = 1
          /\ LET u == RequestUrl(h.method, h.target, h.hs) IN u.v = "ok" => SameUrl(m.u, u)
Brief(h) == [v |-> h.v, lax |-> h.lax, ph |-> h.ph, used |-> h.used, version |-> h.version, method |-> h.method, target |-> h.target, status |-> h.status, hs |-> h.hs]
Answer(h, r) == /\ r.t \in Verdicts(h)
                /\ r.t = "ok" => r.used = h.used /\ MsgOk(h, r.msg)

RecvMsg(kind, x, o) == MsgOk(x.h, o.msg) /\ o.body = x.body

HttpStep(m, e) ==
  LET r == e.r IN
  CASE e.op = "obj" -> Expect(r.t = "ok", [kind |-> e.kind, h |-> Head0(e.kind), r |-> Recv0(e.kind), last |-> <<>>], "ok")
    [] e.op = "next" -> Expect(r.t = "ok", [m EXCEPT !.h = Head0(m.kind), !.r = Recv0(m.kind)], "ok")
    [] e.op = "feed" -> LET h == HeadRun(m.h, e.b) IN Expect(Answer(h, r) /\ (r.t = "partial" => r.pa = 1), [m EXCEPT !.h = h], Brief(h))
    [] e.op = "parse" ->
         LET h == HeadOf(m.kind, e.b) IN
         Expect(Answer(h, r) /\ r.ft = r.t /\ r.view = r.fview /\ (r.t = "ok" => r.fused = r.used)
                /\ (r.t = "partial" => r.view.partial = 1), m, Brief(h))
    [] e.op = "pbuf" ->
         LET h == HeadOf(m.kind, e.b) IN
         Expect(Answer(h, r) /\ r.ft = r.t /\ r.view = r.fview /\ r.left = r.fleft
                /\ (r.t = "ok" => r.fused = r.used /\ r.left = Len(e.b) - r.used)
                /\ (r.t = "partial" => r.view.partial = 1), m, Brief(h))
    [] e.op = "ser" ->
         Expect(WrittenOk(m.kind, r, e.body) /\ (r.t = "ok" => r.h = Take(r.b, Len(r.h)) /\ r.n = Len(r.h) /\ Len(r.h) + Len(e.body) = Len(r.b)), m,
                IF r.t = "ok" THEN Brief(HeadOf(m.kind, r.b)) ELSE Brief(Head0(m.kind)))
    [] e.op = "build" -> Expect(r.t = "err" \/ WrittenOk(e.kind, r, e.body), m, IF r.t = "ok" THEN Brief(HeadOf(e.kind, r.b)) ELSE Brief(Head0(e.kind)))
    [] e.op = "cenc" ->
         \* each piece is one chunk; an empty piece ends the body
         Expect(/\ r.t = "ok" /\ r.n = Len(r.b)
                /\ LET go == FoldLeft(LAMBDA a, d : LET k == ChunkOf(a.rest) IN
                                        IF a.ok /\ k.v = "done" /\ ~k.lax /\ k.data = d THEN [ok |-> TRUE, rest |-> Drop(a.rest, k.used)] ELSE [a EXCEPT !.ok = FALSE],
                                      [ok |-> TRUE, rest |-> r.b], e.ds) IN go.ok /\ go.rest = <<>>, m, "one chunk for each piece")
    [] e.op = "cbig" ->
         LET k == ChunkOf(r.head) IN
         Expect(/\ r.t = "ok" /\ r.n = r.total /\ r.total = Len(r.head) + e.n + 2 /\ r.same = 1 /\ r.tail = <<CR, LF>>
                /\ k.v = "run" /\ k.ph = (IF e.n = 0 THEN "tailcr" ELSE "data") /\ ~k.lax /\ k.n = e.n /\ k.head = Len(r.head)
                /\ r.dt = "ok" /\ r.dh = k.head /\ r.dn = e.n /\ r.st = "partial", m, [n |-> k.n, head |-> k.head, ph |-> k.ph])
    [] e.op = "cdec" ->
         LET k == ChunkOf(e.b) IN
         Expect(r.t \in ChunkVerdicts(k) /\ (r.t = "ok" => r.h = k.head /\ r.n = k.n), m, [v |-> k.v, ph |-> k.ph, n |-> k.n, head |-> k.head])
    [] e.op = "recv" ->
         LET had == Len(m.r.out)
             x == RecvRun([m.r EXCEPT !.out = <<>>], e.b)
             lax == x.lax
         IN Expect(/\ r.t = "ok"
                   /\ \/ /\ Len(r.out) = Len(x.out) /\ (\A k \in 1..Len(x.out) : RecvMsg(m.kind, x.out[k], r.out[k]))
                         /\ (x.mode = "stop" => r.stop = 1) /\ (r.stop = 1 => x.mode = "stop" \/ lax \/ Suspect(x.h))
                      \/ lax /\ r.stop = 1 /\ Len(r.out) <= Len(x.out) /\ (\A k \in 1..Len(r.out) : RecvMsg(m.kind, x.out[k], r.out[k])),
                   [m EXCEPT !.r = IF r.stop = 1 THEN [x EXCEPT !.mode = "stop", !.out = <<>>] ELSE [x EXCEPT !.out = <<>>]],
                   [mode |-> x.mode, lax |-> x.lax, out |-> x.out, head |-> Brief(x.h)])
=============================================================================
