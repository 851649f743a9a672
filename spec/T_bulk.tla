------------------------------- MODULE T_bulk --------------------------------
(* Long periodic inputs.  What a decoder answers to pre \o unit^n \o post is   *)
(* what the automata say of the same input with at most Pump repetitions: by   *)
(* then every counter in them (digits, integer octets, padding) has settled,   *)
(* and what is used and delivered grows by the same amount with each unit.     *)
EXTENDS Http2, TraceBase
W == INSTANCE Ws

BulkInitSt(sess) == <<>>
Expect(c, st2, x) == IF c THEN [ok |-> TRUE, st |-> st2, exp |-> ""] ELSE [ok |-> FALSE, st |-> st2, exp |-> x]
Pump == 80
RECURSIVE Rep(_, _)
Rep(u, n) == IF n = 0 THEN <<>> ELSE u \o Rep(u, n - 1)
Word(e, n) == e.pre \o Rep(e.unit, n) \o e.post

Ans(vs, used, cnt) == [vs |-> vs, used |-> used, cnt |-> cnt]
Err == Ans({"err"}, 0, 0)
AnyAns == Ans({"ok", "err", "partial", "eof"}, -1, -1)
RECURSIVE WsRun(_, _)
WsRun(b, fs) == IF b = <<>> THEN [v |-> "ok", fs |-> fs]
                ELSE LET p == W!Parse(b, -1) IN
                     IF p.v = "ok" THEN WsRun(Drop(b, p.used), Append(fs, p.f)) ELSE [v |-> p.v, bad |-> p.bad, fs |-> fs]
Ev(dec, b) ==
  CASE dec \in {"req", "resp"} -> LET h == HeadOf(dec, b) IN Ans(Verdicts(h), h.used, Len(h.hs))
    [] dec = "url" -> LET u == ParseUrl(b) IN
                      (CASE u.v = "ok" -> Ans({"ok"}, Len(b), Len(u.path) + (IF u.query = None THEN 0 ELSE Len(u.query[1])))
                         [] u.v = "bad" -> Err [] OTHER -> AnyAns)
    [] dec = "pct" -> LET d == PctDecode(b) IN IF d.ok THEN Ans(IF IsUtf8(d.b) THEN {"ok"} ELSE {"ok", "err"}, Len(b), IF IsUtf8(d.b) THEN Len(d.b) ELSE -1) ELSE Err
    [] dec = "chunk" -> LET k == ChunkOf(b) IN Ans(ChunkVerdicts(k), k.used, k.n)
    [] dec = "chunks" -> LET x == ChunksOf(b, <<>>) IN
                         IF x.done THEN Ans({"ok"}, Len(b) - Len(x.rest), Len(x.body)) ELSE LET k == ChunkOf(x.rest) IN Ans(ChunkVerdicts(k), -1, -1)
    [] dec = "hpack" -> LET d == DecBlock(Table0, b) IN
                        IF d.any THEN AnyAns ELSE IF d.v # "ok" THEN Err ELSE Ans(IF d.lax THEN {"ok", "err"} ELSE {"ok"}, Len(b), Len(d.hs))
    [] dec = "huff" -> LET x == HuffDecode(b) IN IF x.ok THEN Ans({"ok"}, Len(b), Len(x.s)) ELSE Err
    [] dec = "h2" -> LET p == Read(b, Table0, Huge) IN
                     (CASE p.end = "done" -> Ans({"ok"}, Len(b), Len(p.fs)) [] p.end = "short" -> Ans({"partial"}, 0, 0) [] p.end = "any" -> AnyAns [] OTHER -> Err)
    [] dec = "b64" -> LET d == B64Decode(b) sp == SettParse(d.b) IN
                      IF d.v = "bad" \/ ~sp.ok THEN Err ELSE Ans(IF d.v = "ok" THEN {"ok"} ELSE {"ok", "err"}, Len(b), Cardinality({k \in 1..8 : sp.v[k] # None}))
    [] dec = "len" -> LET z == {k \in 1..Len(b) : b[k] # 48} sig == IF z = {} THEN 0 ELSE Len(b) + 1 - CHOOSE k \in z : \A j \in z : k <= j IN
                      Ans({"ok"}, Len(b), IF DecVal(b) < 0 \/ sig = 0 \/ sig >= 21 THEN 0 ELSE IF sig <= 18 THEN 1 ELSE -1)
    [] dec = "tok" -> Ans({"ok"}, Len(b), IF HasToken(b, ChunkedT) THEN 1 ELSE 0)
    [] dec \in {"ws", "wsmsg"} ->
         LET x == WsRun(b, <<>>) IN
         IF x.v = "eof" THEN Ans({"eof"} \cup (IF x.bad THEN {"err"} ELSE {}), 0, 0)
         ELSE IF x.v = "bad" THEN Err
         ELSE IF dec = "ws" THEN Ans({"ok"}, Len(b), Len(x.fs))
         ELSE LET a == W!Assemble(x.fs) IN IF a.ok THEN Ans({"ok"}, Len(b), Len(W!MsgPayload(a.m))) ELSE Ans({"err", "eof"}, 0, 0)
(* continue the law of the last two lengths to n repetitions *)
Line(x, y, by) == IF x < 0 \/ y < 0 THEN -1 ELSE y + (y - x) * by
EvN(e) ==
  IF e.n <= Pump THEN Ev(e.dec, Word(e, e.n))
  ELSE LET y == Ev(e.dec, Word(e, Pump)) x == Ev(e.dec, Word(e, Pump - 1)) IN
       Ans(y.vs, Line(x.used, y.used, e.n - Pump), Line(x.cnt, y.cnt, e.n - Pump))

BulkStep(m, e) ==
  LET r == e.r x == EvN(e) IN
  Expect(r.t \in x.vs /\ (r.t = "ok" => (x.used < 0 \/ r.used = x.used) /\ (x.cnt < 0 \/ r.cnt = x.cnt)), m, x)
=============================================================================
