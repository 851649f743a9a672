-------------------------------- MODULE T_oct -------------------------------
EXTENDS Oct, TraceBase

OctInitSt(sess) == <<>>
Expect(c, st2, x) == IF c THEN [ok |-> TRUE, st |-> st2, exp |-> ""] ELSE [ok |-> FALSE, st |-> st2, exp |-> x]
One(b) == IF b THEN 1 ELSE 0
EndsWith(q, x) == Len(x) <= Len(q) /\ SubSeq(q, Len(q) - Len(x) + 1, Len(q)) = x
OctStep(q, e) ==
  LET r == e.r good == r.t = "ok" IN
  CASE e.op = "class" -> Expect(good /\ ClassFits(r, e.c), q, "its classes")
    [] e.op = "digit" -> Expect(good /\ IsHex(r.c) /\ HexVal(r.c) = e.n, q, e.n)
    [] e.op = "unhex" -> Expect(HexText(e.b) => good /\ r.b = HexOctets(e.b), q, IF HexText(e.b) THEN HexOctets(e.b) ELSE <<>>)
    [] e.op = "cmp" -> Expect(good /\ r.eq = One(e.a = e.b) /\ r.eqi = One(EqNoCase(e.a, e.b)) /\ r.has = One(Within(e.a, e.b)), q, <<One(e.a = e.b), One(EqNoCase(e.a, e.b)), One(Within(e.a, e.b))>>)
    [] e.op = "fill" -> Expect(good, q \o e.b, "")
    [] e.op = "skip" -> Expect(good, Drop(q, e.n), "")
    \* what was refused may have been taken in part
    [] e.op = "line" -> LET x == LineEnd(q) IN
                        Expect(r.t = x.v /\ (IF x.v = "ok" THEN r.left = Drop(q, x.n) ELSE EndsWith(q, r.left) /\ Len(r.left) >= Len(q) - 2), r.left, x.v)
    \* an error says which it is, also when it is passed on; only missing input asks for more
    [] e.op = "err" -> Expect(good /\ r.partial = One(e.k = "partial") /\ r.text = r.inner /\ (e.k \in OneOf => r.text # <<>>), q, "")
=============================================================================
