-------------------------------- MODULE T_ext -------------------------------
EXTENDS Ext, TraceBase
ExtInitSt(sess) == <<Empty, Empty>>
Expect(c, st2, x) == IF c THEN [ok |-> TRUE, st |-> st2, exp |-> ""] ELSE [ok |-> FALSE, st |-> st2, exp |-> x]
ExtStep(m, e) ==
  LET a == Apply(m, e) r == e.r IN
  Expect(/\ r.t = "ok" /\ r.v = a.v /\ r.all = a.ws /\ r.alive = Alive(a.ws)
         /\ \A k \in 1..2 : r.len[k] = Size(a.ws[k]) /\ r.empty[k] = (IF Size(a.ws[k]) = 0 THEN 1 ELSE 0), a.ws, a)
=============================================================================
