-------------------------------- MODULE T_out -------------------------------
EXTENDS Out, TraceBase

OutInitSt(sess) == <<>>
Expect(c, st2, x) == IF c THEN [ok |-> TRUE, st |-> st2, exp |-> ""] ELSE [ok |-> FALSE, st |-> st2, exp |-> x]

(* written o.times times over from the same value *)
WriteOk(q, o, r) ==
  LET P == Pieces(o) IN
  IF P = {} THEN r.t = "err" /\ Starts(r.out, q)
  ELSE r.t = "ok" /\ \E p \in P : r.out = q \o Times(p, o.times) /\ r.ns = [j \in 1..o.times |-> Len(p)]
KindName(c) == IF c > 9 THEN {c, 255} ELSE {c}
GoodFlags(f) == (f % 2) + 4 * ((f \div 4) % 2) + 8 * ((f \div 8) % 2) + 32 * ((f \div 32) % 2) = f
OutStep(q, e) ==
  LET r == e.r IN
  CASE e.op = "w" -> Expect(WriteOk(q, e, r) /\ (r.t = "ok" => \A j \in 1..Len(r.disp) : Shown(e, r.disp[j])), r.out, Pieces(e))
    [] e.op = "drop" -> Expect(r.t = "ok" /\ r.out = Drop(q, e.n), r.out, Drop(q, e.n))
    [] e.op = "rd" ->
         LET x == Read(e.k, q) IN
         IF x.v = "short" THEN Expect(r.out = q /\ (IF e.k = "fh" THEN r.t = "err" ELSE r.t = "ok" /\ \A j \in 1..Len(r.b) : r.b[j] = 0), r.out, "too little to read")
         ELSE IF e.k = "fh" /\ ~GoodFlags(q[5]) THEN Expect(Ends(q, r.out), r.out, "open")
         ELSE Expect(r.t = "ok" /\ r.out = Drop(q, x.used) /\ (IF e.k = "fh" THEN Take(r.b, 3) = Take(x.b, 3) /\ r.b[4] \in KindName(x.b[4]) /\ Drop(r.b, 4) = Drop(x.b, 4) ELSE r.b = x.b \/ (e.k = "inc" /\ r.b = Mask31(x.b))), r.out, x.b)
=============================================================================
