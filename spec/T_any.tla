-------------------------------- MODULE T_any --------------------------------
(* Robustness: whatever a call is given and whatever came before, it answers, *)
(* never takes more than it was given, and holds memory in proportion.        *)
EXTENDS Bytes, TraceBase

(* octets that arrived and were not yet taken *)
AnyInitSt(sess) == [have |-> 0]
Answers == {"ok", "err", "partial", "eof", "berr", "serr", "differ"}
Given1(e) == IF "b" \in DOMAIN e THEN Len(e.b) ELSE IF "pre" \in DOMAIN e THEN Len(e.pre) + Len(e.unit) * e.n + Len(e.post) ELSE 0
Adds(e) == e.op \in {"feed", "recv", "raw"}
Drops(e) == e.op \in {"obj", "next"}
Used(r) == IF r.t # "ok" THEN 0 ELSE IF "used" \in DOMAIN r THEN r.used ELSE IF "left" \in DOMAIN r THEN 0 ELSE IF {"h", "n"} \subseteq DOMAIN r /\ ~("b" \in DOMAIN r) THEN r.h + r.n ELSE 0
AnyStep(m, e) ==
  LET have == (IF Drops(e) THEN 0 ELSE m.have) + (IF Adds(e) THEN Given1(e) ELSE IF e.op \in {"tx", "txm"} /\ e.r.t = "ok" THEN e.r.n ELSE 0)
      room == IF Adds(e) \/ e.op \in {"rx", "take", "mv"} THEN have ELSE Given1(e)
      u == Used(e.r)
  IN [ok |-> e.r.t \in Answers /\ u >= 0 /\ u <= room /\ (("left" \in DOMAIN e.r /\ "b" \in DOMAIN e) => e.r.left >= 0 /\ e.r.left <= Len(e.b)),
      st |-> [have |-> IF e.op = "rx" THEN have - u ELSE have], exp |-> <<"an answer that uses no more than", room>>]
=============================================================================
