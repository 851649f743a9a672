-------------------------------- MODULE M_hdr -------------------------------
(* Design model of the header collection: every short history of calls over *)
(* a few names and values.  Its transitions are replayed into the code.      *)
EXTENDS Hdr, Json

CONSTANTS MaxOps, Names, Values
VARIABLES hs, last, before, hist

NA == <<97>>  NAU == <<65>>  NAT == <<64>>  NGR == <<96>>  NCL == ClN  NCU == <<67>> \o Tail(ClN)
Names1 == {NA, NAU, NAT}
Names2 == {NA, NAU, NAT, NGR, <<>>, NCU}
Values1 == {<<>>, <<49>>}
Values2 == {<<>>, <<49>>, <<120, 59>>}
Init == hs = <<>> /\ last = [op |-> "clear", n |-> <<>>, v |-> <<>>] /\ before = <<>> /\ hist = <<>>
Ask(n) == [op |-> "get", n |-> n, via |-> 2, form |-> 0]
Put(op, n, v) == [op |-> op, n |-> n, v |-> v, api |-> 0, form |-> 1, vform |-> 0]
Do(o, new) == /\ Len(hist) < MaxOps
              /\ hs' = new /\ before' = hs
              /\ last' = [op |-> o.op, n |-> IF "n" \in DOMAIN o THEN o.n ELSE <<>>, v |-> IF "v" \in DOMAIN o THEN o.v ELSE <<>>]
              /\ hist' = Append(hist, o)
              /\ PrintT("SCRIPT " \o ToJson(hist' \o <<Ask(NA), Ask(NAT), [op |-> "show"], [op |-> "q"]>>))
Next == \/ \E n \in Names, v \in Values : \/ Do(Put("ins", n, v), SetField(hs, n, v))
                                          \/ Do(Put("push", n, v), PushField(hs, n, v))
                                          \/ Do([op |-> "mut", n |-> n, v |-> v, vform |-> 0, how |-> 0], IF HasField(hs, n) THEN SetField(hs, n, v) ELSE hs)
        \/ \E n \in Names : Do([op |-> "rem", n |-> n, via |-> 2, form |-> 0], RemField(hs, n))
        \/ Do([op |-> "clear"], <<>>)
vars == <<hs, last, before, hist>>
View == <<hs, last, before, Len(hist)>>
Spec == Init /\ [][Next]_vars

Distinct == \A j, k \in 1..Len(hs) : EqNoCase(hs[j][1], hs[k][1]) => j = k
OtherNames == {n \in Names : ~EqNoCase(n, last.n)}
Undisturbed == last.op # "clear" => \A n \in OtherNames : FieldVal(hs, n) = FieldVal(before, n)
Effect == CASE last.op = "ins" -> FieldVal(hs, last.n) = Some(last.v) /\ Len(hs) = Len(before) + (IF HasField(before, last.n) THEN 0 ELSE 1)
            [] last.op = "push" -> LET o == FieldVal(before, last.n) IN FieldVal(hs, last.n) = Some(IF o = None THEN last.v ELSE o[1] \o <<JoinC>> \o last.v)
            [] last.op = "rem" -> ~HasField(hs, last.n) /\ Len(hs) = Len(before) - (IF HasField(before, last.n) THEN 1 ELSE 0)
            [] last.op = "clear" -> hs = <<>>
            [] OTHER -> Len(hs) = Len(before)
(* the order of the fields that stay never changes *)
Keys(q) == [k \in 1..Len(q) |-> Lower(q[k][1])]
OrderKept == last.op # "clear" => LET a == SelectSeq(Keys(before), LAMBDA y : HasField(hs, y)) b == SelectSeq(Keys(hs), LAMBDA y : HasField(before, y)) IN a = b
(* reading the written form gives the collection back *)
Readable == (\A k \in 1..Len(hs) : FieldOk(hs[k]) /\ TrimR(TrimL(hs[k][2])) = hs[k][2]) =>
              LET h == HeadOf("resp", <<72,84,84,80,47,49,46,49,32,50,48,48,32,13,10>> \o Written(hs)) IN h.v = "done" /\ ~h.lax /\ h.hs = hs
NumLaw == /\ \A q \in {MaxU, MaxI, MinI, Zero} : Unsigned(q) = Some(q) /\ Unsigned(<<48>> \o q) = Some(q) /\ Unsigned(q \o <<48>>) = (IF q = Zero THEN Some(Zero) ELSE None)
          /\ Signed(MaxI) = Some(MaxI) /\ Signed(MinI) = None /\ Signed(<<45>> \o MinI) = Some(<<45>> \o MinI) /\ Signed(<<45>> \o MaxU) = None
ASSUME NumLaw
=============================================================================
