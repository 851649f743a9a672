-------------------------------- MODULE M_ext -------------------------------
EXTENDS Ext, Json
CONSTANTS MaxOps, UseKinds, UseValues
VARIABLES ws, last, before, hist
vars == <<ws, last, before, hist>>
View == <<ws, last, before, Len(hist)>>
Init == ws = <<Empty, Empty>> /\ before = ws /\ last = [op |-> "clr", w |-> 0, k |-> 1, v |-> 0, r |-> None0] /\ hist = <<>>
Do(o) == LET a == Apply(ws, o) IN
         /\ Len(hist) < MaxOps /\ ws' = a.ws /\ before' = ws /\ last' = [op |-> o.op, w |-> o.w, k |-> o.k, v |-> o.v, r |-> a.v] /\ hist' = Append(hist, o)
         /\ PrintT("SCRIPT " \o ToJson(hist'))
Next == \E w \in 0..1 : \/ \E k \in UseKinds, v \in UseValues, op \in {"ins", "mut"} : Do([op |-> op, w |-> w, k |-> k, v |-> v])
                        \/ \E k \in UseKinds, op \in {"rem", "get"} : Do([op |-> op, w |-> w, k |-> k, v |-> 0])
                        \/ \E op \in {"clr", "ext", "new"} : Do([op |-> op, w |-> w, k |-> 1, v |-> 0])
Spec == Init /\ [][Next]_vars
\* a call touches one type of one store, except clearing and merging
Frame == last.op \in {"ins", "mut", "rem", "get"} =>
           \A w \in 1..2, k \in 1..Kinds : (w # last.w + 1 \/ k # last.k) => ws[w][k] = before[w][k]
Returned == last.op \in {"ins", "mut", "rem", "get"} => last.r = before[last.w + 1][last.k]
Effect == CASE last.op = "ins" -> ws[last.w + 1][last.k] = Some0(Shown(last.k, last.v))
            [] last.op = "rem" -> ws[last.w + 1][last.k] = None0
            [] last.op \in {"clr", "new"} -> Size(ws[last.w + 1]) = 0
            [] last.op = "ext" -> /\ Size(ws[2 - last.w]) = 0
                                  /\ \A k \in 1..Kinds : ws[last.w + 1][k] = (IF before[2 - last.w][k] # None0 THEN before[2 - last.w][k] ELSE before[last.w + 1][k])
            [] OTHER -> TRUE
NoneLost == last.op = "ext" => Size(ws[last.w + 1]) >= Size(before[1]) /\ Size(ws[last.w + 1]) <= Size(before[1]) + Size(before[2])
=============================================================================
