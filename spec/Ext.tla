-------------------------------- MODULE Ext ---------------------------------
(* Stores of values by type: a partial map from type to the last value.      *)
EXTENDS Bytes
None0 == <<>>
Some0(x) == <<x>>
Kinds == 12
Unit == 7          \* the type with one value, shown as 0
Counted == 11      \* the type whose living values are counted
Shown(k, v) == IF k = Unit THEN 0 ELSE v
Empty == [k \in 1..Kinds |-> None0]
Put(x, k, v) == [x EXCEPT ![k] = Some0(Shown(k, v))]
Drop1(x, k) == [x EXCEPT ![k] = None0]
Size(x) == Cardinality({k \in 1..Kinds : x[k] # None0})
Merge(x, y) == [k \in 1..Kinds |-> IF y[k] # None0 THEN y[k] ELSE x[k]]

Stores == [1..2 -> [1..Kinds -> {<<>>} \cup {<<v>> : v \in 0..3}]]
(* the store after a call and what the call returns *)
Apply(ws, o) ==
  LET w == o.w + 1 x == ws[w] IN
  CASE o.op = "ins" -> [ws |-> [ws EXCEPT ![w] = Put(x, o.k, o.v)], v |-> x[o.k]]
    [] o.op = "get" -> [ws |-> ws, v |-> x[o.k]]
    [] o.op = "mut" -> [ws |-> IF x[o.k] = None0 THEN ws ELSE [ws EXCEPT ![w] = Put(x, o.k, o.v)], v |-> x[o.k]]
    [] o.op = "rem" -> [ws |-> [ws EXCEPT ![w] = Drop1(x, o.k)], v |-> x[o.k]]
    [] o.op \in {"clr", "new"} -> [ws |-> [ws EXCEPT ![w] = Empty], v |-> None0]
    [] o.op = "ext" -> [ws |-> [ws EXCEPT ![w] = Merge(x, ws[3 - w]), ![3 - w] = Empty], v |-> None0]
Alive(ws) == (IF ws[1][Counted] # None0 THEN 1 ELSE 0) + (IF ws[2][Counted] # None0 THEN 1 ELSE 0)
=============================================================================
