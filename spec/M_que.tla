-------------------------------- MODULE M_que -------------------------------
(* A sender that queues frames: nothing is lost or invented, nothing lighter  *)
(* leaves before something heavier that already waits, stream numbers are     *)
(* handed out once, in order, on one side, and flags are a set.               *)
EXTENDS Que, Json

CONSTANTS Depth, Weights
VARIABLES z, put, got, ids, hist
vars == <<z, put, got, ids, hist>>
Fr(k, sid, fl, p) == [k |-> k, sid |-> sid, fl |-> fl, p |-> p, n |-> 0]
Frames == {Fr("data", 1, 1, <<97>>), Fr("headers", 3, 4, <<98>>), Fr("rst", 1, 0, <<0, 0, 0, 8>>)}
Push(f, w) == [op |-> "push", f |-> f, w |-> w]
Ops == {Push(f, w) : f \in Frames, w \in Weights} \cup {[op |-> "pop"]} \cup {[op |-> "setw", n |-> w] : w \in Weights} \cup {[op |-> "next"], [op |-> "fset", k |-> "es", on |-> 1], [op |-> "fset", k |-> "es", on |-> 0], [op |-> "fset", k |-> "pd", on |-> 1]}
Init == z = [fl |-> 0, id |-> 1, q |-> <<>>] /\ put = <<>> /\ got = <<>> /\ ids = <<>> /\ hist = <<>>
Do(o) ==
  CASE o.op = "push" -> z' = [z EXCEPT !.q = Append(@, [f |-> o.f, w |-> o.w])] /\ put' = Append(put, o.f) /\ UNCHANGED <<got, ids>>
    [] o.op = "pop" -> IF z.q = <<>> THEN UNCHANGED <<z, put, got, ids>> ELSE \E k \in Heaviest(z.q) : z' = [z EXCEPT !.q = Without(@, k)] /\ got' = Append(got, [x |-> z.q[k], over |-> {z.q[j].w : j \in 1..Len(z.q)}]) /\ UNCHANGED <<put, ids>>
    [] o.op = "setw" -> IF z.q = <<>> THEN UNCHANGED <<z, put, got, ids>> ELSE \E k \in Heaviest(z.q) : z' = [z EXCEPT !.q[k].w = o.n] /\ UNCHANGED <<put, got, ids>>
    [] o.op = "next" -> z' = [z EXCEPT !.id = @ + 2] /\ ids' = Append(ids, z.id) /\ UNCHANGED <<put, got>>
    [] o.op = "fset" -> z' = [z EXCEPT !.fl = SetBit(BitOf(o.k), @, o.on = 1)] /\ UNCHANGED <<put, got, ids>>
Next == Len(hist) < Depth /\ \E o \in Ops : Do(o) /\ hist' = Append(hist, o) /\ (Len(hist') = Depth => PrintT("SCRIPT " \o ToJson(hist')))
Spec == Init /\ [][Next]_vars

Count(q, x) == Cardinality({k \in 1..Len(q) : q[k] = x})
Conserved == \A f \in Frames : Count(put, f) = Cardinality({k \in 1..Len(got) : got[k].x.f = f}) + Cardinality({k \in 1..Len(z.q) : z.q[k].f = f})
HeaviestFirst == \A k \in 1..Len(got) : \A w \in got[k].over : w <= got[k].x.w
IdsOnce == \A a, b \in 1..Len(ids) : a < b => ids[a] < ids[b] /\ (ids[b] - ids[a]) % 2 = 0
(* the last word on a flag is what it says, the others are as before *)
LastSaid(k) == LET S == {j \in 1..Len(hist) : hist[j].op = "fset" /\ hist[j].k = k} IN IF S = {} THEN 0 ELSE hist[CHOOSE j \in S : \A m \in S : m <= j].on
FlagsAreASet == z.fl = LastSaid("es") + 8 * LastSaid("pd")
ASSUME \A n \in 0..255 : FlagKnown(FlagKnown(n)) = FlagKnown(n) /\ \A b \in FBits : \A on \in BOOLEAN : BitIn(b, SetBit(b, n, on)) = on /\ \A c \in FBits \ {b} : BitIn(c, SetBit(b, n, on)) = BitIn(c, n)
=============================================================================
