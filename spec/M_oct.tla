-------------------------------- MODULE M_oct -------------------------------
(* Lines taken from the front of what arrived: whatever the pieces, the line *)
(* ends found are those of the whole, and nothing is taken that was no end.  *)
EXTENDS Oct, Json

CONSTANTS Depth, Octets
VARIABLES q, all, taken, hist
vars == <<q, all, taken, hist>>
Ops == {[op |-> "fill", b |-> <<c>>] : c \in Octets} \cup {[op |-> "fill", b |-> <<13, 10>>], [op |-> "line"], [op |-> "skip", n |-> 1]}
Init == q = <<>> /\ all = <<>> /\ taken = <<>> /\ hist = <<>>
Do(o) ==
  CASE o.op = "fill" -> q' = q \o o.b /\ all' = all \o o.b /\ UNCHANGED taken
    [] o.op = "skip" -> q' = Drop(q, 1) /\ taken' = taken \o Take(q, 1) /\ UNCHANGED all
    [] o.op = "line" -> LET x == LineEnd(q) IN q' = Drop(q, x.n) /\ taken' = taken \o Take(q, x.n) /\ UNCHANGED all
Next == Len(hist) < Depth /\ \E o \in Ops : Do(o) /\ hist' = Append(hist, o) /\ (Len(hist') = Depth => PrintT("SCRIPT " \o ToJson(hist')))
Spec == Init /\ [][Next]_vars

NothingLost == taken \o q = all
(* asking for more is right: what is there can still become a line end, and what is refused cannot *)
MoreIsRight == LET v == LineEnd(q).v IN (v = "partial" <=> v # "ok" /\ \E x \in {<<10>>, <<13, 10>>} : LineEnd(q \o x).v = "ok") /\ (v = "err" => \A c \in Octets : LineEnd(Append(q, c)).v = "err")
(* a decision once made stands *)
Stable == \A c \in Octets : LineEnd(q).v # "partial" => LineEnd(Append(q, c)) = LineEnd(q)
(* laws of the classes *)
ASSUME \A c \in 0..255 : /\ (IsTChar(c) => ~Never(c)) /\ (IsUriC(c) => ~NotUri(c)) /\ (IsHex(c) <=> \E n \in 0..15 : HexVal(c) = n /\ IsHex(c))
                         /\ (Never(c) => ~IsTChar(c) /\ ~IsUriC(c)) /\ (IsDigit(c) => IsHex(c) /\ ~IsAlpha(c)) /\ (IsTChar(c) => IsText(c))
ASSUME \A n \in 0..15 : {HexVal(c) : c \in {x \in 0..255 : IsHex(x)}} = 0..15
Words == UNION {[1..k -> {65, 97, 98}] : k \in 0..3}
ASSUME \A a, b \in Words : /\ (a = b => EqNoCase(a, b)) /\ (EqNoCase(a, b) = EqNoCase(b, a)) /\ Within(a \o b, a) /\ Within(a \o b, b) /\ (Within(a, b) /\ Within(b, a) => a = b)
ASSUME \A h \in {x \in 0..255 : IsHex(x)} : HexOctets(<<h, 32, 48>>) = <<16 * HexVal(h)>> /\ HexOctets(<<48, h>>) = <<HexVal(h)>>
=============================================================================
