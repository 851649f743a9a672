-------------------------------- MODULE M_out -------------------------------
(* Histories of writers and readers on one buffer: nothing that was written  *)
(* is lost, doubled or reordered, and what is read comes out as it went in.  *)
EXTENDS Out, Json

CONSTANT Depth
VARIABLES buf, put, got, hist
vars == <<buf, put, got, hist>>

GetM == <<71, 69, 84>>
Host1 == <<<<<<72>>, <<104>>>>>>
W(r) == [op |-> "w", times |-> 1] @@ r
R(k) == [op |-> "rd", k |-> k]
Word == <<1, 2, 3, 4>>
Top == <<128, 0, 0, 7>>
Writers == {W([k |-> "lit", b |-> <<97>>]), W([k |-> "unit", b |-> <<>>]), W([k |-> "mask", b |-> <<1, 2, 4, 8>>, ps |-> <<<<97>>, <<>>, <<98, 99, 100, 101>>, <<102>>>>]), W([k |-> "bin", b |-> <<98, 99>>, skip |-> 1]), W([k |-> "mth", b |-> GetM]), W([k |-> "mth", b |-> <<>>]), W([k |-> "ver", n |-> 0]),
            W([k |-> "st", n |-> 204]), W([k |-> "chunk", b |-> <<>>]), W([k |-> "chunk", b |-> <<13, 10>>]), W([k |-> "inc", b |-> Word, form |-> 0]), W([k |-> "sid", b |-> Top]), W([k |-> "erc", b |-> Top]),
            W([k |-> "fh", len |-> <<0, 0, 5>>, kind |-> 1, fl |-> 5, sid |-> Word]), W([k |-> "wu", sid |-> <<0, 0, 0, 1>>, b |-> Word]), W([k |-> "map", hs |-> Host1, form |-> 0]),
            W([k |-> "req", m |-> <<>>, p |-> <<47>>, n |-> 2, hs |-> <<>>, b |-> <<>>, form |-> 0]), [W([k |-> "hv", b |-> <<120>>, form |-> 0]) EXCEPT !.times = 2]}
Ops == Writers \cup {R(k) : k \in {"sid", "inc", "erc", "u24", "u64", "fh"}} \cup {[op |-> "drop", n |-> 1]}
Init == buf = <<>> /\ put = <<>> /\ got = <<>> /\ hist = <<>>
(* the effect of an operation: what is put behind and how many octets are taken from the front *)
Added(o) == IF o.op # "w" \/ Pieces(o) = {} THEN <<>> ELSE Times(CHOOSE p \in Pieces(o) : TRUE, o.times)
Taken(o) == CASE o.op = "w" -> 0 [] o.op = "drop" -> Min2(o.n, Len(buf)) [] OTHER -> LET x == Read(o.k, buf) IN IF x.v = "ok" THEN x.used ELSE 0
Next == /\ Len(hist) < Depth
        /\ \E o \in Ops :
             /\ buf' = Drop(buf \o Added(o), Taken(o))
             /\ put' = put \o Added(o)
             /\ got' = got \o Take(buf, Taken(o))
             /\ hist' = Append(hist, o)
             /\ (Len(hist') = Depth => PrintT("SCRIPT " \o ToJson(hist')))
Spec == Init /\ [][Next]_vars

NothingLost == got \o buf = put
(* a word that was written is the word that is read, its reserved bit aside *)
WordsBack == \A a, b \in {"sid", "inc", "erc"} : \A q \in {Word, Top} :
               LET x == Read(b, q \o buf) IN x.v = "ok" /\ x.used = 4 /\ (IF b = "sid" THEN x.b = Mask31(q) ELSE x.b = q) /\ Drop(q \o buf, 4) = buf
(* the size line of a chunk tells where its data end *)
RECURSIVE HexVal2(_, _)
HexVal2(q, v) == IF q = <<>> \/ ~IsHex(q[1]) THEN v ELSE HexVal2(Tail(q), v * 16 + HexVal(q[1]))
ChunkTells == \A n \in {0, 1, 9, 10, 15, 16, 255, 256, 4095} : HexVal2(HexText(n), 0) = n /\ Len(HexText(n)) = (IF n < 16 THEN 1 ELSE IF n < 256 THEN 2 ELSE 3)
ASSUME ChunkTells
(* masking does not depend on the pieces, and masking twice is no masking *)
Mask1(key, ps) == CHOOSE p \in Pieces([k |-> "mask", b |-> key, ps |-> ps]) : TRUE
ASSUME \A key \in {<<0, 0, 0, 0>>, <<1, 2, 4, 8>>, <<255, 0, 170, 85>>} : \A a, b \in {<<>>, <<7>>, <<1, 2, 3>>, <<9, 8, 7, 6, 5>>} :
         Mask1(key, <<a, b>>) = Mask1(key, <<a \o b>>) /\ Mask1(key, <<Mask1(key, <<a, b>>)>>) = a \o b
=============================================================================
