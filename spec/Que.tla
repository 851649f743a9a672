-------------------------------- MODULE Que ---------------------------------
(* What an endpoint keeps of HTTP/2 besides the octets: a set of flags, a     *)
(* counter of stream numbers, and frames waiting to be sent, the heaviest     *)
(* first.  A frame tells what it was made from.                               *)
EXTENDS Tab

(* flags: 1 end of stream (or ack), 4 end of headers, 8 padded, 32 priority *)
FBits == {1, 4, 8, 32}
BitIn(b, n) == (n \div b) % 2 = 1
FlagKnown(n) == (IF BitIn(1, n) THEN 1 ELSE 0) + (IF BitIn(4, n) THEN 4 ELSE 0) + (IF BitIn(8, n) THEN 8 ELSE 0) + (IF BitIn(32, n) THEN 32 ELSE 0)
SetBit(b, n, on) == IF BitIn(b, n) = on THEN n ELSE IF on THEN n + b ELSE n - b
BitOf(k) == CASE k = "es" -> 1 [] k = "ack" -> 1 [] k = "eh" -> 4 [] k = "pd" -> 8 [] k = "pr" -> 32 [] OTHER -> 0
Yes(b) == IF b THEN 1 ELSE 0
FlagAsk(n) == [es |-> Yes(BitIn(1, n)), ack |-> Yes(BitIn(1, n)), eh |-> Yes(BitIn(4, n)), pd |-> Yes(BitIn(8, n)), pr |-> Yes(BitIn(32, n))]

RECURSIVE DigitsOf(_)
DigitsOf(n) == (IF n < 10 THEN <<>> ELSE DigitsOf(n \div 10)) \o <<48 + (n % 10)>>

(* frames; f.k the kind, f.sid its stream, f.fl its flags, f.p what it carries, f.n a number beside it *)
OnStream == {"data", "headers", "prio", "push", "wu", "rst"}
WordOf == [data |-> <<68, 97, 116, 97>>, headers |-> <<72, 101, 97, 100, 101, 114, 115>>, prio |-> <<80, 114, 105, 111, 114, 105, 116, 121>>,
           push |-> <<80, 117, 115, 104, 80, 114, 111, 109, 105, 115, 101>>, settings |-> <<83, 101, 116, 116, 105, 110, 103, 115>>, ping |-> <<80, 105, 110, 103>>,
           goaway |-> <<71, 111, 65, 119, 97, 121>>, wu |-> <<87, 105, 110, 100, 111, 119, 85, 112, 100, 97, 116, 101>>, rst |-> <<82, 101, 115, 101, 116>>]
StreamOf(f) == IF f.k \in OnStream THEN f.sid ELSE 0
NameOf(f) == WordOf[f.k] \o <<40>> \o DigitsOf(StreamOf(f)) \o <<41>>
(* d describes f; what the code leaves open is not asked: the flags of a ping, the end marks of a promise *)
Describes(d, f) ==
  /\ d.name = NameOf(f) /\ d.sid = StreamOf(f) /\ d.p = f.p /\ d.n = f.n
  /\ d.isd = Yes(f.k = "data") /\ d.ish = Yes(f.k = "headers")
  /\ CASE f.k \in {"data", "headers"} -> d.fl = f.fl /\ d.es = Yes(BitIn(1, f.fl)) /\ d.eh = Yes(f.k = "headers" /\ BitIn(4, f.fl))
       [] f.k = "push" -> d.fl = f.fl
       [] f.k = "settings" -> d.fl = f.fl /\ d.es = 0 /\ d.eh = 0
       [] f.k = "ping" -> d.fl \in {0, f.fl} /\ d.es = 0 /\ d.eh = 0
       [] OTHER -> d.fl = 0 /\ d.es = 0 /\ d.eh = 0

(* the queue: a sequence of [f, w]; what leaves is one of the heaviest *)
Heaviest(q) == {k \in 1..Len(q) : \A j \in 1..Len(q) : q[j].w <= q[k].w}
Without(q, k) == SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q))
Cmp(x, y) == IF x < y THEN 0 - 1 ELSE IF x > y THEN 1 ELSE 0
=============================================================================
