------------------------------- MODULE Bytes -------------------------------
(* Byte strings are sequences over 0..255.  Common operators for all       *)
(* protocol modules.                                                        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Bitwise, TLC

Byte == 0..255

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Take(q, n) == SubSeq(q, 1, Min2(n, Len(q)))
Drop(q, n) == SubSeq(q, n + 1, Len(q))

IsUpper(c) == c >= 65 /\ c <= 90
IsLower(c) == c >= 97 /\ c <= 122
IsAlpha(c) == IsUpper(c) \/ IsLower(c)
IsDigit(c) == c >= 48 /\ c <= 57
IsHex(c) == IsDigit(c) \/ (c >= 65 /\ c <= 70) \/ (c >= 97 /\ c <= 102)
HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55
LowerC(c) == IF IsUpper(c) THEN c + 32 ELSE c
Lower(q) == [k \in 1..Len(q) |-> LowerC(q[k])]
EqNoCase(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : LowerC(a[k]) = LowerC(b[k])

(* RFC 9110 token characters *)
TCharOther == {33, 35, 36, 37, 38, 39, 42, 43, 45, 46, 94, 95, 96, 124, 126}
IsTChar(c) == IsAlpha(c) \/ IsDigit(c) \/ c \in TCharOther

(* position of the first c in q at or after position p, 0 if none *)
IndexFrom(q, c, p) == IF \A k \in p..Len(q) : q[k] # c THEN 0 ELSE CHOOSE k \in p..Len(q) : q[k] = c /\ \A j \in p..(k - 1) : q[j] # c
IndexOfB(q, c) == IndexFrom(q, c, 1)
Has(q, c) == \E k \in 1..Len(q) : q[k] = c

(* big-endian numbers; only for values below 2^31 *)
RECURSIVE BeVal(_)
BeVal(q) == IF q = <<>> THEN 0 ELSE BeVal(SubSeq(q, 1, Len(q) - 1)) * 256 + q[Len(q)]
(* 2^31-1 stands for "that or more" *)
Huge == 2147483647
BeSmall(q) == LET z == {k \in 1..Len(q) : q[k] # 0} IN
              IF z = {} THEN 0
              ELSE LET f == CHOOSE k \in z : \A j \in z : k <= j
                       t == SubSeq(q, f, Len(q)) IN
                   IF Len(t) < 4 \/ (Len(t) = 4 /\ t[1] < 128) THEN BeVal(t) ELSE Huge
Be2(n) == <<(n \div 256) % 256, n % 256>>
Be3(n) == <<(n \div 65536) % 256, (n \div 256) % 256, n % 256>>
Be4(n) == <<n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
Be8(n) == <<0, 0, 0, 0>> \o Be4(n)

(* big-endian comparison of equally long byte strings *)
RECURSIVE BeLess(_, _)
BeLess(a, b) == IF a = <<>> THEN FALSE
                ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE BeLess(Tail(a), Tail(b))

(* UTF-8 as a byte automaton: remaining continuation bytes and the range allowed for the next byte *)
Utf8Init == [n |-> 0, lo |-> 128, hi |-> 191, bad |-> FALSE]
Utf8Step(u, c) ==
  IF u.bad THEN u
  ELSE IF u.n > 0
       THEN IF c >= u.lo /\ c <= u.hi THEN [n |-> u.n - 1, lo |-> 128, hi |-> 191, bad |-> FALSE]
            ELSE [u EXCEPT !.bad = TRUE]
       ELSE CASE c < 128 -> u
              [] c >= 194 /\ c <= 223 -> [n |-> 1, lo |-> 128, hi |-> 191, bad |-> FALSE]
              [] c = 224 -> [n |-> 2, lo |-> 160, hi |-> 191, bad |-> FALSE]
              [] c = 237 -> [n |-> 2, lo |-> 128, hi |-> 159, bad |-> FALSE]
              [] (c >= 225 /\ c <= 236) \/ c = 238 \/ c = 239 -> [n |-> 2, lo |-> 128, hi |-> 191, bad |-> FALSE]
              [] c = 240 -> [n |-> 3, lo |-> 144, hi |-> 191, bad |-> FALSE]
              [] c >= 241 /\ c <= 243 -> [n |-> 3, lo |-> 128, hi |-> 191, bad |-> FALSE]
              [] c = 244 -> [n |-> 3, lo |-> 128, hi |-> 143, bad |-> FALSE]
              [] OTHER -> [u EXCEPT !.bad = TRUE]
IsUtf8(q) == LET u == FoldLeft(Utf8Step, Utf8Init, q) IN ~u.bad /\ u.n = 0

(* fields of an optional record *)
Fld(r, f, d) == IF f \in DOMAIN r THEN r[f] ELSE d
=============================================================================
