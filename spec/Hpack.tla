------------------------------- MODULE Hpack -------------------------------
(* HPACK (RFC 7541): integers, Huffman strings, tables, header blocks.      *)
EXTENDS Bytes, HpackTables

(* ---------------------------------------------------------------- Huffman *)
(* accumulate bits into octets *)
HBit(a, b) == IF a.n = 7 THEN [out |-> Append(a.out, a.acc * 2 + b), acc |-> 0, n |-> 0]
              ELSE [out |-> a.out, acc |-> a.acc * 2 + b, n |-> a.n + 1]
HSym(a, c) == FoldLeft(HBit, a, HuffBits[c + 1])
Pow2(n) == 2 ^ n
HuffEncode(q) == LET a == FoldLeft(HSym, [out |-> <<>>, acc |-> 0, n |-> 0], q) IN
                 IF a.n = 0 THEN a.out
                 ELSE Append(a.out, a.acc * Pow2(8 - a.n) + Pow2(8 - a.n) - 1)

(* decoding automaton: node in the code tree, bits since the last symbol, all of them ones *)
HD0 == [node |-> 1, n |-> 0, ones |-> TRUE, out |-> <<>>, bad |-> FALSE]
HDBit(d, b) ==
  IF d.bad THEN d
  ELSE LET x == HuffTree[d.node][b + 1] IN
       IF x > 0 THEN [d EXCEPT !.node = x, !.n = @ + 1, !.ones = @ /\ b = 1]
       ELSE IF x = -257 THEN [d EXCEPT !.bad = TRUE]
       ELSE [d EXCEPT !.node = 1, !.n = 0, !.ones = TRUE, !.out = Append(@, -x - 1)]
BitsOf(c) == <<c \div 128, (c \div 64) % 2, (c \div 32) % 2, (c \div 16) % 2, (c \div 8) % 2, (c \div 4) % 2, (c \div 2) % 2, c % 2>>
HDByte(d, c) == FoldLeft(HDBit, d, BitsOf(c))
HuffDecode(q) == LET d == FoldLeft(HDByte, HD0, q) IN
                 IF d.bad \/ d.n > 7 \/ ~d.ones THEN [ok |-> FALSE] ELSE [ok |-> TRUE, s |-> d.out]

(* --------------------------------------------------------------- integers *)
(* at position p of b with an N-bit prefix.  v: "ok" / "short"; lax: longer  *)
(* than five octets, which an implementation may refuse.                     *)
SatMulAdd(v, d, m) == IF v = Huge \/ d > (Huge - v) \div m THEN Huge ELSE v + d * m
RECURSIVE IntCont(_, _, _, _, _)
IntCont(b, p, v, m, k) ==   \* m = 128^k, or 0 when that no longer fits
  IF p > Len(b) THEN [v |-> "short"]
  ELSE LET d == b[p] % 128
           v2 == IF d = 0 THEN v ELSE IF m = 0 THEN Huge ELSE SatMulAdd(v, d, m)
       IN IF b[p] < 128 THEN [v |-> "ok", val |-> v2, next |-> p + 1, lax |-> k >= 4]
          ELSE IntCont(b, p + 1, v2, IF m = 0 \/ m > Huge \div 128 THEN 0 ELSE m * 128, k + 1)
IntDec(b, p, N) ==
  IF p > Len(b) THEN [v |-> "short"]
  ELSE LET mask == Pow2(N) - 1
           x == b[p] % Pow2(N)
       IN IF x < mask THEN [v |-> "ok", val |-> x, next |-> p + 1, lax |-> FALSE]
          ELSE IntCont(b, p + 1, mask, 1, 0)
RECURSIVE IntTail(_)
IntTail(v) == IF v < 128 THEN <<v>> ELSE <<128 + (v % 128)>> \o IntTail(v \div 128)
IntEnc(v, N, lead) == LET mask == Pow2(N) - 1 IN
                      IF v < mask THEN <<lead + v>> ELSE <<lead + mask>> \o IntTail(v - mask)

(* ---------------------------------------------------------------- strings *)
StrDec(b, p) ==
  LET l == IntDec(b, p, 7) IN
  IF l.v # "ok" THEN [v |-> "err", lax |-> TRUE]
  ELSE IF l.val > Len(b) - l.next + 1 THEN [v |-> "err", lax |-> l.lax]
  ELSE LET raw == SubSeq(b, l.next, l.next + l.val - 1) IN
       IF b[p] < 128 THEN [v |-> "ok", s |-> raw, next |-> l.next + l.val, lax |-> l.lax]
       ELSE LET h == HuffDecode(raw) IN
            IF h.ok THEN [v |-> "ok", s |-> h.s, next |-> l.next + l.val, lax |-> l.lax]
            ELSE [v |-> "err", lax |-> l.lax]
StrEnc(s, huff) == IF huff THEN LET h == HuffEncode(s) IN IntEnc(Len(h), 7, 128) \o h ELSE IntEnc(Len(s), 7, 0) \o s

(* ----------------------------------------------------------------- tables *)
(* dynamic table: newest entry first *)
EntSize(e) == Len(e[1]) + Len(e[2]) + 32
TabSize(t) == FoldLeft(LAMBDA a, e : a + EntSize(e), 0, t)
(* the newest entries that fit *)
FitStep(a, e) == LET x == a.room - EntSize(e) IN IF a.full \/ x < 0 THEN [a EXCEPT !.full = TRUE] ELSE [full |-> FALSE, room |-> x, n |-> a.n + 1]
Fit(t, room) == IF room >= Huge THEN t ELSE LET a == FoldLeft(FitStep, [full |-> FALSE, room |-> room, n |-> 0], t) IN IF a.n = Len(t) THEN t ELSE SubSeq(t, 1, a.n)
AddEnt(d, n, v) == [d EXCEPT !.tab = Fit(<<<<n, v>>>> \o @, d.max)]
(* change of capacity by the owner of the context (settings) *)
Resize(d, n) == [d EXCEPT !.tab = Fit(@, n), !.max = n, !.limit = n]
(* change of capacity by a size update in a block *)
Update(d, n) == [d EXCEPT !.tab = Fit(@, n), !.max = n]
NS == 61
Lookup(d, k) == IF k >= 1 /\ k <= NS THEN StaticTable[k]
                ELSE IF k > NS /\ k <= NS + Len(d.tab) THEN d.tab[k - NS] ELSE <<>>
Table0 == [tab |-> <<>>, max |-> 4096, limit |-> 4096, dead |-> FALSE]

(* ---------------------------------------------------------- header blocks *)
(* v: "go" while fields remain, then "ok" or "err"; any: the outcome is not constrained by RFC 7541 or by this model *)
HStop(z, v, any) == [z EXCEPT !.v = v, !.any = any]
Literal(b, z, N, add) ==
  LET k == IntDec(b, z.p, N) IN
  IF k.v # "ok" THEN HStop(z, "err", FALSE)
  ELSE
  LET nm == IF k.val = 0 THEN StrDec(b, k.next)
            ELSE LET e == Lookup(z.d, k.val) IN
                 IF e = <<>> THEN [v |-> "err", lax |-> FALSE] ELSE [v |-> "ok", s |-> e[1], next |-> k.next, lax |-> FALSE]
  IN IF nm.v # "ok" THEN HStop(z, "err", FALSE)
     ELSE LET val == StrDec(b, nm.next) IN
          IF val.v # "ok" THEN HStop(z, "err", ~IsUtf8(nm.s))
          ELSE IF ~IsUtf8(nm.s) THEN HStop(z, "ok", TRUE)
          ELSE [v |-> "go", p |-> val.next, d |-> IF add THEN AddEnt(z.d, nm.s, val.s) ELSE z.d, hs |-> Append(z.hs, <<nm.s, val.s>>),
                lax |-> z.lax \/ k.lax \/ nm.lax \/ val.lax, start |-> FALSE, any |-> FALSE]
BlockStep(b, z) ==
  IF z.v # "go" THEN z
  ELSE IF z.p > Len(b) THEN HStop(z, "ok", FALSE)
  ELSE LET o == b[z.p] IN
  CASE o >= 128 ->
       LET k == IntDec(b, z.p, 7) IN
       IF k.v # "ok" THEN HStop(z, "err", FALSE)
       ELSE LET e == Lookup(z.d, k.val) IN
            IF e = <<>> THEN HStop(z, "err", FALSE)
            ELSE [z EXCEPT !.p = k.next, !.hs = Append(@, e), !.lax = @ \/ k.lax, !.start = FALSE]
  [] o >= 64 /\ o < 128 -> Literal(b, z, 6, TRUE)
  [] o >= 32 /\ o < 64 ->
       LET k == IntDec(b, z.p, 5) IN
       IF k.v # "ok" \/ k.val > z.d.limit THEN HStop(z, "err", FALSE)
       \* an update after a field is an error by section 4.2, which implementations may tolerate
       ELSE [z EXCEPT !.p = k.next, !.d = Update(@, k.val), !.lax = @ \/ k.lax \/ ~z.start]
  [] OTHER -> Literal(b, z, 4, FALSE)
(* a field takes at least one octet *)
DecBlock(d, b) == FoldLeft(LAMBDA z, c : BlockStep(b, z), [v |-> "go", p |-> 1, d |-> d, hs |-> <<>>, lax |-> FALSE, start |-> TRUE, any |-> FALSE], b \o <<0>>)
Dead(d) == [d EXCEPT !.dead = TRUE]

(* field lists and tables compared with names folded *)
EqField(a, b) == EqNoCase(a[1], b[1]) /\ a[2] = b[2]
EqFields(x, y) == Len(x) = Len(y) /\ \A k \in 1..Len(x) : EqField(x[k], y[k])
LowerFields(x) == [k \in 1..Len(x) |-> <<Lower(x[k][1]), x[k][2]>>]
(* what a search may answer for <<n, v>>: <<>> none, else <<index, full match>> *)
StaticFull(n, v) == {k \in 1..NS : EqNoCase(StaticTable[k][1], n) /\ StaticTable[k][2] = v}
StaticName(n) == {k \in 1..NS : EqNoCase(StaticTable[k][1], n)}
DynFull(d, n, v) == {k \in 1..Len(d.tab) : EqField(d.tab[k], <<n, v>>)}
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
FindOk(d, n, v, a) ==
  LET sf == StaticFull(n, v) dy == DynFull(d, n, v) IN
  IF sf # {} THEN a = <<SetMin(sf), 1>>
  ELSE IF StaticName(n) = {} /\ dy # {} THEN a = <<NS + SetMin(dy), 1>>
  ELSE a = <<>> \/ (LET e == Lookup(d, a[1]) IN e # <<>> /\ EqNoCase(e[1], n) /\ (a[2] = 1 => e[2] = v))
=============================================================================
