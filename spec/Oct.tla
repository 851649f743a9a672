-------------------------------- MODULE Oct ---------------------------------
(* Octets: their classes, hexadecimal digits, comparison of octet strings,   *)
(* and line ends taken from the front of a buffer.                           *)
EXTENDS Bytes

Space == 32
IsCtl(c) == c < 32 \/ c = 127
IsText(c) == c = 9 \/ (~IsCtl(c))
(* what a URI is written with (RFC 3986), the percent sign included *)
UriOther == {45, 46, 95, 126, 58, 47, 63, 35, 91, 93, 64, 33, 36, 38, 39, 40, 41, 42, 43, 44, 59, 61, 37}
IsUriC(c) == IsAlpha(c) \/ IsDigit(c) \/ c \in UriOther
(* what neither can hold *)
Never(c) == IsCtl(c) \/ c = Space \/ c > 126
NotUri(c) == Never(c) \/ c \in {60, 62}
(* a class is a set of octets; for some octets the code may decide either way *)
ClassFits(r, c) ==
  /\ (IsTChar(c) => r.token = 1) /\ (Never(c) => r.token = 0)
  /\ r.status = (IF IsText(c) THEN 1 ELSE 0)
  /\ r.alpha = (IF IsAlpha(c) THEN 1 ELSE 0)
  /\ r.digit = (IF IsDigit(c) THEN 1 ELSE 0)
  /\ r.hex = (IF IsHex(c) THEN 1 ELSE 0)
  /\ r.val = (IF IsHex(c) THEN <<HexVal(c)>> ELSE <<>>)
  /\ (IsUriC(c) => r.uri = 1) /\ (NotUri(c) => r.uri = 0)

(* hexadecimal text, with or without spaces *)
NoSpaces(q) == SelectSeq(q, LAMBDA c : c # Space)
HexText(q) == LET d == NoSpaces(q) IN Len(d) % 2 = 0 /\ \A k \in 1..Len(d) : IsHex(d[k])
HexOctets(q) == LET d == NoSpaces(q) IN [k \in 1..(Len(d) \div 2) |-> 16 * HexVal(d[2 * k - 1]) + HexVal(d[2 * k])]

Within(a, b) == \E k \in 0..(Len(a) - Len(b)) : SubSeq(a, k + 1, k + Len(b)) = b

(* a line end is LF or CR LF *)
LineEnd(q) ==
  IF q = <<>> THEN [v |-> "partial", n |-> 0]
  ELSE IF q[1] = 10 THEN [v |-> "ok", n |-> 1]
  ELSE IF q[1] # 13 THEN [v |-> "err", n |-> 0]
  ELSE IF Len(q) = 1 THEN [v |-> "partial", n |-> 0]
  ELSE IF q[2] = 10 THEN [v |-> "ok", n |-> 2] ELSE [v |-> "err", n |-> 0]

(* errors *)
OneOf == {"short", "name", "value", "line", "status", "token", "version", "method", "partial", "code", "scheme", "url", "urlcode"}
=============================================================================
