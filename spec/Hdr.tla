-------------------------------- MODULE Hdr ---------------------------------
(* A header collection: an ordered list of fields with distinct names up to  *)
(* the case of ASCII letters, and what a message answers about its fields.   *)
EXTENDS Http1

(* ---- the collection ---- *)
JoinC == 59
PushField(hs, n, v) == LET k == FieldPos(hs, n) IN
                       IF k = 0 THEN Append(hs, <<n, v>>) ELSE [hs EXCEPT ![k] = <<hs[k][1], hs[k][2] \o <<JoinC>> \o v>>]
RemField(hs, n) == LET k == FieldPos(hs, n) IN IF k = 0 THEN hs ELSE SubSeq(hs, 1, k - 1) \o SubSeq(hs, k + 1, Len(hs))
HasField(hs, n) == FieldPos(hs, n) # 0
(* v occurs in q *)
Occurs(q, v) == \E k \in 0..(Len(q) - Len(v)) : SubSeq(q, k + 1, k + Len(v)) = v
CRLF == <<CR, LF>>
Written(hs) == FoldLeft(LAMBDA a, f : a \o f[1] \o <<Colon, SP>> \o f[2] \o CRLF, <<>>, hs) \o CRLF
FieldOk(f) == f[1] # <<>> /\ (\A k \in 1..Len(f[1]) : IsTChar(f[1][k])) /\ (\A k \in 1..Len(f[2]) : ValueChar(f[2][k]))

(* ---- decimal numbers as texts ---- *)
AllDigits(q) == q # <<>> /\ \A k \in 1..Len(q) : IsDigit(q[k])
RECURSIVE Canon(_)
Canon(q) == IF Len(q) > 1 /\ q[1] = 48 THEN Canon(Tail(q)) ELSE q
NotMore(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ (a = b \/ BeLess(a, b)))
MaxU == <<49,56,52,52,54,55,52,52,48,55,51,55,48,57,53,53,49,54,49,53>>   \* 18446744073709551615
MaxI == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,55>>      \* 9223372036854775807
MinI == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,56>>      \* 9223372036854775808
Zero == <<48>>
Unsigned(q) == IF AllDigits(q) /\ NotMore(Canon(q), MaxU) THEN Some(Canon(q)) ELSE None
Signed(q) ==
  IF q # <<>> /\ q[1] = 45
  THEN LET d == Tail(q) IN IF AllDigits(d) /\ NotMore(Canon(d), MinI) THEN Some(IF Canon(d) = Zero THEN Zero ELSE <<45>> \o Canon(d)) ELSE None
  ELSE IF AllDigits(q) /\ NotMore(Canon(q), MaxI) THEN Some(Canon(q)) ELSE None

(* ---- the questions ---- *)
ConnN == <<99,111,110,110,101,99,116,105,111,110>>  UpgN == <<117,112,103,114,97,100,101>>
RefN == <<114,101,102,101,114,101,114>>  UaN == <<117,115,101,114,45,97,103,101,110,116>>  CkN == <<99,111,111,107,105,101>>
AuthN == <<58,97,117,116,104,111,114,105,116,121>>
KeepT == <<107,101,101,112,45,97,108,105,118,101>>
BodyLenText(hs) == LET v == FieldVal(hs, ClN) IN IF v = None \/ Signed(v[1]) = None \/ ~AllDigits(v[1]) THEN Zero ELSE Signed(v[1])[1]
KeepAlive(hs) == LET v == FieldVal(hs, ConnN) IN v # None /\ HasToken(v[1], KeepT)
UpgradeTo(hs) == LET c == FieldVal(hs, ConnN) u == FieldVal(hs, UpgN) IN
                 IF c # None /\ HasToken(c[1], UpgN) /\ u # None /\ IsUtf8(u[1]) THEN u ELSE None
(* the text of a field; octets that are not text may be shown in any way *)
TextOk(a, v) == IF v # None /\ ~IsUtf8(v[1]) THEN a # None ELSE a = v
BeforeColon(q) == LET p == IndexOfB(q, Colon) IN IF p = 0 THEN q ELSE SubSeq(q, 1, p - 1)
HostOk(a, hs) == LET h == FieldVal(hs, HostN) p == FieldVal(hs, AuthN) IN
                 IF h # None \/ p = None THEN TextOk(a, h)
                 \* of :authority, with or without the port
                 ELSE TextOk(a, p) \/ a = Some(BeforeColon(p[1]))
=============================================================================
