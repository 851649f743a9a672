-------------------------------- MODULE Tab ---------------------------------
(* Conversions between the registered vocabularies and texts or numbers.     *)
EXTENDS Tables

NoneV == <<>>
Just(x) == <<x>>
UpperC(c) == IF IsLower(c) THEN c - 32 ELSE c
Upper(q) == [k \in 1..Len(q) |-> UpperC(q[k])]
Ascii(q) == \A k \in 1..Len(q) : q[k] < 128
SP1 == <<32>>

(* ---- status codes: the numbers of three digits ---- *)
IsStatus(n) == n \in 100..999
StatusText(n) == <<48 + n \div 100, 48 + ((n \div 10) % 10), 48 + (n % 10)>>
TextStatus(q) == IF Len(q) = 3 /\ (\A k \in 1..3 : IsDigit(q[k])) /\ q[1] # 48 THEN Just((q[1] - 48) * 100 + (q[2] - 48) * 10 + (q[3] - 48)) ELSE NoneV
StatusRow(n) == LET S == {k \in 1..Len(StatusTable) : StatusTable[k][1] = n} IN IF S = {} THEN NoneV ELSE Just(StatusTable[CHOOSE k \in S : TRUE])
Class(n) == n \div 100
Known(n) == StatusRow(n) # NoneV
Phrases(n) == StatusRow(n)[1][3]

(* ---- methods ---- *)
TextMethod(q) == IF q \in MethodWords THEN Just(q) ELSE NoneV
LooseMethod(q) == TextMethod(Upper(q))

(* ---- versions; a text that is none denotes no version ---- *)
VersionTexts == {VersionWords[k][2] : k \in 1..Len(VersionWords)}
TextVersion(q) == IF q \in VersionTexts THEN Just(q) ELSE NoneV

(* ---- schemes: five known ones, others are kept as they are written ---- *)
MaxScheme == 64
SchemeKind(q) == LET S == {k \in 1..Len(SchemeWords) : SchemeWords[k] = q} IN IF S = {} THEN 6 ELSE CHOOSE k \in S : TRUE
TextScheme(q) == IF Len(q) > MaxScheme THEN NoneV ELSE Just([kind |-> SchemeKind(q), text |-> q])

(* ---- field names: the constant X_Y has the text x-y ---- *)
ConstText(k) == [j \in 1..Len(k) |-> IF k[j] = 95 THEN 45 ELSE LowerC(k[j])]
FieldSet == {FieldWords[k] : k \in 1..Len(FieldWords)}
=============================================================================
