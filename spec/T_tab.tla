-------------------------------- MODULE T_tab -------------------------------
EXTENDS Tab, TraceBase

TabInitSt(sess) == <<>>
Expect(c, st2, x) == IF c THEN [ok |-> TRUE, st |-> st2, exp |-> ""] ELSE [ok |-> FALSE, st |-> st2, exp |-> x]
B01(b) == IF b THEN 1 ELSE 0
Written(x, t) == x.text = t /\ x.disp = t /\ x.enc = <<Len(t), t>>
CRLF2 == <<13, 10>>

StatusShown(x, n) ==
  LET t == StatusText(n) IN
  /\ x.n = n /\ x.into = n /\ x.text = t /\ x.same = 1 /\ x.hn = <<58, 115, 116, 97, 116, 117, 115>> /\ x.hv = t
  /\ x.cls = [k \in 1..5 |-> B01(Class(n) = k)]
  /\ IF Known(n) THEN /\ x.reason # NoneV /\ x.reason[1] \in Phrases(n) /\ x.disp = t \o SP1 \o x.reason[1]
                      /\ LET w == t \o SP1 \o x.reason[1] \o CRLF2 IN x.enc = <<Len(w), w>>
     ELSE /\ x.reason = NoneV /\ Take(x.disp, 3) = t
          /\ LET w == t \o SP1 \o CRLF2 IN x.enc = <<Len(w), w>>
StatusIs(a, n) == IF n = NoneV THEN a = <<>> ELSE a # <<>> /\ StatusShown(a[1], n[1])
MethodShown(x, m) == Written(x, m) /\ x.none = 0 /\ x.req0 = B01(m \in NoContent) /\ x.res0 = B01(m \in NoAnswer)
MethodNone(x) == x.none = 1 /\ x.enc = <<>>
MethodIs(a, m) == IF m = NoneV THEN a = <<>> ELSE a # <<>> /\ MethodShown(a[1], m[1])
VersionShown(x, v) == Written(x, v) /\ x.none = 0 /\ x.h1 = B01(v \in {VersionWords[1][2], VersionWords[2][2]}) /\ x.h2 = B01(v = VersionWords[3][2])
VersionNone(x) == x.none = 1 /\ x.enc = <<>> /\ x.h1 = 0 /\ x.h2 = 0
SchemeShown(x, w) == Written(x, w.text) /\ x.kind = w.kind /\ x.is = [k \in 1..5 |-> B01(w.kind = k - 1)]
SchemeIs(a, w) == IF w = NoneV THEN a = <<>> ELSE a # <<>> /\ SchemeShown(a[1], w[1])
ReasonShown(x, b) == /\ x.n = b /\ x.disp = x.desc
                     /\ LET n == BeSmall(b) IN
                        IF n < Len(ReasonTable) THEN x.dbg = ReasonTable[n + 1][1] /\ x.desc = ReasonTable[n + 1][2] ELSE \A k \in 1..Len(ReasonTable) : x.dbg # ReasonTable[k][1] /\ x.desc # ReasonTable[k][2]
SeqSet(q) == {q[k] : k \in 1..Len(q)}

SchemeCh(c) == IsAlpha(c) \/ IsDigit(c) \/ c \in {43, 45, 46}
(* a scheme at the start of a text: what precedes the first octet that is not of a scheme *)
ScannedOk(c, b) ==
  LET S == {k \in 1..Len(b) : ~SchemeCh(b[k])} n == IF S = {} THEN 0 ELSE (CHOOSE k \in S : \A j \in S : k <= j) - 1 w == TextScheme(Take(b, n)) IN
  IF S = {} \/ n = 0 \/ w = NoneV THEN c = <<>> ELSE c # <<>> /\ SchemeShown(c[1], w[1]) /\ c[2] = Len(b) - n
TabStep(m, e) ==
  LET r == e.r good == r.t = "ok" IN
  CASE e.op = "stn" -> LET n == IF IsStatus(e.n) THEN Just(e.n) ELSE NoneV IN Expect(good /\ StatusIs(r.a, n) /\ StatusIs(r.b, n), m, n)
    [] e.op = "stt" -> LET n == TextStatus(e.b) IN Expect(good /\ StatusIs(r.a, n) /\ StatusIs(r.b, n) /\ StatusIs(r.c, n) /\ StatusIs(r.d, n), m, n)
    [] e.op = "stall" -> Expect(good /\ r.def = 200 /\ SeqSet(r.l) = {<<StatusTable[k][2], StatusTable[k][1]>> : k \in 1..Len(StatusTable)}, m, "registered constants")
    [] e.op = "mtd" -> Expect(good /\ MethodIs(r.a, TextMethod(e.b)) /\ MethodIs(r.b, LooseMethod(e.b)), m, <<TextMethod(e.b), LooseMethod(e.b)>>)
    [] e.op = "mtx" -> Expect(good /\ Written(r.a, e.b) /\ r.a.none = 0 /\ r.a.req0 = 0 /\ r.a.res0 = 0, m, e.b)
    [] e.op = "mtall" -> Expect(/\ good /\ SeqSet(r.s) = MethodWords /\ {r.l[k][1] : k \in 1..Len(r.l)} = MethodWords \cup {NoneName}
                                /\ \A k \in 1..Len(r.l) : IF r.l[k][1] = NoneName THEN MethodNone(r.l[k][2]) ELSE MethodShown(r.l[k][2], r.l[k][1]), m, "registered methods")
    [] e.op = "ver" -> LET v == TextVersion(e.b) IN Expect(good /\ (IF v = NoneV THEN VersionNone(r.a) ELSE VersionShown(r.a, v[1])), m, v)
    [] e.op = "verall" -> Expect(/\ good /\ Len(r.l) = 5 /\ \A k \in 1..4 : r.l[k][1] = VersionWords[k][1] /\ VersionShown(r.l[k][2], VersionWords[k][2]) /\ r.l[k][3] = VersionWords[k][2]
                                 /\ VersionNone(r.l[5][2]), m, "registered versions")
    [] e.op = "sch" -> Expect(good /\ SchemeIs(r.a, TextScheme(e.b)) /\ (Ascii(e.b) => SchemeIs(r.b, TextScheme(Lower(e.b)))) /\ ScannedOk(r.c, e.b), m, TextScheme(e.b))
    [] e.op = "schall" -> Expect(/\ good /\ Len(r.l) = 6 /\ \A k \in 2..6 : SchemeShown(r.l[k], [kind |-> k - 1, text |-> SchemeWords[k - 1]])
                                 /\ r.l[1].enc = <<>> /\ r.l[1].text = <<>> /\ r.l[1].is = <<1, 0, 0, 0, 0>>, m, "known schemes")
    [] e.op = "hn" -> Expect(/\ good /\ (IsUtf8(e.b) => r.a = Just(e.b))
                             /\ {ConstText(k) : k \in SeqSet(r.k)} = {w \in FieldSet : EqNoCase(w, e.b)} /\ Len(r.k) <= 1, m, e.b)
    [] e.op = "hnall" -> Expect(good /\ (\A k \in 1..Len(r.l) : r.l[k][2] = ConstText(r.l[k][1]) /\ r.l[k][3] = 1) /\ {r.l[k][2] : k \in 1..Len(r.l)} = FieldSet /\ Len(r.l) = Cardinality(FieldSet), m, "registered names")
    [] e.op = "rsn" -> Expect(good /\ ReasonShown(r.a, e.b), m, BeSmall(e.b))
    [] e.op = "rsnall" -> Expect(good /\ Len(r.l) = Len(ReasonTable) /\ \A k \in 1..Len(ReasonTable) : r.l[k][1] = ReasonTable[k][1] /\ ReasonShown(r.l[k][2], Be4(k - 1)), m, "error codes")
=============================================================================
