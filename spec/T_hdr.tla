-------------------------------- MODULE T_hdr -------------------------------
EXTENDS Hdr, TraceBase

HInitSt(sess) == [hs |-> <<>>, sys |-> <<>>]
B01(b) == IF b THEN 1 ELSE 0
(* every answer shows the collection after the call *)
Shows(r, hs) == r.t = "ok" /\ r.hs = hs /\ r.len = Len(hs) /\ r.empty = B01(hs = <<>>)
Expect(c, st2, x) == IF c THEN [ok |-> TRUE, st |-> st2, exp |-> ""] ELSE [ok |-> FALSE, st |-> st2, exp |-> x]
Step1h(m, e, hs, c) == Expect(Shows(e.r, hs) /\ c, [m EXCEPT !.hs = hs], hs)
AllPairs == {<<a, b>> : a \in 0..127, b \in 0..127}
SamePairs == {p \in AllPairs : LowerC(p[1]) = LowerC(p[2])}

HStep(m, e) ==
  LET r == e.r hs == m.hs IN
  CASE e.op = "ins" -> Step1h(m, e, SetField(hs, e.n, e.v), TRUE)
    [] e.op = "push" -> Step1h(m, e, PushField(hs, e.n, e.v), TRUE)
    \* what cannot be a name or a value changes nothing
    [] e.op = "bad" -> Step1h(m, e, IF e.bad # 0 THEN hs ELSE IF e.how = 0 THEN SetField(hs, e.n, e.v) ELSE PushField(hs, e.n, e.v), TRUE)
    [] e.op = "rem" -> Step1h(m, e, RemField(hs, e.n), r.old = FieldVal(hs, e.n))
    [] e.op = "clear" -> Step1h(m, e, <<>>, TRUE)
    [] e.op = "get" ->
         LET v == FieldVal(hs, e.n) IN
         Expect(Shows(r, hs) /\ r.has = B01(v # None) /\ r.opt = v /\ r.val = v /\ r.str = (IF v # None /\ IsUtf8(v[1]) THEN v ELSE None)
                /\ r.idx = (IF IsUtf8(e.n) THEN v ELSE None), m, v)
    [] e.op = "cont" ->
         LET v == FieldVal(hs, e.n) IN
         Expect(Shows(r, hs) /\ r.eq = B01(v = Some(e.v)) /\ r.in = B01(v # None /\ Occurs(v[1], e.v)), m, v)
    [] e.op = "mut" ->
         LET has == HasField(hs, e.n) IN
         IF e.how = 1 THEN Step1h(m, e, SetField(hs, e.n, e.v), TRUE)
         ELSE IF e.how = 3 THEN Step1h(m, e, IF has THEN PushField(hs, e.n, e.v) ELSE hs, r.n = B01(has))
         ELSE Step1h(m, e, IF has THEN SetField(hs, e.n, e.v) ELSE hs, r.n = B01(has))
    [] e.op = "sysins" -> Expect(Shows(r, hs), [m EXCEPT !.sys = [k \in 1..(Len(SelectSeq(@, LAMBDA y : y[1] # e.k)) + 1) |->
                                  IF k = 1 THEN <<e.k, e.v>> ELSE SelectSeq(@, LAMBDA y : y[1] # e.k)[k - 1]]], hs)
    [] e.op = "sysget" -> LET P == SelectSeq(m.sys, LAMBDA y : y[1] = e.k) IN Expect(Shows(r, hs) /\ r.v = (IF P = <<>> THEN None ELSE Some(P[1][2])), m, P)
    [] e.op = "show" ->
         LET can == \A k \in 1..Len(hs) : FieldOk(hs[k]) utf == \A k \in 1..Len(hs) : IsUtf8(hs[k][2]) w == Written(hs) IN
         Expect(/\ Shows(r, hs) /\ r.same = 1 /\ r.other = 0 /\ r.it = hs /\ r.cl = hs
                /\ IF can THEN r.enc = <<Len(w), w>> ELSE r.enc = <<>>
                /\ (utf /\ can) => r.disp = w, m, hs)
    [] e.op = "q" ->
         LET n == BodyLenText(hs) IN
         Expect(/\ Shows(r, hs) /\ r.q.len = n /\ r.q.ka = B01(KeepAlive(hs)) /\ r.q.ch = B01(IsChunked(hs)) /\ r.q.up = UpgradeTo(hs)
                /\ HostOk(r.q.host, hs) /\ TextOk(r.q.ref, FieldVal(hs, RefN)) /\ TextOk(r.q.ua, FieldVal(hs, UaN)) /\ TextOk(r.q.ck, FieldVal(hs, CkN))
                /\ r.rq.len = n /\ r.rq.blen = n /\ r.rs.len = n /\ r.rs.blen = n /\ r.rq.ka = r.q.ka
                /\ HostOk(r.rq.host, hs) /\ TextOk(r.rq.ref, FieldVal(hs, RefN)) /\ TextOk(r.rq.ck, FieldVal(hs, CkN))
                /\ (FieldVal(hs, UaN) # None => TextOk(r.rq.ua, FieldVal(hs, UaN))), m, n)
    [] e.op = "name" ->
         LET x == B01(EqNoCase(e.a, e.b)) IN
         Expect(/\ r.t = "ok" /\ r.eq[1] = x /\ r.eq[2] = x /\ r.eq[3] = x /\ r.eq[4] = x /\ r.eq[6] = x /\ (x = 1 => r.eq[5] = 1)
                /\ r.b = e.a /\ r.name = e.a /\ r.disp = e.a /\ r.ref = e.a /\ r.enc = e.a /\ r.len = Len(e.a) /\ r.n = Len(e.a) /\ r.cl = 1
                /\ r.spec = B01(e.a # <<>> /\ e.a[1] = Colon), m, x)
    [] e.op = "value" ->
         LET x == B01(e.a = e.b) u == IsUtf8(e.a) IN
         Expect(/\ r.t = "ok" /\ \A k \in 1..Len(r.eq) : r.eq[k] = x
                /\ (x = 1 => r.hash = 1) /\ r.b = e.a /\ r.len = Len(e.a) /\ r.enc = e.a /\ r.n = Len(e.a)
                /\ r.str = (IF u THEN Some(e.a) ELSE None) /\ (u => r.disp = e.a /\ r.ts = Some(e.a))
                /\ r.push = e.a \o <<JoinC>> \o e.b /\ r.in = B01(Occurs(e.a, e.b)) /\ r.us = Unsigned(e.a) /\ r.is = Signed(e.a) /\ r.cow = e.b, m, <<x, Unsigned(e.a), Signed(e.a)>>)
    [] e.op = "num" -> Expect(r.t = "ok" /\ r.u = Unsigned(e.v) /\ r.i = Signed(e.v), m, <<Unsigned(e.v), Signed(e.v)>>)
    [] e.op = "bits" -> Expect(r.t = "ok" /\ {r.eq[k] : k \in 1..Len(r.eq)} = SamePairs /\ Len(r.eq) = Cardinality(SamePairs), m, "equal up to case")
=============================================================================
