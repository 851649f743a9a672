-------------------------------- MODULE M_msg -------------------------------
(* Every short chain of builder calls, then every short chain of changes,    *)
(* conversions and copies of the message it made.  The laws are read off the *)
(* history of calls, not off the parts.                                      *)
EXTENDS Msg, Json
CONSTANTS MaxCalls, MaxOps, UseCalls, Kinds
VARIABLES b, m, c, hist, ops
vars == <<b, m, c, hist, ops>>

PutM == <<80,85,84>>  BadM == <<71,69,88>>
U1 == HttpS \o <<Colon,Slash,Slash,104,Colon,56,49,Slash,97>>  U2 == <<Slash,98,Question,113>>  UBad == <<37>>
NX == <<120>>  NXU == <<88>>
Call(op, v) == [op |-> op, v |-> v, as |-> 0]
Hdr1(k, v) == [op |-> "header", k |-> k, v |-> v, as |-> 0]
ReqCalls == {Call("method", PutM), Call("method", BadM), Call("url", U1), Call("url", U2), Call("url", UBad), [op |-> "version", n |-> 2], [op |-> "version", n |-> 10],
             Hdr1(NX, <<49>>), Hdr1(NXU, <<50>>), Hdr1(HostN, <<122>>), Hdr1(UaN, <<97>>), [op |-> "headers", hs |-> <<<<NX, <<51>>>>, <<HostN, <<121>>>>>>],
             [op |-> "uval", calls |-> <<[c |-> "domain", v |-> <<100>>]>>]}
RespCalls == {Call("status", <<52,48,52>>), Call("status", <<57,57>>), [op |-> "version", n |-> 2], Hdr1(NX, <<49>>), Hdr1(NXU, <<50>>), Hdr1(SrvN, <<97>>),
              [op |-> "headers", hs |-> <<<<NX, <<51>>>>, <<CtN, <<121>>>>>>], [op |-> "ext", k |-> 1, n |-> 5], [op |-> "ext", k |-> 1, n |-> 6], [op |-> "ext", k |-> 2, n |-> 7], Call("rmethod", GetM)}
FewReq == {Call("url", U1), Hdr1(NX, <<49>>)}
FewResp == {Call("status", <<52,48,52>>), [op |-> "ext", k |-> 1, n |-> 5]}
CallsOf(k) == IF UseCalls = "all" THEN (IF k = "req" THEN ReqCalls ELSE RespCalls) ELSE IF k = "req" THEN FewReq ELSE FewResp
Common == {[op |-> "hset", k |-> NX, v |-> <<50>>, as |-> 0], [op |-> "hrem", k |-> NXU], [op |-> "eset", k |-> 2, n |-> 9], [op |-> "bset", b |-> <<113>>, as |-> 0],
           [op |-> "into", b |-> <<110>>, str |-> 0], [op |-> "into", b |-> <<111>>, str |-> 1], [op |-> "vset", n |-> 10, as |-> 0]}
           \cup {[op |-> "type", how |-> h] : h \in 0..3}
ReqOps == Common \cup {[op |-> "seturl", calls |-> <<[c |-> "domain", v |-> <<101>>], [c |-> "port", n |-> 9]>>], [op |-> "uset", part |-> "path", v |-> <<Slash, 122>>, as |-> 1],
                       [op |-> "mset", v |-> PutM, as |-> 1]}
RespOps == Common \cup {[op |-> "sset", n |-> 204], [op |-> "into", b |-> <<112>>, str |-> 2]}
OpsOf(k) == IF k = "req" THEN ReqOps ELSE RespOps
BodyOp == [op |-> "body", b |-> <<98, 111>>, str |-> 1]
NewOp(k) == [op |-> "new", kind |-> k, how |-> 0]
Script(k) == <<NewOp(k)>> \o hist \o (IF m = <<>> THEN <<>> ELSE <<BodyOp>> \o ops)

Kind == b[1].p.kind
Init == \E k \in Kinds : b = <<NewB(k, 0)>> /\ m = <<>> /\ c = <<>> /\ hist = <<>> /\ ops = <<>>
UrlOf(e) == IF e.op = "url" THEN (LET x == ParseUrl(e.v) IN IF x.v = "ok" THEN Some(UrlIn(x)) ELSE None) ELSE IF e.op = "uval" THEN Some(Strip(Built(e.calls))) ELSE None
DoCall == /\ m = <<>> /\ Len(hist) < MaxCalls
          /\ \E e \in CallsOf(Kind) : b' = <<BStep(b[1], e, UrlOf(e), <<>>)>> /\ hist' = Append(hist, e) /\ UNCHANGED <<m, c, ops>>
Finish1 == /\ m = <<>> /\ UNCHANGED <<c, hist, ops, b>>
           /\ PrintT("SCRIPT " \o ToJson(Script(Kind) \o <<BodyOp>> \o (IF b[1].bad THEN <<>> ELSE <<[op |-> "write"]>>)))
           /\ ~b[1].bad /\ m' = <<Made(b[1].p, BodyOp.b, 1)>>
DoOp == /\ m # <<>> /\ Len(ops) < MaxOps /\ UNCHANGED <<b, hist>>
        /\ \/ \E e \in OpsOf(Kind) : m' = <<MStep(m[1], e)>> /\ c' = c /\ ops' = Append(ops, e)
           \/ m' = <<AfterCopy(m[1], <<99>>)>> /\ c' = <<CopyOf(m[1])>> /\ ops' = Append(ops, [op |-> "copy", b |-> <<99>>])
           \/ c # <<>> /\ m' = c /\ c' = m /\ ops' = Append(ops, [op |-> "swap"])
        /\ PrintT("SCRIPT " \o ToJson(<<NewOp(Kind)>> \o hist \o <<BodyOp>> \o ops' \o <<[op |-> "write"]>>))
Next == DoCall \/ Finish1 \/ DoOp
Spec == Init /\ [][Next]_vars

(* ---- laws over the history ---- *)
IsBad(e) == \/ e.op = "method" /\ MethodArg(e) = None
            \/ e.op = "url" /\ UrlOf(e) = None
            \/ e.op = "status" /\ StatusArg(e) = None
LastOf(S) == IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : j <= k
LastCall(names) == LastOf({k \in 1..Len(hist) : hist[k].op \in names})
FirstError == b[1].bad <=> \E k \in 1..Len(hist) : IsBad(hist[k])
Good == ~b[1].bad
P == b[1].p
Configured == Good =>
  /\ LET k == LastCall({"method"}) IN Kind = "req" => P.method = Some(IF k = 0 THEN GetM ELSE hist[k].v)
  /\ LET k == LastCall({"version"}) IN P.version = IF k = 0 THEN V1(49) ELSE VerT(hist[k].n)
  /\ LET k == LastCall({"status"}) IN Kind = "resp" => P.status = IF k = 0 THEN 200 ELSE DecVal(hist[k].v)
  /\ LET k == LastCall({"url", "uval"}) IN P.u = IF k = 0 THEN NoUrl ELSE UrlOf(hist[k])[1]
  /\ \A x \in 1..2 : LET k == LastOf({j \in 1..Len(hist) : hist[j].op = "ext" /\ hist[j].k = x}) IN P.ext[x] = IF k = 0 THEN None ELSE Some(hist[k].n)
(* what one call says about a field *)
Says(e, n) == CASE e.op = "header" -> IF EqNoCase(e.k, n) THEN Some(e.v) ELSE None
                [] e.op = "headers" -> FieldVal(e.hs, n)
                [] e.op = "url" -> IF n = HostN /\ UrlOf(e) # None THEN Connect(UrlOf(e)[1]) ELSE None
                [] e.op = "rmethod" -> IF n = MtN THEN Some(e.v) ELSE None
                [] OTHER -> None
FieldsSaid == Good => /\ \A n \in {NX, HostN, UaN, SrvN, CtN, MtN} :
                           LET k == LastOf({j \in 1..Len(hist) : Says(hist[j], n) # None}) IN FieldVal(P.hs, n) = IF k = 0 THEN None ELSE Says(hist[k], n)
                      /\ \A j, k \in 1..Len(P.hs) : EqNoCase(P.hs[j][1], P.hs[k][1]) => j = k
(* a copy is equal in all parts *)
PartsEq(x, y) == x.method = y.method /\ x.u = y.u /\ x.version = y.version /\ x.status = y.status /\ x.hs = y.hs /\ x.ext = y.ext
LastOp == ops[Len(ops)]
CopyLaw == (ops # <<>> /\ LastOp.op = "copy") => PartsEq(m[1], c[1]) /\ m[1].partial = c[1].partial
(* what is set stays until it is set again *)
Sets(part) == CASE part = "hs" -> {"hset", "hrem", "seturl"} [] part = "u" -> {"seturl", "uset"} [] part = "method" -> {"mset"} [] part = "version" -> {"vset"}
                [] part = "status" -> {"sset"} [] part = "ext" -> {"eset"} [] part = "body" -> {"bset", "into", "copy"}
Untouched == m # <<>> /\ c = <<>> =>
  LET p0 == Made(P, BodyOp.b, 1) IN
  \A part \in {"hs", "u", "method", "version", "status", "ext", "body"} : (\A k \in 1..Len(ops) : ops[k].op \notin Sets(part)) => m[1][part] = p0[part]
(* a message that can be written is read back as itself *)
ReadBack == m # <<>> /\ Serialisable(Kind, m[1]) /\ Kind = "resp" =>
  LET t == m[1].version \o <<SP>> \o StatusText(m[1].status) \o <<SP>> \o CRLF \o Written(m[1].hs) IN Denotes("resp", HeadOf("resp", t), m[1])
=============================================================================
