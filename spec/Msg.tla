-------------------------------- MODULE Msg ---------------------------------
(* Messages as values: what a chain of builder calls configures, and what    *)
(* changing, converting and copying a message does to its parts.             *)
EXTENDS Hdr, Tab

NoUrl == [scheme |-> <<>>, user |-> None, pass |-> None, dom |-> None, port |-> -1, path |-> <<Slash>>, query |-> None]
(* extensions: two of the caller, and the HPACK context of the connection, told by its size, which no two contexts share *)
NoExt == <<None, None, None>>
GetM == <<71,69,84>>
WenM == <<119,101,110,109,101,110,103>>
SrvN == <<115,101,114,118,101,114>>
CtN == <<99,111,110,116,101,110,116,45,116,121,112,101>>
SetN == <<104,116,116,112,50,45,115,101,116,116,105,110,103,115>>
MtN == <<58,109,101,116,104,111,100>>
H2cV == <<104,50,99>>
UpV == <<85,112,103,114,97,100,101,44,32,72,84,84,80,50,45,83,101,116,116,105,110,103,115>>
Utf8P == <<59,32,99,104,97,114,115,101,116,61,117,116,102,45,56>>
PlainV == <<116,101,120,116,47,112,108,97,105,110>> \o Utf8P
HtmlV == <<116,101,120,116,47,104,116,109,108>> \o Utf8P
JsonV == <<97,112,112,108,105,99,97,116,105,111,110,47,106,115,111,110>> \o Utf8P
VerT(n) == CASE n = 10 -> V1(48) [] n = 11 -> V1(49) [] n = 2 -> V23(50) [] n = 3 -> V23(51) [] OTHER -> <<78,111,110,101>>

(* ---- builders ---- *)
Parts0(kind) == [kind |-> kind, method |-> IF kind = "req" THEN Some(GetM) ELSE None, u |-> NoUrl, version |-> V1(49),
                 status |-> IF kind = "req" THEN 0 ELSE 200, hs |-> <<>>, ext |-> NoExt]
Preset(how) == CASE how = 3 -> <<200, PlainV>> [] how = 4 -> <<200, JsonV>> [] how = 5 -> <<404, HtmlV>> [] how = 6 -> <<500, HtmlV>>
                 [] how = 7 -> <<502, HtmlV>> [] how = 8 -> <<503, HtmlV>>
NewB(kind, how) == [bad |-> FALSE, p |-> IF kind = "resp" /\ how >= 3 THEN [Parts0(kind) EXCEPT !.status = Preset(how)[1], !.hs = <<<<CtN, Preset(how)[2]>>>>] ELSE Parts0(kind)]
(* host:port of a URL that has both *)
Connect(u) == IF u.dom = None \/ u.port < 0 THEN None ELSE Some(u.dom[1] \o <<Colon>> \o DecText(u.port))
HostFrom(hs, u) == IF Connect(u) = None THEN hs ELSE SetField(hs, HostN, Connect(u)[1])
UrlIn(u) == [scheme |-> IF u.scheme = None THEN <<>> ELSE <<u.scheme>>, user |-> u.user, pass |-> u.pass, dom |-> u.dom, port |-> u.port, path |-> u.path, query |-> u.query]
Fail(b) == [b EXCEPT !.bad = TRUE]
(* a setting from a value that may be none *)
Try(b, v, f(_)) == IF v = None THEN Fail(b) ELSE [b EXCEPT !.p = f(v[1])]
MethodArg(e) == IF e.as = 2 THEN Some(e.v) ELSE TextMethod(e.v)
StatusArg(e) == IF e.as = 0 THEN (IF IsStatus(DecVal(e.v)) THEN Some(DecVal(e.v)) ELSE None) ELSE TextStatus(e.v)
SetAll(hs, fs) == FoldLeft(LAMBDA a, f : SetField(a, f[1], f[2]), hs, fs)
(* u: the URL the call was given, or none; w: the text of the settings *)
BStep(b, e, u, w) ==
  IF b.bad THEN b
  ELSE LET p == b.p put(n, v) == [b EXCEPT !.p.hs = SetField(@, n, v)] IN
  CASE e.op = "method" -> Try(b, MethodArg(e), LAMBDA x : [p EXCEPT !.method = Some(x)])
    [] e.op \in {"url", "uval"} -> Try(b, u, LAMBDA x : [p EXCEPT !.u = x, !.hs = HostFrom(@, x)])
    [] e.op = "version" -> [b EXCEPT !.p.version = VerT(e.n)]
    [] e.op = "status" -> Try(b, StatusArg(e), LAMBDA x : [p EXCEPT !.status = x])
    [] e.op \in {"header", "hmut"} -> put(e.k, e.v)
    [] e.op = "headers" -> [b EXCEPT !.p.hs = SetAll(@, e.hs)]
    [] e.op = "rmethod" -> put(MtN, e.v)
    [] e.op = "ext" -> [b EXCEPT !.p.ext[e.k] = Some(e.n)]
    [] e.op = "up2" -> [b EXCEPT !.p.hs = SetAll(@, <<<<ConnN, UpV>>, <<UpgN, H2cV>>, <<SetN, w>>>>)]
(* the builder that starts from a request: its method and version when it has them, and its URL *)
FromB(m) == [bad |-> FALSE, p |-> [Parts0("req") EXCEPT !.method = IF m.method = None THEN @ ELSE m.method,
                                                       !.version = IF m.version = VerT(0) THEN @ ELSE m.version, !.u = m.u]]

(* ---- messages ---- *)
Msg(p, partial, body, bt) == [kind |-> p.kind, method |-> p.method, u |-> p.u, version |-> p.version, status |-> p.status, hs |-> p.hs, ext |-> p.ext,
                              partial |-> partial, body |-> body, bt |-> bt]
BodyType(kind, n) == IF n = 0 THEN "v" ELSE IF n = 1 THEN "s" ELSE IF kind = "req" THEN "u" ELSE "b"
Made(p, body, n) == LET d == IF p.kind = "req" THEN UaN ELSE SrvN
                        q == IF HasField(p.hs, d) THEN p ELSE [p EXCEPT !.hs = Append(@, <<d, WenM>>)]
                        bt == BodyType(p.kind, n)
                    IN Msg(q, IF p.kind = "req" THEN 1 ELSE 0, IF bt = "u" THEN <<>> ELSE body, bt)
Plain(kind, how, body) == LET p == Parts0(kind) IN
  IF kind = "req" THEN Msg([p EXCEPT !.method = None], 0, <<>>, "u")
  ELSE Msg(p, 0, IF how = 1 THEN <<>> ELSE body, CASE how = 1 -> "s" [] how \in {0, 2} -> "v" [] OTHER -> "b")
IsReq(m) == m.kind = "req"
WithBody(m, b, bt) == [m EXCEPT !.body = b, !.bt = bt]
(* the same body in another type *)
TypeTo(m, how) == CASE m.bt = "u" -> "u"
                    [] m.bt = "s" -> IF IsReq(m) THEN "v" ELSE (CASE how \in {0, 1} -> "v" [] how = 2 -> "b" [] OTHER -> "s")
                    [] m.bt = "v" -> IF IsReq(m) THEN "v" ELSE IF how \in {0, 1, 2} THEN "b" ELSE "v"
                    [] OTHER -> "b"
Retyped(m, how) == [m EXCEPT !.bt = TypeTo(m, how), !.partial = IF ~IsReq(m) /\ how = 3 THEN 0 ELSE @]
SetUrl(m, u) == IF ~IsReq(m) THEN m
                ELSE [m EXCEPT !.u = u, !.hs = IF HasField(@, HostN) THEN @ ELSE HostFrom(@, u)]
SetPart(m, part, v) == IF ~IsReq(m) THEN m
                       ELSE CASE part = "path" -> [m EXCEPT !.u.path = v]
                              [] part = "scheme" -> [m EXCEPT !.u.scheme = <<v>>]
                              [] part = "query" -> [m EXCEPT !.u.query = Some(v)]
                              [] part = "port" -> [m EXCEPT !.u.port = DecVal(v)]
MStep(m, e) ==
  CASE e.op = "seturl" -> SetUrl(m, Strip(Built(e.calls)))
    [] e.op = "uset" -> SetPart(m, e.part, e.v)
    [] e.op = "mset" -> IF IsReq(m) THEN [m EXCEPT !.method = Some(e.v)] ELSE m
    [] e.op = "vset" -> [m EXCEPT !.version = VerT(e.n)]
    [] e.op = "sset" -> IF IsReq(m) THEN m ELSE [m EXCEPT !.status = e.n]
    [] e.op = "hset" -> [m EXCEPT !.hs = SetField(@, e.k, e.v)]
    [] e.op = "hrem" -> [m EXCEPT !.hs = RemField(@, e.k)]
    [] e.op = "eset" -> [m EXCEPT !.ext[e.k] = Some(e.n)]
    [] e.op = "bset" -> IF m.bt = "u" THEN m ELSE [m EXCEPT !.body = e.b]
    [] e.op = "into" -> WithBody(m, e.b, BodyType("resp", IF IsReq(m) THEN Min2(e.str, 1) ELSE e.str))
    [] e.op = "type" -> Retyped(m, e.how)
(* a context that changes is changed for every message that has it *)
Touched(x, old, n) == IF x # <<>> /\ old # None /\ x[1].ext[3] = old THEN <<[x[1] EXCEPT !.ext[3] = Some(n)]>> ELSE x
(* a copy may lack the caller's extensions; the context goes with it *)
Bared(m) == [m EXCEPT !.ext = <<None, None, m.ext[3]>>]
(* a copy keeps the old body, this message takes the new one *)
CopyOf(m) == m
AfterCopy(m, b) == IF m.bt = "u" THEN m ELSE [m EXCEPT !.body = b]
PartsOf(m) == [m EXCEPT !.partial = 0, !.body = <<>>, !.bt = "u"]
=============================================================================
