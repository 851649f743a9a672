------------------------------- MODULE Http1 --------------------------------
(* HTTP/1.x (RFC 9112): request and response heads as a byte automaton,     *)
(* message framing, the chunked coding, and a receiver of a byte stream.    *)
EXTENDS Url

CR == 13  LF == 10  SP == 32  HTAB == 9
T(s) == s \* documentation only

Methods == {<<79,80,84,73,79,78,83>>, <<71,69,84>>, <<80,79,83,84>>, <<80,85,84>>, <<68,69,76,69,84,69>>, <<72,69,65,68>>, <<84,82,65,67,69>>,
            <<67,79,78,78,69,67,84>>, <<80,65,84,67,72>>}
ConnectM == <<67,79,78,78,69,67,84>>  OptionsM == <<79,80,84,73,79,78,83>>
V1(c) == <<72,84,84,80,47,49,46,c>>
V23(c) == <<72,84,84,80,47,c>>
Versions == {V1(48), V1(49), V23(50), V23(51)}
LaxVersions == {V23(50), V23(51)}
PrefixOf(S, q) == \E x \in S : Len(q) <= Len(x) /\ SubSeq(x, 1, Len(q)) = q
StatusOk(q) == Len(q) = 3 /\ IsDigit(q[1]) /\ q[1] # 48 /\ IsDigit(q[2]) /\ IsDigit(q[3])
StatusVal(q) == (q[1] - 48) * 100 + (q[2] - 48) * 10 + (q[3] - 48)
StatusPrefix(q) == Len(q) <= 3 /\ \A k \in 1..Len(q) : IsDigit(q[k]) /\ (k = 1 => q[k] # 48)
ReasonChar(c) == c = HTAB \/ (c >= 32 /\ c # 127)
(* bytes a field value may contain; other controls than NUL, CR and LF are tolerated *)
ValueChar(c) == c \notin {0, CR, LF}
ValueClean(c) == c = HTAB \/ (c >= 32 /\ c # 127)
IsBlank(c) == c = SP \/ c = HTAB

RECURSIVE TrimR(_)
TrimR(q) == IF q # <<>> /\ IsBlank(q[Len(q)]) THEN TrimR(SubSeq(q, 1, Len(q) - 1)) ELSE q
RECURSIVE TrimL(_)
TrimL(q) == IF q # <<>> /\ IsBlank(q[1]) THEN TrimL(Tail(q)) ELSE q
Trim(q) == TrimL(TrimR(q))

(* fields in order; a repeated name keeps its place and takes the last value *)
FieldPos(hs, n) == LET S == {k \in 1..Len(hs) : EqNoCase(hs[k][1], n)} IN IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : k <= j
SetField(hs, n, v) == LET k == FieldPos(hs, n) IN IF k = 0 THEN Append(hs, <<n, v>>) ELSE [hs EXCEPT ![k] = <<hs[k][1], v>>]
FieldVal(hs, n) == LET k == FieldPos(hs, n) IN IF k = 0 THEN None ELSE Some(hs[k][2])
SameFields(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : EqNoCase(a[k][1], b[k][1]) /\ a[k][2] = b[k][2]

HostN == <<104,111,115,116>>
ClN == <<99,111,110,116,101,110,116,45,108,101,110,103,116,104>>
TeN == <<116,114,97,110,115,102,101,114,45,101,110,99,111,100,105,110,103>>
ChunkedT == <<99,104,117,110,107,101,100>>

(* comma (or, for joined values, semicolon) separated tokens *)
TokStep(a, c) == IF c \in {44, 59} THEN [done |-> Append(a.done, Trim(a.cur)), cur |-> <<>>] ELSE [a EXCEPT !.cur = Append(@, c)]
Tokens(q) == LET a == FoldLeft(TokStep, [done |-> <<>>, cur |-> <<>>], q) IN Append(a.done, Trim(a.cur))
HasToken(q, t) == LET ts == Tokens(q) IN \E k \in 1..Len(ts) : EqNoCase(ts[k], t)
IsChunked(hs) == LET v == FieldVal(hs, TeN) IN v # None /\ HasToken(v[1], ChunkedT)
(* declared length: 0 when there is none; Huge when it does not fit 31 bits *)
BodyLen(hs) == LET v == FieldVal(hs, ClN) IN IF v = None THEN 0 ELSE LET n == DecVal(v[1]) IN IF n < 0 THEN 0 ELSE n

(* ---- the head automaton ---- *)
(* v: "run", "dead" (no continuation is well formed) or "done"; lax: an irregularity that a *)
(* recipient may tolerate or reject has been seen                                            *)
Head0(kind) == [kind |-> kind, v |-> "run", lax |-> FALSE, ph |-> "start", tok |-> <<>>, name |-> <<>>,
                method |-> <<>>, target |-> <<>>, version |-> <<>>, status |-> <<>>, hs |-> <<>>, used |-> 0]
Kill(h) == [h EXCEPT !.v = "dead"]
Lax(h) == [h EXCEPT !.lax = TRUE]
LaxIf(h, b) == IF b THEN [h EXCEPT !.lax = TRUE] ELSE h
Go(h, ph) == [h EXCEPT !.ph = ph, !.tok = <<>>]
Push(h, c) == [h EXCEPT !.tok = Append(@, c)]
Start(h, ph, c) == [h EXCEPT !.ph = ph, !.tok = <<c>>]

(* the URL a request denotes: of the target, completed by the Host field *)
AbsUrl(scheme, host, port, path, query) == [v |-> "ok", scheme |-> scheme, user |-> None, pass |-> None, dom |-> host, port |-> port, path |-> path, query |-> query]
RequestUrl(method, target, hs) ==
  IF method = ConnectM THEN
    LET hp == HostPort(target) IN
    IF hp.v # "ok" THEN [v |-> hp.v] ELSE IF hp.port = None THEN LaxUrl ELSE AbsUrl(None, Some(hp.host), hp.port[1], <<Slash>>, None)
  ELSE
    LET u == IF method = OptionsM /\ target = <<42>> THEN AbsUrl(None, None, 0, <<42>>, None) ELSE ParseUrl(target) IN
    IF u.v # "ok" \/ u.dom # None THEN u
    ELSE LET h == FieldVal(hs, HostN) IN
         IF h = None THEN [u EXCEPT !.scheme = HttpS]
         ELSE IF ~IsUtf8(h[1]) THEN LaxUrl
         ELSE LET hp == HostPort(h[1]) IN
              IF hp.v = "bad" \/ (hp.v = "lax" /\ h[1] # <<>>) THEN LaxUrl
              ELSE [u EXCEPT !.scheme = HttpS, !.dom = Some(hp.host), !.port = IF hp.port = None THEN 80 ELSE hp.port[1]]

Finish(h) ==
  IF h.kind = "resp" THEN [h EXCEPT !.v = "done"]
  ELSE LET u == RequestUrl(h.method, h.target, h.hs) IN
       IF u.v = "bad" THEN Kill(h) ELSE LaxIf([h EXCEPT !.v = "done"], u.v = "lax")

FieldDone(h) == Go([h EXCEPT !.hs = SetField(@, h.name, TrimR(h.tok))], "field")
Step1(h, c) ==
  CASE h.ph = "start" ->
         (CASE c = CR -> LaxIf(Go(h, "startcr"), h.kind # "req") [] c = LF -> Lax(h)
            [] OTHER -> IF ~IsVChar(c) THEN Kill(h) ELSE Start(h, IF h.kind = "req" THEN "method" ELSE "version", c))
    [] h.ph = "startcr" -> IF c = LF THEN Go(h, "start") ELSE Kill(h)
    [] h.ph = "method" ->
         (IF IsVChar(c) THEN Push(h, c) ELSE IF c = SP /\ h.tok \in Methods THEN Go([h EXCEPT !.method = h.tok], "tsp") ELSE Kill(h))
    [] h.ph = "tsp" -> IF c = SP THEN Lax(h) ELSE IF IsVChar(c) THEN Start(h, "target", c) ELSE Kill(h)
    [] h.ph = "target" -> IF IsVChar(c) THEN Push(h, c) ELSE IF c = SP THEN Go([h EXCEPT !.target = h.tok], "versp") ELSE Kill(h)
    [] h.ph = "versp" -> IF c = SP THEN Lax(h) ELSE IF IsVChar(c) THEN Start(h, "version", c) ELSE Kill(h)
    [] h.ph = "version" ->
         IF IsVChar(c) THEN Push(h, c)
         ELSE IF h.tok \notin Versions THEN Kill(h)
         ELSE LET g == LaxIf([h EXCEPT !.version = h.tok], h.tok \in LaxVersions) IN
              IF h.kind = "resp" THEN (IF c = SP THEN Go(g, "stsp") ELSE Kill(h))
              ELSE (CASE c = CR -> Go(g, "linecr") [] c = LF -> Lax(Go(g, "field")) [] OTHER -> Kill(h))
    [] h.ph = "stsp" -> IF c = SP THEN Lax(h) ELSE IF IsVChar(c) THEN Start(h, "status", c) ELSE Kill(h)
    [] h.ph = "status" ->
         IF IsVChar(c) THEN Push(h, c)
         ELSE IF ~StatusOk(h.tok) THEN Kill(h)
         ELSE LET g == [h EXCEPT !.status = h.tok] IN
              (CASE c = SP -> Go(g, "reason") [] c = HTAB -> Lax(Go(g, "reason")) [] c = CR -> Lax(Go(g, "linecr")) [] c = LF -> Lax(Go(g, "field"))
                 [] OTHER -> IF ReasonChar(c) THEN Lax(Go(g, "reason")) ELSE Kill(h))
    [] h.ph = "reason" -> IF ReasonChar(c) THEN h ELSE (CASE c = CR -> Go(h, "linecr") [] c = LF -> Lax(Go(h, "field")) [] OTHER -> Kill(h))
    [] h.ph = "linecr" -> IF c = LF THEN Go(h, "field") ELSE Kill(h)
    [] h.ph = "field" -> (CASE c = CR -> Go(h, "endcr") [] c = LF -> Lax(Finish(h)) [] OTHER -> IF IsTChar(c) THEN Start(h, "name", c) ELSE Kill(h))
    [] h.ph = "name" -> IF IsTChar(c) THEN Push(h, c)
                        ELSE (CASE c = Colon -> Go([h EXCEPT !.name = h.tok], "ows") [] c = SP -> Lax(Go([h EXCEPT !.name = h.tok], "namesp")) [] OTHER -> Kill(h))
    [] h.ph = "namesp" -> (CASE c = SP -> h [] c = Colon -> Go(h, "ows") [] OTHER -> Kill(h))
    [] h.ph \in {"ows", "value"} ->
         (CASE c = CR -> [h EXCEPT !.ph = "valuecr"] [] c = LF -> Lax(FieldDone(h)) [] ~ValueChar(c) -> Kill(h)
            [] h.ph = "ows" /\ IsBlank(c) -> h
            [] OTHER -> LaxIf([Push(h, c) EXCEPT !.ph = "value"], ~ValueClean(c)))
    [] h.ph = "valuecr" -> IF c = LF THEN FieldDone(h) ELSE Kill(h)
    [] h.ph = "endcr" -> IF c = LF THEN Finish(h) ELSE Kill(h)
HeadStep(h, c) == IF h.v # "run" THEN h ELSE Step1([h EXCEPT !.used = @ + 1], c)
HeadRun(h, q) == FoldLeft(HeadStep, h, q)
HeadOf(kind, q) == HeadRun(Head0(kind), q)

(* a running head whose pending token already cannot become valid *)
Suspect(h) ==
  \/ h.ph = "method" /\ ~PrefixOf(Methods, h.tok)
  \/ h.ph = "version" /\ ~PrefixOf(Versions, h.tok)
  \/ h.ph = "status" /\ ~StatusPrefix(h.tok)
  \/ h.kind = "req" /\ h.ph \notin {"start", "startcr", "method", "tsp", "target"} /\ RequestUrl(h.method, h.target, h.hs).v # "ok"
(* the answers a parser may give: subset of {"ok", "partial", "err"} *)
Verdicts(h) == CASE h.v = "dead" -> {"err"}
                 [] h.v = "done" -> {"ok"} \cup (IF h.lax THEN {"err"} ELSE {})
                 [] OTHER -> {"partial"} \cup (IF h.lax \/ Suspect(h) THEN {"err"} ELSE {})

(* ---- chunked coding ---- *)
Chunk0 == [v |-> "run", lax |-> FALSE, ph |-> "size", n |-> 0, sig |-> 0, got |-> 0, head |-> 0, used |-> 0, data |-> <<>>]
CKill(k) == [k EXCEPT !.v = "dead"]
CLax(k) == [k EXCEPT !.lax = TRUE]
CGo(k, ph) == [k EXCEPT !.ph = ph]
SizeDone(k, ph) == IF k.sig > 16 THEN CKill(k) ELSE CGo(k, ph)
ToData(k) == IF k.n = 0 THEN [k EXCEPT !.ph = "tailcr", !.head = k.used] ELSE [k EXCEPT !.ph = "data", !.head = k.used]
Chunk1(k, c) ==
  CASE k.ph \in {"size", "digits"} /\ IsHex(c) ->
         [k EXCEPT !.ph = "digits", !.sig = IF @ > 0 \/ c # 48 THEN @ + 1 ELSE 0,
                   !.n = IF @ >= 134217727 THEN Huge ELSE @ * 16 + HexVal(c)]
    [] k.ph = "digits" /\ c = CR -> SizeDone(k, "headcr")
    [] k.ph = "digits" /\ c = LF -> CLax(ToData(SizeDone(k, "data")))
    [] k.ph = "digits" /\ IsBlank(c) -> CLax(SizeDone(k, "blank"))
    [] k.ph = "blank" /\ IsBlank(c) -> k
    [] k.ph = "blank" /\ c = CR -> CGo(k, "headcr")
    [] k.ph = "blank" /\ c = LF -> ToData(k)
    [] k.ph \in {"digits", "blank"} /\ c = 59 -> SizeDone(k, "ext")
    [] k.ph = "ext" /\ ReasonChar(c) -> k
    [] k.ph = "ext" /\ c = CR -> CGo(k, "headcr")
    [] k.ph = "ext" /\ c = LF -> CLax(ToData(k))
    [] k.ph = "headcr" /\ c = LF -> ToData(k)
    [] k.ph = "data" -> LET g == [k EXCEPT !.got = @ + 1, !.data = Append(@, c)] IN IF g.got = g.n THEN CGo(g, "tailcr") ELSE g
    [] k.ph = "tailcr" /\ c = CR -> CGo(k, "taillf")
    [] k.ph = "taillf" /\ c = LF -> [k EXCEPT !.v = "done"]
    [] OTHER -> CKill(k)
ChunkStep(k, c) == IF k.v # "run" THEN k ELSE Chunk1([k EXCEPT !.used = @ + 1], c)
ChunkOf(q) == FoldLeft(ChunkStep, Chunk0, q)
\* the end of the representable range is 2^64: lengths too near to it may be refused
ChunkVerdicts(k) == CASE k.v = "dead" -> {"err"}
                      [] k.v = "done" -> {"ok"} \cup (IF k.lax THEN {"err"} ELSE {})
                      [] OTHER -> {"partial"} \cup (IF k.lax \/ k.sig > 15 THEN {"err"} ELSE {})
RECURSIVE HexText(_)
HexText(n) == IF n < 16 THEN <<IF n < 10 THEN 48 + n ELSE 87 + n>> ELSE HexText(n \div 16) \o HexText(n % 16)
EncChunk(d) == HexText(Len(d)) \o <<CR, LF>> \o d \o <<CR, LF>>
(* all chunks of a body: complete flag, body, bytes used *)
RECURSIVE ChunksOf(_, _)
ChunksOf(q, acc) ==
  LET k == ChunkOf(q) IN
  IF k.v # "done" THEN [done |-> FALSE, v |-> k.v, body |-> acc, rest |-> q]
  ELSE IF k.n = 0 THEN [done |-> TRUE, v |-> "done", body |-> acc, rest |-> Drop(q, k.used)]
  ELSE ChunksOf(Drop(q, k.used), acc \o k.data)

(* ---- the receiver of a stream of messages ---- *)
(* mode: "head", "body" (left bytes), "chunk", "stop" *)
Recv0(kind) == [kind |-> kind, mode |-> "head", h |-> Head0(kind), k |-> Chunk0, left |-> 0, body |-> <<>>, out |-> <<>>, lax |-> FALSE]
Deliver(r) == [r EXCEPT !.mode = "head", !.h = Head0(r.kind), !.body = <<>>, !.out = Append(@, [h |-> r.h, body |-> r.body])]
RecvStep(r, c) ==
  CASE r.mode = "stop" -> r
    [] r.mode = "head" ->
         LET h == HeadStep(r.h, c) g == [r EXCEPT !.h = h, !.lax = @ \/ h.lax] IN
         IF h.v = "dead" THEN [g EXCEPT !.mode = "stop"]
         ELSE IF h.v = "run" THEN g
         ELSE IF IsChunked(h.hs) THEN [g EXCEPT !.mode = "chunk", !.k = Chunk0]
         ELSE LET n == BodyLen(h.hs) IN IF n = 0 THEN Deliver(g) ELSE [g EXCEPT !.mode = "body", !.left = n]
    [] r.mode = "body" -> LET g == [r EXCEPT !.left = @ - 1, !.body = Append(@, c)] IN IF g.left = 0 THEN Deliver(g) ELSE g
    [] r.mode = "chunk" ->
         LET k == ChunkStep(r.k, c) g == [r EXCEPT !.k = k, !.lax = @ \/ k.lax] IN
         IF k.v = "dead" THEN [g EXCEPT !.mode = "stop"]
         ELSE IF k.v = "run" THEN g
         ELSE IF k.n = 0 THEN Deliver(g)
         ELSE [g EXCEPT !.body = @ \o k.data, !.k = Chunk0]
RecvRun(r, q) == FoldLeft(RecvStep, r, q)

(* a message and the bytes it was written as *)
NoSurround(hs) == \A k \in 1..Len(hs) : Trim(hs[k][2]) = hs[k][2]
TrimAll(hs) == [k \in 1..Len(hs) |-> <<hs[k][1], Trim(hs[k][2])>>]
Clean(hs) == \A k \in 1..Len(hs) : /\ hs[k][1] # <<>> /\ \A j \in 1..Len(hs[k][1]) : IsTChar(hs[k][1][j])
                                   /\ \A j \in 1..Len(hs[k][2]) : ValueChar(hs[k][2][j])
Serialisable(kind, m) ==
  /\ Clean(m.hs) /\ m.version \in Versions
  /\ kind = "req" =>
       /\ m.method \in Methods
       /\ IF m.method = ConnectM THEN m.u.dom # None /\ m.u.port >= 0 /\ (\A k \in 1..Len(m.u.dom[1]) : IsVChar(m.u.dom[1][k]))
          ELSE (m.method = OptionsM /\ m.u.path = <<42>> /\ m.u.query = None) \/ (m.u.path # <<>> /\ m.u.path[1] = Slash)
DenotesFields(hs, m) == SameFields(hs, TrimAll(m.hs))
Denotes(kind, h, m) ==
  /\ h.v = "done" /\ h.version = m.version /\ DenotesFields(h.hs, m)
  /\ IF kind = "resp" THEN StatusVal(h.status) = m.status
     ELSE /\ h.method = m.method
          /\ IF m.method = ConnectM
             THEN LET hp == HostPort(h.target) IN hp.v = "ok" => hp.host = m.u.dom[1] /\ hp.port = Some(m.u.port)
             ELSE LET u == RequestUrl(h.method, h.target, h.hs) IN u.v \in {"ok", "lax"} /\ (u.v = "ok" => u.path = m.u.path /\ u.query = m.u.query)
(* what was written may be refused only if it cannot be written *)
WrittenOk(kind, r, body) ==
  IF r.t # "ok" THEN r.t \in {"err", "serr"} /\ ~Serialisable(kind, r.view)
  ELSE LET h == HeadOf(kind, r.b) IN
       IF Clean(r.view.hs) /\ ~Serialisable(kind, r.view) THEN TRUE
       ELSE /\ Denotes(kind, h, r.view) /\ Drop(r.b, h.used) = body
            /\ (h.lax \/ r.b2 = r.b)
=============================================================================
