------------------------------- MODULE Http2 --------------------------------
(* HTTP/2 (RFC 9113): frames, header lists over HPACK, settings, and the     *)
(* mapping of messages to header fields.                                     *)
EXTENDS Http1, Hpack

(* -------------------------------------------------------------- frame types *)
DATA == 0  HEADERS == 1  PRIORITY == 2  RST == 3  SETTINGS == 4  PUSH == 5  PING == 6  GOAWAY == 7  WINDOW == 8  CONT == 9
EndStream == 1  EndHeaders == 4  Padded == 8  Prio == 32
Bit(f, b) == (f \div b) % 2 = 1
Without(f, b) == IF Bit(f, b) THEN f - b ELSE f
With(f, b) == IF Bit(f, b) THEN f ELSE f + b
KnownFlags(f) == (f % 2) + 4 * ((f \div 4) % 2) + 8 * ((f \div 8) % 2) + 32 * ((f \div 32) % 2) = f
Id31(q) == ((q[1] % 128) * 16777216) + BeVal(SubSeq(q, 2, 4))

(* the frame at the start of q: v is "ok", "short" (more octets needed) *)
RawFrame(q) ==
  IF Len(q) < 9 THEN [v |-> "short"]
  ELSE LET n == BeVal(SubSeq(q, 1, 3)) IN
       IF Len(q) < 9 + n THEN [v |-> "short"]
       ELSE [v |-> "ok", len |-> n, kind |-> q[4], fl |-> q[5], sid |-> Id31(SubSeq(q, 6, 9)), p |-> SubSeq(q, 10, 9 + n), rest |-> Drop(q, 9 + n)]
RECURSIVE RawFrames(_)
RawFrames(q) == LET f == RawFrame(q) IN IF f.v # "ok" THEN <<>> ELSE <<f>> \o RawFrames(f.rest)
FrameBytes(kind, fl, sid, p) == Be3(Len(p)) \o <<kind, fl>> \o Be4(sid) \o p

(* ------------------------------------------------------------- header lists *)
PMethod == <<58,109,101,116,104,111,100>>  PScheme == <<58,115,99,104,101,109,101>>  PAuth == <<58,97,117,116,104,111,114,105,116,121>>
PPath == <<58,112,97,116,104>>  PStatus == <<58,115,116,97,116,117,115>>
Pseudo == {PMethod, PScheme, PAuth, PPath, PStatus}
IsPseudo(n) == n # <<>> /\ n[1] = Colon
ListSize(hs) == FoldLeft(LAMBDA a, f : a + Len(f[1]) + Len(f[2]) + 32, 0, hs)
FieldNameOk(n) == n # <<>> /\ \A k \in 1..Len(n) : IsTChar(n[k]) /\ ~IsUpper(n[k])
SchemeWord(q) == q # <<>> /\ Len(q) <= 64 /\ IsAlpha(q[1]) /\ (\A k \in 1..Len(q) : IsSchemeChar(q[k])) /\ Lower(q) = q
(* RFC 9113 8.3: a list a peer must not send; a recipient may reject it or not *)
Malformed(hs) ==
  LET P == {k \in 1..Len(hs) : IsPseudo(hs[k][1])} IN
  \/ \E k \in 1..Len(hs) : IF k \in P THEN hs[k][1] \notin Pseudo \/ ~IsUtf8(hs[k][2]) ELSE ~FieldNameOk(hs[k][1])
  \/ \E k \in P : \E j \in 1..(k - 1) : j \notin P \/ hs[j][1] = hs[k][1]
  \/ \E k \in P : hs[k][1] = PScheme /\ ~SchemeWord(hs[k][2])
  \/ \E k \in 1..Len(hs) : \E j \in 1..Len(hs[k][2]) : ~ValueChar(hs[k][2][j])
Parts0 == [m |-> None, sc |-> None, au |-> None, pa |-> None, st |-> None, hs |-> <<>>]
PartStep(a, f) ==
  CASE f[1] = PMethod -> [a EXCEPT !.m = Some(f[2])]
    [] f[1] = PScheme -> [a EXCEPT !.sc = Some(f[2])]
    [] f[1] = PAuth -> [a EXCEPT !.au = Some(f[2])]
    [] f[1] = PPath -> [a EXCEPT !.pa = Some(f[2])]
    [] f[1] = PStatus -> [a EXCEPT !.st = Some(f[2])]
    [] OTHER -> [a EXCEPT !.hs = SetField(@, f[1], f[2])]
PartsOf(hs) == FoldLeft(PartStep, Parts0, hs)
(* the field list of a message: v is "ok", "err" or "any" *)
ListOf(hs, max) ==
  IF ListSize(hs) > max THEN [v |-> "err"]
  ELSE IF Malformed(hs) THEN [v |-> "any"]
  ELSE LET x == PartsOf(hs) IN
       IF (x.m # None /\ x.m[1] \notin Methods) \/ (x.st # None /\ ~StatusOk(x.st[1])) THEN [v |-> "err"]
       ELSE [v |-> "ok", parts |-> x]

(* ------------------------------------------------------------------ settings *)
(* values by parameter 1..8, each an option of four octets *)
Sett0 == [k \in 1..8 |-> None]
SettOk(id, q) == CASE id = 2 \/ id = 8 -> q \in {<<0,0,0,0>>, <<0,0,0,1>>}
                   [] id = 4 -> q[1] < 128
                   [] id = 5 -> q[1] = 0 /\ q[2] * 65536 + q[3] * 256 + q[4] >= 16384
                   [] OTHER -> TRUE
KnownSett == {1, 2, 3, 4, 5, 6, 8}
SettStep(a, e) ==
  LET id == e[1] * 256 + e[2] q == SubSeq(e, 3, 6) IN
  IF ~a.ok \/ id \notin KnownSett THEN a
  ELSE IF ~SettOk(id, q) THEN [a EXCEPT !.ok = FALSE]
  ELSE [a EXCEPT !.v[id] = Some(q)]
SettParse(p) == IF Len(p) % 6 # 0 THEN [ok |-> FALSE, v |-> Sett0]
                ELSE FoldLeft(SettStep, [ok |-> TRUE, v |-> Sett0], [k \in 1..(Len(p) \div 6) |-> SubSeq(p, 6 * k - 5, 6 * k)])
RECURSIVE SettBytesFrom(_, _)
SettBytesFrom(v, k) == IF k > 8 THEN <<>> ELSE (IF v[k] = None THEN <<>> ELSE <<0, k>> \o v[k][1]) \o SettBytesFrom(v, k + 1)
SettBytes(v) == SettBytesFrom(v, 1)

(* base64url without padding (RFC 4648) *)
B64Val(c) == CASE IsUpper(c) -> c - 65 [] IsLower(c) -> c - 71 [] IsDigit(c) -> c + 4 [] c = 45 -> 62 [] c = 95 -> 63 [] OTHER -> -1
B64Chr(n) == IF n < 26 THEN 65 + n ELSE IF n < 52 THEN 71 + n ELSE IF n < 62 THEN n - 4 ELSE IF n = 62 THEN 45 ELSE 95
B64Step(a, c) == LET v == B64Val(c) IN
  IF a.bad \/ v < 0 THEN [a EXCEPT !.bad = TRUE]
  ELSE LET acc == a.acc * 64 + v n == a.n + 6 IN
       IF n >= 8 THEN [a EXCEPT !.out = Append(@, acc \div Pow2(n - 8)), !.acc = acc % Pow2(n - 8), !.n = n - 8]
       ELSE [a EXCEPT !.acc = acc, !.n = n]
(* v: "ok", "bad", or "lax" (the bits after the last octet are not zero) *)
B64Decode(q) == LET a == FoldLeft(B64Step, [bad |-> FALSE, acc |-> 0, n |-> 0, out |-> <<>>], q) IN
                IF a.bad \/ a.n = 6 THEN [v |-> "bad", b |-> <<>>] ELSE [v |-> IF a.acc = 0 THEN "ok" ELSE "lax", b |-> a.out]
E64Step(a, c) == LET acc == a.acc * 256 + c n == a.n + 8 IN
  IF n >= 12 THEN [out |-> a.out \o <<B64Chr(acc \div Pow2(n - 6)), B64Chr((acc \div Pow2(n - 12)) % 64)>>, acc |-> acc % Pow2(n - 12), n |-> n - 12]
  ELSE [out |-> Append(a.out, B64Chr(acc \div Pow2(n - 6))), acc |-> acc % Pow2(n - 6), n |-> n - 6]
B64Encode(q) == LET a == FoldLeft(E64Step, [out |-> <<>>, acc |-> 0, n |-> 0], q) IN
                IF a.n = 0 THEN a.out ELSE Append(a.out, B64Chr(a.acc * Pow2(6 - a.n)))

(* -------------------------------------------------------- reading one frame *)
(* what a received frame (a header frame together with its continuations) means: *)
(* v: "ok" with value x, "err", or "any"; d: the HPACK context afterwards         *)
Bad(d) == [v |-> "err", d |-> d]
AnyF(d) == [v |-> "any", d |-> Dead(d)]
Val(x, d) == [v |-> "ok", x |-> x, d |-> d]
(* the payload without padding, given the length of the first frame *)
CanPad(kind) == kind \in {DATA, HEADERS, PUSH}
Unpad(kind, fl, len, p) ==
  IF ~(CanPad(kind) /\ Bit(fl, Padded)) THEN [ok |-> TRUE, p |-> p, len |-> len]
  ELSE IF len = 0 \/ p[1] >= len THEN [ok |-> FALSE]
  ELSE [ok |-> TRUE, p |-> SubSeq(p, 2, len - p[1]) \o Drop(p, len), len |-> len - 1 - p[1]]
Block(d, q, max, mk(_)) ==
  LET b == DecBlock(d, q) IN
  IF b.any \/ b.lax THEN AnyF(d)
  ELSE IF b.v # "ok" THEN Bad(Dead(d))
  ELSE LET l == ListOf(b.hs, max) IN
       CASE l.v = "err" -> Bad(b.d) [] l.v = "any" -> [AnyF(d) EXCEPT !.d = b.d] [] OTHER -> Val(mk(l.parts), b.d)
Dep(q) == [ex |-> IF q[1] >= 128 THEN 1 ELSE 0, id |-> Id31(q), w |-> q[5]]
NoDep == [ex |-> 0, id |-> 0, w |-> -1]
X0 == [k |-> "", sid |-> 0, fl |-> 0, p |-> <<>>, code |-> <<>>, id |-> 0, dep |-> NoDep, parts |-> Parts0, sett |-> Sett0]
Meaning(kind, fl, sid, len, p0, d, max) ==
  IF kind \in {DATA, HEADERS, PRIORITY, RST, PUSH, CONT} /\ sid = 0 THEN Bad(d)
  ELSE IF kind \in {SETTINGS, PING, GOAWAY} /\ sid # 0 THEN Bad(d)
  ELSE IF kind = CONT THEN Bad(d)
  ELSE IF kind > CONT THEN AnyF(d)
  ELSE LET u == Unpad(kind, fl, len, p0) IN
  IF ~u.ok THEN Bad(d)
  ELSE LET p == u.p x == [X0 EXCEPT !.sid = sid, !.fl = fl] IN
  CASE kind = DATA -> Val([x EXCEPT !.k = "data", !.p = p], d)
    [] kind = HEADERS ->
         IF ~Bit(fl, Prio) THEN Block(d, p, max, LAMBDA a : [x EXCEPT !.k = "headers", !.parts = a])
         ELSE IF u.len < 5 THEN (IF Len(p) > u.len THEN AnyF(d) ELSE Bad(d))
         ELSE IF Id31(p) = sid THEN Bad(d)
         ELSE Block(d, Drop(p, 5), max, LAMBDA a : [x EXCEPT !.k = "headers", !.parts = a, !.dep = Dep(p)])
    [] kind = PUSH ->
         IF u.len < 4 THEN (IF Len(p) > u.len THEN AnyF(d) ELSE Bad(d))
         ELSE IF Id31(p) = 0 THEN Bad(d)
         ELSE Block(d, Drop(p, 4), max, LAMBDA a : [x EXCEPT !.k = "push", !.parts = a, !.id = Id31(p)])
    [] kind = PRIORITY -> IF Len(p) # 5 \/ Id31(p) = sid THEN Bad(d) ELSE Val([x EXCEPT !.k = "priority", !.dep = Dep(p)], d)
    [] kind = RST -> IF Len(p) # 4 THEN Bad(d) ELSE Val([x EXCEPT !.k = "reset", !.code = p], d)
    [] kind = SETTINGS ->
         IF Bit(fl, 1) THEN (IF p # <<>> THEN Bad(d) ELSE Val([x EXCEPT !.k = "settings"], d))
         ELSE LET s == SettParse(p) IN IF s.ok THEN Val([x EXCEPT !.k = "settings", !.sett = s.v], d) ELSE Bad(d)
    [] kind = PING -> IF Len(p) # 8 THEN Bad(d) ELSE Val([x EXCEPT !.k = "ping", !.p = p], d)
    [] kind = GOAWAY -> IF Len(p) < 8 THEN Bad(d) ELSE Val([x EXCEPT !.k = "goaway", !.id = Id31(p), !.code = SubSeq(p, 5, 8), !.p = Drop(p, 8)], d)
    [] kind = WINDOW -> IF Len(p) # 4 \/ Id31(p) = 0 THEN Bad(d) ELSE Val([x EXCEPT !.k = "window", !.id = Id31(p)], d)

(* ------------------------------------------------------- reading a connection *)
(* a header frame without END_HEADERS is completed by the continuations after it *)
RECURSIVE Gather(_, _, _)
Gather(q, sid, acc) ==
  LET f == RawFrame(q) IN
  IF Len(q) >= 9 /\ ~KnownFlags(q[5]) THEN [v |-> "any"]
  ELSE IF f.v # "ok" THEN [v |-> "short"]
  ELSE IF f.kind # CONT \/ f.sid # sid THEN [v |-> "proto"]
  ELSE IF Bit(f.fl, EndHeaders) THEN [v |-> "ok", p |-> acc \o f.p, rest |-> f.rest]
  ELSE Gather(f.rest, sid, acc \o f.p)
(* end: "done", "short", "proto", "err", "any"; fs: the values delivered; d: the HPACK context; *)
(* used: the octets of the frames delivered                                                     *)
RECURSIVE ReadFrom(_, _, _, _, _)
ReadFrom(q, d, max, fs, used) ==
  LET Stop(v, d2) == [end |-> v, fs |-> fs, d |-> d2, used |-> used] IN
  IF q = <<>> THEN Stop("done", d)
  ELSE LET f == RawFrame(q) IN
  IF Len(q) >= 9 /\ ~KnownFlags(q[5]) THEN Stop("any", Dead(d))
  ELSE IF f.v # "ok" THEN Stop("short", d)
  ELSE LET g == IF f.kind \in {HEADERS, PUSH} /\ ~Bit(f.fl, EndHeaders) THEN Gather(f.rest, f.sid, f.p) ELSE [v |-> "ok", p |-> f.p, rest |-> f.rest] IN
  IF g.v # "ok" THEN Stop(g.v, IF g.v = "any" THEN Dead(d) ELSE d)
  ELSE LET m == Meaning(f.kind, f.fl, f.sid, f.len, g.p, d, max) IN
  IF m.v # "ok" THEN Stop(m.v, m.d)
  ELSE ReadFrom(g.rest, m.d, max, Append(fs, m.x), used + Len(q) - Len(g.rest))
Read(q, d, max) == ReadFrom(q, d, max, <<>>, 0)
=============================================================================
