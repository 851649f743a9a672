-------------------------------- MODULE Out ---------------------------------
(* Writing to a buffer, and reading back from its front.  A buffer is the    *)
(* sequence of octets not yet read; a writer adds its encoding at the end and *)
(* tells how many octets that were, a reader of a number takes its octets     *)
(* from the front.                                                            *)
EXTENDS Tab

CrLf == <<13, 10>>
HexDigit(k) == IF k < 10 THEN 48 + k ELSE 87 + k
RECURSIVE HexText(_)
HexText(n) == (IF n < 16 THEN <<>> ELSE HexText(n \div 16)) \o <<HexDigit(n % 16)>>
Line(f) == f[1] \o <<58, 32>> \o f[2] \o CrLf
Lines(hs) == FoldLeft(LAMBDA a, f : a \o Line(f), <<>>, hs)
Block(hs) == Lines(hs) \o CrLf
(* a field that would not be read back as one line is refused *)
FieldFit(f) == f[1] # <<>> /\ (\A k \in 1..Len(f[1]) : IsTChar(f[1][k])) /\ \A k \in 1..Len(f[2]) : f[2][k] \notin {0, 10, 13}
Fit(hs) == \A k \in 1..Len(hs) : FieldFit(hs[k])
HeadBytes(len, kind, fl, sid) == len \o <<kind, fl>> \o sid
FrameOf(kind, fl, sid, p) == HeadBytes(Be3(Len(p)), kind, fl, sid) \o p
Zero4 == <<0, 0, 0, 0>>
Mask31(q) == <<q[1] % 128>> \o SubSeq(q, 2, 4)
StatusLines(n) == LET t == StatusText(n) \o SP1 IN IF Known(n) THEN {t \o p \o CrLf : p \in Phrases(n)} ELSE {t \o CrLf}
VersionOf(n) == VersionWords[n][2]

Joined(ps) == FoldLeft(LAMBDA a, p : a \o p, <<>>, ps)
XorByte(a, b) == a ^^ b
(* what a writer may write; nothing: it refuses *)
Pieces(o) ==
  CASE o.k \in {"lit", "str", "vec", "sl"} -> {o.b}
    [] o.k \in {"bin", "bm"} -> {Drop(o.b, o.skip)}
    [] o.k = "unit" -> {<<>>}
    [] o.k = "mth" -> IF o.b = <<>> THEN {} ELSE {o.b}
    [] o.k = "ver" -> IF o.n = 0 THEN {} ELSE {VersionOf(o.n)}
    [] o.k = "sch" -> IF o.b = <<>> THEN {} ELSE {o.b}
    [] o.k = "st" -> StatusLines(o.n)
    [] o.k \in {"hn", "hv"} -> {o.b}
    [] o.k = "map" -> IF Fit(o.hs) THEN {Block(o.hs)} ELSE {}
    [] o.k \in {"req", "reqh"} -> IF o.m = <<>> \/ o.n = 0 \/ ~Fit(o.hs) THEN {} ELSE {o.m \o SP1 \o o.p \o SP1 \o VersionOf(o.n) \o CrLf \o Block(o.hs) \o (IF o.k = "req" THEN o.b ELSE <<>>)}
    [] o.k \in {"resp", "resph"} -> IF o.n = 0 \/ ~Fit(o.hs) THEN {} ELSE {VersionOf(o.n) \o SP1 \o x \o Block(o.hs) \o (IF o.k = "resp" THEN o.b ELSE <<>>) : x \in StatusLines(o.c)}
    [] o.k = "chunk" -> {HexText(Len(o.b)) \o CrLf \o o.b \o CrLf}
    [] o.k = "fh" -> {HeadBytes(o.len, o.kind, o.fl, o.sid)}
    [] o.k \in {"inc", "erc", "sid"} -> {o.b}
    [] o.k = "u24" -> {Drop(o.b, 1)}
    [] o.k = "ping" -> {FrameOf(6, o.ack, Zero4, o.b)}
    [] o.k = "wu" -> {FrameOf(8, 0, o.sid, o.b)}
    [] o.k = "rst" -> {FrameOf(3, 0, o.sid, o.b)}
    [] o.k = "goaway" -> {FrameOf(7, 0, Zero4, o.sid \o o.b \o o.d)}
    [] o.k = "prio" -> {FrameOf(2, 0, o.sid, (IF o.x = 1 THEN <<o.b[1] + 128>> \o Tail(o.b) ELSE o.b) \o <<o.w>>)}
    \* a masking writer: whatever the pieces, the key goes on where it was
    [] o.k = "mask" -> LET d == Joined(o.ps) IN {[j \in 1..Len(d) |-> XorByte(d[j], o.b[1 + ((j - 1) % 4)])]}
    [] o.k = "ack" -> {FrameOf(4, 1, Zero4, <<>>)}

(* what is shown of it: the text of what is written, a status without the end of its line *)
TextHs(hs) == \A k \in 1..Len(hs) : IsUtf8(hs[k][1]) /\ IsUtf8(hs[k][2])
NoEol(q) == SubSeq(q, 1, Len(q) - 2)
Starts(q, p) == Len(q) >= Len(p) /\ SubSeq(q, 1, Len(p)) = p
Ends(q, p) == Len(q) >= Len(p) /\ SubSeq(q, Len(q) - Len(p) + 1, Len(q)) = p
Shown(o, d) ==
  CASE o.k \in {"mth", "ver", "sch"} -> Pieces(o) = {} \/ d \in Pieces(o)
    [] o.k = "st" -> ~Known(o.n) \/ d \in {NoEol(p) : p \in Pieces(o)}
    [] o.k \in {"hn", "hv"} -> ~IsUtf8(o.b) \/ d = o.b
    [] o.k = "map" -> Pieces(o) = {} \/ ~TextHs(o.hs) \/ d = Block(o.hs)
    \* the displayed request line may leave out the query
    [] o.k = "req" -> Pieces(o) = {} \/ ~TextHs(o.hs) \/ (Starts(d, o.m \o SP1) /\ Ends(d, SP1 \o VersionOf(o.n) \o CrLf \o Block(o.hs) \o o.b) /\ (~Has(o.p, 63) => d \in Pieces(o)))
    [] o.k = "resp" -> Pieces(o) = {} \/ ~TextHs(o.hs) \/ ~Known(o.c) \/ d \in Pieces(o)
    [] OTHER -> TRUE

RECURSIVE Times(_, _)
Times(q, n) == IF n = 0 THEN <<>> ELSE q \o Times(q, n - 1)

(* readers at the front of a buffer: what is read and how many octets that takes *)
ReadNo == [v |-> "short"]
Read(k, q) ==
  LET w == CASE k = "u64" -> 8 [] k = "u24" -> 3 [] k = "fh" -> 9 [] OTHER -> 4 IN
  IF Len(q) < w THEN ReadNo
  ELSE [v |-> "ok", used |-> w, b |-> CASE k \in {"sid", "u31"} -> Mask31(Take(q, 4)) [] k = "fh" -> Take(q, 5) \o Mask31(SubSeq(q, 6, 9)) [] OTHER -> Take(q, w)]
=============================================================================
