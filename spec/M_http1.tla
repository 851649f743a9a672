------------------------------- MODULE M_http1 -------------------------------
(* Design models for HTTP/1.  "words": heads spelled fragment by fragment,  *)
(* with the automaton compared with a declarative grammar; "stream": a      *)
(* sender, an arbitrarily segmenting network and the receiver.              *)
EXTENDS Http1, Json

CONSTANTS Mode, Depth, MaxMsgs
VARIABLES kind, seed, hist, h, bytes, sent, wire, rcv, got

vars == <<kind, seed, hist, h, bytes, sent, wire, rcv, got>>
Crlf == <<CR, LF>>
ReqFrags == {<<71,69,84>>, <<79,80,84,73,79,78,83>>, <<32>>, <<47>>, <<42>>, V1(49), Crlf, <<10>>, <<13>>, <<97>>, <<58>>, <<9>>, <<0>>}
RespFrags == {V1(48), V23(50), <<32>>, <<50,48,48>>, <<57,57>>, <<79,75>>, Crlf, <<10>>, <<97>>, <<58>>, <<9>>, <<200>>, <<0>>}
Frags == IF kind = "req" THEN ReqFrags ELSE RespFrags
GetT == <<71,69,84>>
ReqSeeds == {<<>>, <<GetT, <<32>>>>, <<GetT, <<32>>, <<47>>, <<32>>, V1(49)>>, <<GetT, <<32>>, <<47>>, <<32>>, V1(49), Crlf, <<97>>>>,
             <<GetT, <<32>>, <<47>>, <<32>>, V1(49), Crlf, <<97>>, <<58>>, <<97>>, Crlf>>}
RespSeeds == {<<>>, <<V1(49), <<32>>>>, <<V1(49), <<32>>, <<50,48,48>>>>, <<V1(49), <<32>>, <<50,48,48>>, <<32>>, Crlf, <<97>>, <<58>>>>}
Flat(fs) == FoldLeft(LAMBDA a, f : a \o f, <<>>, fs)

(* ---- declarative grammar of a well-formed head (no tolerated irregularity) ---- *)
RECURSIVE SplitCrlf(_)
FirstCrlf(q) == LET S == {k \in 1..(Len(q) - 1) : q[k] = CR /\ q[k + 1] = LF} IN IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : k <= j
SplitCrlf(q) == LET k == FirstCrlf(q) IN IF k = 0 THEN <<q>> ELSE <<Take(q, k - 1)>> \o SplitCrlf(Drop(q, k + 1))
RECURSIVE SplitSp(_)
SplitSp(q) == LET k == IndexOfB(q, SP) IN IF k = 0 THEN <<q>> ELSE <<Take(q, k - 1)>> \o SplitSp(Drop(q, k))
LineField(l) == LET k == IndexOfB(l, Colon) IN <<Take(l, k - 1), Trim(Drop(l, k))>>
FieldLineOk(l) == LET k == IndexOfB(l, Colon) IN
                  k > 1 /\ (\A j \in 1..(k - 1) : IsTChar(l[j])) /\ (\A j \in (k + 1)..Len(l) : ValueClean(l[j]))
LinesOf(q) == SplitCrlf(q)
WellFormed(kd, q) ==   \* q is exactly one head
  LET ls == LinesOf(q) n == Len(ls) IN
  /\ n >= 3 /\ ls[n] = <<>> /\ ls[n - 1] = <<>> /\ (\A k \in 1..(n - 2) : ls[k] # <<>>)
  /\ \A k \in 2..(n - 2) : FieldLineOk(ls[k])
  /\ LET p == SplitSp(ls[1]) hs == FoldLeft(LAMBDA a, l : SetField(a, LineField(l)[1], LineField(l)[2]), <<>>, SubSeq(ls, 2, n - 2)) IN
     IF kd = "req" THEN Len(p) = 3 /\ p[1] \in Methods /\ p[3] \in Versions \ LaxVersions /\ RequestUrl(p[1], p[2], hs).v = "ok"
                        /\ p[2] # <<>> /\ (\A k \in 1..Len(p[2]) : IsVChar(p[2][k]))
     ELSE Len(p) >= 3 /\ p[1] \in Versions \ LaxVersions /\ StatusOk(p[2]) /\ (\A k \in 1..Len(ls[1]) : ReasonChar(ls[1][k]))

(* ---- messages of the stream model ---- *)
ReqHead(fields) == <<71,69,84,32,47,32>> \o V1(49) \o Crlf \o fields \o Crlf
ClField(n) == ClN \o <<Colon, SP>> \o DecText(n) \o Crlf
TeField == TeN \o <<Colon, SP>> \o ChunkedT \o Crlf
Messages == { [b |-> <<>>, w |-> ReqHead(<<>>)],
              [b |-> <<>>, w |-> ReqHead(ClField(0))],
              [b |-> <<71, 13, 10>>, w |-> ReqHead(ClField(3)) \o <<71, 13, 10>>],
              [b |-> <<48, 13>>, w |-> ReqHead(TeField) \o EncChunk(<<48>>) \o EncChunk(<<13>>) \o EncChunk(<<>>)],
              [b |-> <<>>, w |-> ReqHead(TeField) \o EncChunk(<<>>)] }
Cuts == {1, 3, 17, 40}

Init == /\ kind \in (IF Mode = "words" THEN {"req", "resp"} ELSE {"req"})
        /\ hist \in (IF Mode # "words" THEN {<<>>} ELSE IF kind = "req" THEN ReqSeeds ELSE RespSeeds)
        /\ seed = Len(hist) /\ h = HeadRun(Head0(kind), Flat(hist)) /\ bytes = Flat(hist) /\ sent = <<>> /\ wire = <<>> /\ rcv = Recv0("req") /\ got = <<>>

AsFeed(fs) == <<[op |-> "obj", kind |-> kind]>> \o [k \in 1..Len(fs) |-> [op |-> "feed", b |-> fs[k]]]
AsRecv(fs) == <<[op |-> "obj", kind |-> "req"]>> \o [k \in 1..Len(fs) |-> [op |-> "recv", b |-> fs[k]]]

Word == /\ Mode = "words" /\ Len(hist) - seed < Depth /\ h.v = "run" /\ ~h.lax
        /\ \E f \in Frags :
             /\ hist' = Append(hist, f) /\ h' = HeadRun(h, f) /\ bytes' = bytes \o f
             /\ (h'.v # "run" \/ h'.lax \/ Len(hist') - seed = Depth) => PrintT("SCRIPT " \o ToJson(AsFeed(hist' \o <<<<71>>>>)))
        /\ UNCHANGED <<kind, seed, sent, wire, rcv, got>>

SendMsg == /\ Mode = "stream" /\ Len(sent) < MaxMsgs
           /\ \E m \in Messages : sent' = Append(sent, m) /\ wire' = wire \o m.w
           /\ UNCHANGED <<kind, seed, hist, h, bytes, rcv, got>>
Arrive == /\ Mode = "stream" /\ wire # <<>>
          /\ \E n \in Cuts \cup {Len(wire)} :
               /\ n <= Len(wire)
               /\ LET x == RecvRun([rcv EXCEPT !.out = <<>>], Take(wire, n)) IN
                  rcv' = x /\ got' = got \o x.out
               /\ wire' = Drop(wire, n)
               /\ hist' = Append(hist, Take(wire, n))
               /\ (wire' = <<>> /\ Len(sent) = MaxMsgs) => PrintT("SCRIPT " \o ToJson(AsRecv(hist')))
          /\ UNCHANGED <<kind, seed, h, bytes, sent>>
Next == Word \/ SendMsg \/ Arrive
Spec == Init /\ [][Next]_vars
View == <<kind, IF Mode = "words" THEN seed ELSE 0, h, bytes, sent, wire, rcv, got, IF Mode = "words" THEN hist ELSE <<>>>>

(* the automaton accepts exactly the declared grammar *)
Agrees == Mode = "words" => (WellFormed(kind, bytes) <=> (h.v = "done" /\ ~h.lax /\ h.used = Len(bytes)))
Consumed == h.used <= Len(bytes) /\ (h.v = "run" => h.used = Len(bytes))
(* never early, nothing lost, no desynchronisation *)
InOrder == Mode = "stream" =>
  /\ rcv.mode # "stop" /\ ~rcv.lax
  /\ Len(got) <= Len(sent) /\ \A k \in 1..Len(got) : got[k].body = sent[k].b
  /\ (wire = <<>>) => Len(got) = Len(sent)
=============================================================================
