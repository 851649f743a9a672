-------------------------------- MODULE M_ws --------------------------------
(* Design model: frames are written to a byte stream, the stream arrives in *)
(* arbitrary pieces, a reader takes frames off it and a message is          *)
(* assembled.  Every transition is printed as a script for the real code.   *)
EXTENDS Ws, Json

CONSTANTS MaxFrames, MaxMoves
VARIABLES m, sent, hist, moves

F == {Frame(1, <<0, 0, 0>>, 1, <<>>), Frame(0, <<0, 0, 0>>, 1, <<226, 130>>), Frame(1, <<0, 0, 0>>, 0, <<172>>),
      Frame(1, <<0, 1, 0>>, 2, <<0, 255, 7>>), Frame(1, <<0, 0, 0>>, 8, <<3>>), Frame(1, <<0, 0, 0>>, 9, <<1>>)}
Masks == {NoMask, <<1, 2, 3, 255>>}

Init == m = WsInit /\ sent = <<>> /\ hist = <<>> /\ moves = 0

Emit(op) == PrintT("SCRIPT " \o ToJson(hist \o op))
TxOp(f, k) == [op |-> "tx", fin |-> f.fin, rsv |-> f.rsv, opc |-> f.opc, data |-> f.data, mask |-> k]

Send(f, k) == /\ Len(sent) < MaxFrames
              /\ m' = WsTx(m, f, k)
              /\ sent' = Append(sent, f)
              /\ hist' = Append(hist, TxOp(f, k))
              /\ moves' = moves
Move(n) == /\ m.wire # <<>> /\ moves < MaxMoves
           /\ m' = WsMv(m, n)
           /\ moves' = moves + 1
           /\ hist' = Append(hist, [op |-> "mv", n |-> n])
           /\ UNCHANGED sent
Recv == LET p == Parse(m.rx, -1) IN
        /\ m.rx # <<>>
        /\ m' = IF p.v = "ok" THEN WsRxd(m, p) ELSE m
        /\ hist' = Append(hist, [op |-> "rx"])
        /\ UNCHANGED <<sent, moves>>
        /\ Emit(<<[op |-> "rx"]>> \o (IF m'.wire = <<>> /\ m'.rx = <<>> THEN <<[op |-> "take"]>> ELSE <<>>))

Next == \/ \E f \in F, k \in Masks : Send(f, k)
        \/ \E n \in {1, 2, 3, 7, 100} : Move(n)
        \/ Recv
vars == <<m, sent, hist, moves>>
View == <<m, sent>>
Spec == Init /\ [][Next]_vars

(* what has been read is a prefix of what was sent *)
InOrder == IsPrefix(m.fr, sent)
(* nothing valid is ever taken for malformed, and nothing is lost or duplicated *)
NeverBad == Parse(m.rx, -1).v # "bad"
Complete == (m.wire = <<>> /\ Parse(m.rx, -1).v # "ok") => (m.rx = <<>> /\ m.fr = sent)
(* laws of the codec itself *)
RoundTrip == \A f \in F, k \in Masks :
               LET x == EncFrame(f, k) IN
               /\ Parse(x \o <<1, 2>>, -1).v = "ok" /\ Parse(x \o <<1, 2>>, -1).f = f /\ Parse(x, -1).used = Len(x)
               /\ Len(x) = FrameSize(Len(f.data), k)
               /\ \A n \in 0..(Len(x) - 1) : Parse(Take(x, n), -1).v = "eof"
(* splitting a payload into fragments never changes the message *)
FragLaw == \A d \in {<<>>, <<65>>, <<226, 130, 172>>, <<200>>} : \A a \in 0..Len(d) :
             Assemble(<<Frame(0, <<0, 0, 0>>, 1, Take(d, a)), Frame(1, <<0, 0, 0>>, 0, Drop(d, a))>>)
               = Assemble(<<Frame(1, <<0, 0, 0>>, 1, d)>>)
ASSUME RoundTrip /\ FragLaw
=============================================================================
