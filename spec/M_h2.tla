-------------------------------- MODULE M_h2 --------------------------------
(* Design model: one direction of a connection.  The sender writes frames    *)
(* of every kind, padded or not, header blocks cut into continuations, with  *)
(* an HPACK context of its own; the octets arrive in arbitrary pieces; the   *)
(* receiver takes off whatever is whole.  A hostile peer may also write a    *)
(* frame that must be refused.                                               *)
EXTENDS Http2, Json

CONSTANTS MaxFrames, MaxMoves, Moves
VARIABLES e, wire, rx, d, sent, got, hist, moves, state, attack

A == <<97>>  GETS == <<71, 69, 84>>
L1 == <<<<PMethod, GETS>>, <<PPath, <<Slash>>>>, <<A, <<120>>>>>>
L2 == <<<<A, <<120>>>>>>
(* one encoding: a known full entry by index, otherwise a literal that is added *)
EncStep(a, f) ==
  LET S == {k \in 1..(NS + Len(a.e.tab)) : Lookup(a.e, k) = f} IN
  IF S # {} THEN [a EXCEPT !.b = @ \o IntEnc(SetMin(S), 7, 128)]
  ELSE [e |-> AddEnt(a.e, f[1], f[2]), b |-> a.b \o <<64>> \o StrEnc(f[1], FALSE) \o StrEnc(f[2], TRUE)]
EncBlock(x, hs) == FoldLeft(EncStep, [e |-> x, b |-> <<>>], hs)
PadOf(n, p) == IF n < 0 THEN p ELSE <<n>> \o p \o [k \in 1..n |-> 0]
PadFl(n) == IF n < 0 THEN 0 ELSE Padded
RECURSIVE Conts(_, _, _)
Conts(b, sid, m) == IF Len(b) <= m THEN FrameBytes(CONT, EndHeaders, sid, b) ELSE FrameBytes(CONT, 0, sid, Take(b, m)) \o Conts(Drop(b, m), sid, m)
(* a header frame whose first fragment has m octets of the block (all of it if m < 0) *)
HeaderBytes(kind, fl, sid, pre, b, pad, m) ==
  IF m < 0 THEN FrameBytes(kind, fl + EndHeaders + PadFl(pad), sid, PadOf(pad, pre \o b))
  ELSE FrameBytes(kind, fl + PadFl(pad), sid, PadOf(pad, pre \o Take(b, m))) \o Conts(Drop(b, m), sid, 3)
(* what may be written: octets, the value they stand for, the encoder's context afterwards *)
Plain == {<<FrameBytes(DATA, 1 + PadFl(n), 1, PadOf(n, <<7, 8>>)), [X0 EXCEPT !.k = "data", !.sid = 1, !.fl = 1 + PadFl(n), !.p = <<7, 8>>]>> : n \in {-1, 0, 2}}
         \cup {<<FrameBytes(SETTINGS, 0, 0, <<0, 2, 0, 0, 0, 0>>), [X0 EXCEPT !.k = "settings", !.sett[2] = Some(<<0, 0, 0, 0>>)]>>,
               <<FrameBytes(GOAWAY, 0, 0, <<0, 0, 0, 9, 0, 0, 0, 2, 5>>), [X0 EXCEPT !.k = "goaway", !.id = 9, !.code = <<0, 0, 0, 2>>, !.p = <<5>>]>>,
               <<FrameBytes(PRIORITY, 0, 5, <<128, 0, 0, 3, 200>>), [X0 EXCEPT !.k = "priority", !.sid = 5, !.dep = [ex |-> 1, id |-> 3, w |-> 200]]>>}
Fragged == {<<-1, -1>>, <<-1, 0>>, <<2, 1>>, <<0, -1>>}
Refused == {FrameBytes(DATA, Padded, 1, <<3, 1, 1>>), FrameBytes(HEADERS, EndHeaders, 0, <<130>>), FrameBytes(SETTINGS, 0, 0, <<0, 2, 0, 0, 0, 2>>),
            FrameBytes(WINDOW, 0, 3, <<128, 0, 0, 0>>), FrameBytes(HEADERS, EndHeaders, 1, <<190, 255, 255>>), FrameBytes(CONT, EndHeaders, 1, <<130>>), FrameBytes(RST, 0, 1, <<0, 0, 0>>)}

Init == e = Table0 /\ wire = <<>> /\ rx = <<>> /\ d = Table0 /\ sent = <<>> /\ got = <<>> /\ hist = <<>> /\ moves = 0 /\ state = "open" /\ attack = FALSE
Write(b, x, e2) == /\ Len(sent) < MaxFrames
                   /\ wire' = wire \o b /\ sent' = Append(sent, x) /\ e' = e2
                   /\ UNCHANGED <<rx, d, got, hist, moves, state, attack>>
SendPlain == \E y \in Plain : ~attack /\ Write(y[1], y[2], e)
SendHeaders == \E hs \in {L1, L2}, g \in Fragged : \E fl \in {0, 1} :
     /\ ~attack
     /\ LET b == EncBlock(e, hs) IN
        Write(HeaderBytes(HEADERS, fl, 3, <<>>, b.b, g[1], g[2]), [X0 EXCEPT !.k = "headers", !.sid = 3, !.fl = fl + (IF g[2] < 0 THEN EndHeaders ELSE 0) + PadFl(g[1]), !.parts = PartsOf(hs)], b.e)
SendPush == \E g \in Fragged :
     /\ ~attack
     /\ LET b == EncBlock(e, L1) IN
        Write(HeaderBytes(PUSH, 0, 3, <<0, 0, 0, 4>>, b.b, g[1], g[2]), [X0 EXCEPT !.k = "push", !.sid = 3, !.id = 4, !.fl = (IF g[2] < 0 THEN EndHeaders ELSE 0) + PadFl(g[1]), !.parts = PartsOf(L1)], b.e)
SendRefused == \E b \in Refused : Len(sent) < MaxFrames /\ ~attack /\ wire' = wire \o b /\ attack' = TRUE /\ UNCHANGED <<e, rx, d, sent, got, hist, moves, state>>
Move(n) == /\ wire # <<>> /\ moves < MaxMoves
           /\ rx' = rx \o Take(wire, n) /\ wire' = Drop(wire, n) /\ moves' = moves + 1
           /\ UNCHANGED <<e, d, sent, got, hist, state, attack>>
Recv == /\ rx # <<>> /\ state = "open"
        /\ LET p == Read(rx, d, Huge) IN
           /\ got' = got \o p.fs /\ d' = p.d /\ rx' = Drop(rx, p.used)
           /\ state' = IF p.end \in {"err", "proto"} THEN "closed" ELSE state
           /\ hist' = Append(hist, [op |-> "read", b |-> rx, max |-> Huge])
           /\ rx' # rx \/ state' # state \/ hist = <<>>
           /\ PrintT("SCRIPT " \o ToJson(hist'))
        /\ UNCHANGED <<e, wire, sent, moves, attack>>
Next == SendPlain \/ SendHeaders \/ SendPush \/ SendRefused \/ (\E n \in Moves : Move(n)) \/ Recv
vars == <<e, wire, rx, d, sent, got, hist, moves, state, attack>>
View == <<e, wire, rx, d, sent, got, moves, state, attack>>
Spec == Init /\ [][Next]_vars

(* frames are delivered in order, each once, and mean what was sent; a refused one never arrives *)
InOrder == IsPrefix(got, sent)
(* a connection is closed only because of a frame that must be refused *)
ClosedOk == state = "closed" => attack /\ got = sent
NoFalseAlarm == ~attack => Read(rx, d, Huge).end \in {"done", "short"}
Complete == (wire = <<>> /\ ~attack /\ Read(rx, d, Huge).end # "short") => got \o Read(rx, d, Huge).fs = sent
AllRead == (wire = <<>> /\ rx = <<>> /\ ~attack) => (got = sent /\ d.tab = e.tab)
AttackSeen == (wire = <<>> /\ attack /\ state = "open") => Read(rx, d, Huge).end \in {"err", "proto"}
(* laws of the codings *)
B64Law == \A a \in {0, 1, 77, 255}, b \in {0, 128, 254} : \A n \in 0..4 :
            LET q == Take(<<a, b, 255 - a, b>>, n) t == B64Encode(q) IN B64Decode(t) = [v |-> "ok", b |-> q] /\ Len(t) = (n * 8 + 5) \div 6
SettLaw == \A v \in {[Sett0 EXCEPT ![2] = Some(<<0, 0, 0, x>>), ![4] = y, ![8] = z] : x \in {0, 1}, y \in {None, Some(<<127, 255, 255, 255>>)}, z \in {None, Some(<<0, 0, 0, 1>>)}} :
            SettParse(SettBytes(v)) = [ok |-> TRUE, v |-> v]
PadLaw == \A n \in 0..4 : \A k \in 0..3 : LET p == [j \in 1..k |-> j] q == PadOf(n, p) IN
            /\ Unpad(DATA, Padded, Len(q), q).p = p
            /\ \A m \in 0..(Len(q) - 1) : LET u == Unpad(DATA, Padded, m, Take(q, m)) IN u.ok => Len(u.p) < Len(p)
ASSUME B64Law /\ SettLaw /\ PadLaw
=============================================================================
