--------------------------------- MODULE Ws ---------------------------------
(* WebSocket (RFC 6455): frame codec, fragmentation, messages, and the      *)
(* machine that carries frames over a byte stream.                          *)
EXTENDS Bytes

NoMask == <<>>
IsControl(opc) == opc >= 8
MaskByte(m, d, k) == d[k] ^^ m[((k - 1) % 4) + 1]
Masked(m, d) == IF m = NoMask THEN d ELSE [k \in 1..Len(d) |-> MaskByte(m, d, k)]

Frame(fin, rsv, opc, data) == [fin |-> fin, rsv |-> rsv, opc |-> opc, data |-> data]
Byte0(fin, rsv, opc) == fin * 128 + rsv[1] * 64 + rsv[2] * 32 + rsv[3] * 16 + opc

(* shortest form for an 8-byte big-endian length *)
LenForm(l8) == LET n == BeSmall(l8) IN IF n <= 125 THEN 0 ELSE IF n <= 65535 THEN 2 ELSE 8
EncHead(fin, rsv, opc, mask, l8) ==
  LET f == LenForm(l8)
      m == IF mask = NoMask THEN 0 ELSE 128
  IN <<Byte0(fin, rsv, opc)>>
     \o (CASE f = 0 -> <<m + l8[8]>> [] f = 2 -> <<m + 126, l8[7], l8[8]>> [] OTHER -> <<m + 127>> \o l8)
     \o mask
HeadLegal(opc, l8) == opc <= 15 /\ ~(IsControl(opc) /\ BeSmall(l8) >= 126)
EncFrame(f, mask) == EncHead(f.fin, f.rsv, f.opc, mask, Be8(Len(f.data))) \o Masked(mask, f.data)
FrameSize(n, mask) == 2 + LenForm(Be8(n)) + (IF mask = NoMask THEN 0 ELSE 4) + n

(* what a reader may conclude from the bytes b: v is "ok", "eof" (more input *)
(* needed) or "bad"; both flags hold while a bad frame is still incomplete.  *)
Head_(b) ==
  IF Len(b) < 2 THEN [v |-> "eof", bad |-> FALSE]
  ELSE
  LET l7 == b[2] % 128
      ext == IF l7 = 126 THEN 2 ELSE IF l7 = 127 THEN 8 ELSE 0
      mk == IF b[2] >= 128 THEN 4 ELSE 0
      opc == b[1] % 16
      ctlbad == IsControl(opc) /\ (l7 >= 126 \/ b[1] < 128)
  IN IF Len(b) < 2 + ext THEN [v |-> "eof", bad |-> ctlbad]
     ELSE
     LET l8 == CASE ext = 0 -> Be8(l7) [] ext = 2 -> <<0, 0, 0, 0, 0, 0>> \o SubSeq(b, 3, 4) [] OTHER -> SubSeq(b, 3, 10)
         n == BeSmall(l8)
         bad == ctlbad \/ (ext = 2 /\ n <= 125) \/ (ext = 8 /\ n <= 65535)
     IN IF Len(b) < 2 + ext + mk THEN [v |-> "eof", bad |-> bad]
        ELSE IF bad THEN [v |-> "bad", bad |-> TRUE]
        ELSE [v |-> "ok", bad |-> FALSE, fin |-> b[1] \div 128,
              rsv |-> <<(b[1] \div 64) % 2, (b[1] \div 32) % 2, (b[1] \div 16) % 2>>,
              opc |-> opc, mask |-> SubSeq(b, 3 + ext, 2 + ext + mk), len |-> l8, used |-> 2 + ext + mk]
(* lim < 0: no limit *)
Parse(b, lim) ==
  LET h == Head_(b) IN
  IF h.v # "ok" THEN h
  ELSE LET n == BeSmall(h.len) IN
       IF lim >= 0 /\ n > lim THEN [v |-> "bad", bad |-> TRUE]
       ELSE IF Len(b) - h.used < n THEN [v |-> "eof", bad |-> FALSE]
       ELSE [v |-> "ok", bad |-> FALSE, used |-> h.used + n,
             f |-> Frame(h.fin, h.rsv, h.opc, Masked(h.mask, SubSeq(b, h.used + 1, h.used + n)))]

(* ---- messages ---- *)
Kinds == {"text", "binary", "ping", "pong", "close"}
KindOpc == [text |-> 1, binary |-> 2, close |-> 8, ping |-> 9, pong |-> 10]
Msg(kind, data, hascode, code) == [kind |-> kind, data |-> data, hascode |-> hascode, code |-> code]
MsgPayload(m) == IF m.kind = "close" THEN (IF m.hascode = 1 THEN Be2(m.code) \o m.data ELSE <<>>) ELSE m.data
MsgFrame(m) == Frame(1, <<0, 0, 0>>, KindOpc[m.kind], MsgPayload(m))

Concat(fs) == FoldLeft(LAMBDA a, f : a \o f.data, <<>>, fs)
AsmBad == [ok |-> FALSE]
Assemble(fs) ==
  IF fs = <<>> THEN AsmBad
  ELSE LET o == fs[1].opc
           d == Concat(fs)
       IN IF \/ \E k \in 2..Len(fs) : fs[k].opc # 0
             \/ \E k \in 1..Len(fs) : fs[k].rsv # <<0, 0, 0>>
          THEN AsmBad
          ELSE CASE o = 1 -> IF IsUtf8(d) THEN [ok |-> TRUE, m |-> Msg("text", d, 0, 0)] ELSE AsmBad
                 [] o = 2 -> [ok |-> TRUE, m |-> Msg("binary", d, 0, 0)]
                 [] o = 9 -> [ok |-> TRUE, m |-> Msg("ping", d, 0, 0)]
                 [] o = 10 -> [ok |-> TRUE, m |-> Msg("pong", d, 0, 0)]
                 [] o = 8 -> IF d = <<>> THEN [ok |-> TRUE, m |-> Msg("close", <<>>, 0, 0)]
                             ELSE IF Len(d) = 1 \/ ~IsUtf8(Drop(d, 2)) THEN AsmBad
                             ELSE [ok |-> TRUE, m |-> Msg("close", Drop(d, 2), 1, d[1] * 256 + d[2])]
                 [] OTHER -> AsmBad

CloseName(c) ==
  CASE c = 1000 -> "Normal" [] c = 1001 -> "Away" [] c = 1002 -> "Protocol" [] c = 1003 -> "Unsupported"
    [] c = 1005 -> "Status" [] c = 1006 -> "Abnormal" [] c = 1007 -> "Invalid" [] c = 1008 -> "Policy"
    [] c = 1009 -> "Size" [] c = 1010 -> "Extension" [] c = 1011 -> "Error" [] c = 1012 -> "Restart"
    [] c = 1013 -> "Again" [] c = 1015 -> "Tls" [] c = 0 -> "Empty" [] OTHER -> "Other"

(* ---- the connection machine ---- *)
(* wire: bytes written and not yet arrived; rx: bytes arrived and not yet read; fr: frames read *)
WsInit == [wire |-> <<>>, rx |-> <<>>, fr |-> <<>>]
WsTx(st, f, mask) == [st EXCEPT !.wire = @ \o EncFrame(f, mask)]
WsMv(st, n) == LET k == Min2(n, Len(st.wire)) IN [st EXCEPT !.wire = Drop(@, k), !.rx = @ \o Take(st.wire, k)]
WsRxd(st, p) == [st EXCEPT !.rx = Drop(@, p.used), !.fr = Append(@, p.f)]
=============================================================================
