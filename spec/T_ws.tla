-------------------------------- MODULE T_ws --------------------------------
EXTENDS Ws, TraceBase

WsInitSt(sess) == WsInit

Yes(st2) == [ok |-> TRUE, st |-> st2, exp |-> <<>>]
Expect(c, st2, x) == IF c THEN [ok |-> TRUE, st |-> st2, exp |-> ""] ELSE [ok |-> FALSE, st |-> st2, exp |-> x]

(* the answer r agrees with the verdict p *)
VerdictOk(r, p) == CASE p.v = "ok" -> r.t = "ok"
                     [] p.v = "bad" -> r.t = "err"
                     [] OTHER -> r.t = "eof" \/ (p.bad /\ r.t = "err")
FrameOk(r, f) == r.fin = f.fin /\ r.rsv = f.rsv /\ r.opc = f.opc /\ r.data = f.data
MsgOk(r, a) == IF a.ok THEN r.t = "ok" /\ r.kind = a.m.kind /\ r.data = a.m.data /\ r.hascode = a.m.hascode /\ r.code = a.m.code
               ELSE r.t = "err" \/ r.t = "eof"
EvFrame(e) == Frame(e.fin, e.rsv, e.opc, e.data)
EvMsg(e) == Msg(e.kind, e.data, e.hascode, e.code)

WsStep(m, e) ==
  LET r == e.r IN
  CASE e.op = "rd" ->
       LET p == Parse(e.b, e.lim) IN
       Expect(VerdictOk(r, p) /\ (p.v = "ok" => FrameOk(r, p.f) /\ r.used = p.used /\ r.alt = 1), m, p)
  [] e.op = "hd" ->
       LET p == Head_(e.b) IN
       Expect(VerdictOk(r, p) /\ (p.v = "ok" => r.fin = p.fin /\ r.rsv = p.rsv /\ r.opc = p.opc /\ r.mask = p.mask
                                               /\ r.len = p.len /\ r.used = p.used), m, p)
  [] e.op = "wh" ->
       IF HeadLegal(e.opc, e.len)
       THEN LET x == EncHead(e.fin, e.rsv, e.opc, e.mask, e.len) IN Expect(r.t = "ok" /\ r.b = x, m, x)
       ELSE Expect(r.t = "err", m, "err")
  [] e.op = "wr" ->
       IF HeadLegal(e.opc, Be8(Len(e.data)))
       THEN LET x == EncFrame(EvFrame(e), e.mask) IN
            Expect(r.t = "ok" /\ r.b = x /\ r.size = Len(x), m, <<Len(x), x>>)
       ELSE Expect(r.t = "err", m, "err")
  [] e.op = "asm" ->
       LET a == Assemble(e.frames) IN Expect(MsgOk(r, a), m, a)
  [] e.op = "msg" ->
       LET f == MsgFrame(EvMsg(e)) IN
       IF HeadLegal(f.opc, Be8(Len(f.data)))
       THEN LET x == EncFrame(f, e.mask) IN
            Expect(r.t = "ok" /\ r.b = x /\ r.size = Len(x) /\ r.msize = Len(x) /\ r.pay = f.data /\ r.opc = f.opc, m, x)
       ELSE Expect(r.t = "err", m, "err")
  [] e.op = "kind" ->
       LET ctl == e.kind \in {"close", "ping", "pong"} B(x) == IF x THEN 1 ELSE 0 IN
       Expect(/\ r.t = "ok" /\ r.close = B(e.kind = "close") /\ r.control = B(ctl) /\ r.data = B(~ctl)
              /\ r.ping = B(e.kind = "ping") /\ r.pong = B(e.kind = "pong") /\ r.into_pong = B(e.kind = "ping")
              /\ r.opc_after = IF e.kind = "ping" THEN 10 ELSE KindOpc[e.kind], m, e.kind)
  [] e.op = "code" ->
       Expect(r.t = "ok" /\ r.back = e.code /\ r.name = CloseName(e.code) /\ r.b = Be2(e.code) \o e.data
              /\ r.same = 1 /\ r.normal = 1000, m, CloseName(e.code))
  [] e.op = "tx" ->
       IF HeadLegal(e.opc, Be8(Len(e.data)))
       THEN LET m2 == WsTx(m, EvFrame(e), e.mask) IN Expect(r.t = "ok" /\ r.n = Len(m2.wire) - Len(m.wire), m2, "tx")
       ELSE Expect(r.t = "err", m, "err")
  [] e.op = "txm" ->
       LET f == MsgFrame(EvMsg(e)) IN
       IF HeadLegal(f.opc, Be8(Len(f.data)))
       THEN LET m2 == WsTx(m, f, e.mask) IN Expect(r.t = "ok" /\ r.n = Len(m2.wire) - Len(m.wire), m2, "txm")
       ELSE Expect(r.t = "err", m, "err")
  [] e.op = "raw" -> Expect(r.t = "ok", [m EXCEPT !.wire = @ \o e.b], "ok")
  [] e.op = "mv" -> Expect(r.t = "ok", WsMv(m, e.n), "ok")
  [] e.op = "rx" ->
       LET p == Parse(m.rx, -1) IN
       IF p.v = "ok" THEN Expect(r.t = "ok" /\ FrameOk(r, p.f) /\ r.used = p.used, WsRxd(m, p), p)
       ELSE Expect(VerdictOk(r, p), m, p)
  [] e.op = "take" ->
       LET a == Assemble(m.fr) IN Expect(MsgOk(r, a), [m EXCEPT !.fr = <<>>], a)
=============================================================================
