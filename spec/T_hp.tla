-------------------------------- MODULE T_hp --------------------------------
EXTENDS Hpack, TraceBase

(* d: the decoding context; e: the table the encoder should hold; t: a bare table *)
HpInitSt(sess) == [d |-> Table0, e |-> Table0, t |-> Table0]

Expect(c, st2, x) == IF c THEN [ok |-> TRUE, st |-> st2, exp |-> ""] ELSE [ok |-> FALSE, st |-> st2, exp |-> x]
TabOk(x, d) == x.size = TabSize(d.tab) /\ x.max = d.max /\ x.len = Len(d.tab) /\ EqFields(x.ents, d.tab) /\ x.size <= x.max

Decoded(d, r, p) ==  \* answer r of the decoder agrees with p
  IF p.any THEN [ok |-> TRUE, d |-> Dead(d)]
  ELSE IF r.t = "ok" THEN [ok |-> p.v = "ok" /\ r.hs = p.hs /\ r.left = 0 /\ TabOk(r.tab, p.d), d |-> p.d]
  ELSE [ok |-> p.v = "err" \/ p.lax, d |-> Dead(d)]

HpStep(m, e) ==
  LET r == e.r IN
  CASE e.op = "dec" ->
       IF m.d.dead THEN Expect(TRUE, m, "any")
       ELSE LET p == DecBlock(m.d, e.b) x == Decoded(m.d, r, p) IN Expect(x.ok, [m EXCEPT !.d = x.d], p)
  [] e.op = "resize" -> Expect(r.t = "ok",
         [m EXCEPT !.d = IF e.who = "dec" \/ e.who = "both" THEN Resize(@, e.n) ELSE @,
                   !.e = IF e.who = "enc" \/ e.who = "both" THEN Resize(@, e.n) ELSE @], "ok")
  [] e.op = "enc" ->
       \* the bytes, decoded by the specification from the encoder's own history, are the list that was given
       LET p == DecBlock(m.e, r.b) IN
       Expect(r.t = "ok" /\ p.v = "ok" /\ p.hs = LowerFields(e.hs) /\ TabOk(r.tab, p.d), [m EXCEPT !.e = p.d], p)
  [] e.op = "encdec" ->
       IF m.d.dead THEN Expect(TRUE, m, "any")
       ELSE IF r.t # "ok" THEN Expect(FALSE, m, "ok")
       ELSE LET p == DecBlock(m.e, r.b)
                q == DecBlock(m.d, r.b)
            IN Expect(/\ p.v = "ok" /\ p.hs = LowerFields(e.hs) /\ TabOk(r.etab, p.d)
                      /\ r.d.t = "ok" /\ r.d.hs = LowerFields(e.hs) /\ q.v = "ok" /\ TabOk(r.d.tab, q.d),
                      [m EXCEPT !.e = p.d, !.d = q.d], <<p, q>>)
  [] e.op = "tadd" -> LET d == AddEnt(m.t, e.n, e.v) IN Expect(r.t = "ok" /\ TabOk(r.tab, d), [m EXCEPT !.t = d], d)
  [] e.op = "tresize" -> LET d == Resize(m.t, e.n) IN Expect(r.t = "ok" /\ TabOk(r.tab, d), [m EXCEPT !.t = d], d)
  [] e.op = "tget" -> LET x == Lookup(m.t, e.i) IN Expect(r.t = "ok" /\ (IF x = <<>> THEN r.e = <<>> ELSE r.e # <<>> /\ EqField(r.e, x)), m, x)
  [] e.op = "tfind" -> Expect(r.t = "ok" /\ FindOk(m.t, e.n, e.v, r.a), m, "a sound search result")
  [] e.op = "henc" -> LET x == HuffEncode(e.b) IN Expect(r.t = "ok" /\ r.b = x, m, x)
  [] e.op = "hlow" -> LET x == HuffEncode(Lower(e.b)) IN Expect(r.t = "ok" /\ r.b = x, m, x)
  [] e.op = "hdec" -> LET x == HuffDecode(e.b) IN Expect(IF x.ok THEN r.t = "ok" /\ r.b = x.s ELSE r.t = "err", m, x)
  [] e.op = "int" -> LET x == IntEnc(e.v, e.n, e.lead) IN Expect(r.t = "ok" /\ r.b = x, m, x)
=============================================================================
