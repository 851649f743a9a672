-------------------------------- MODULE T_que -------------------------------
EXTENDS Que, TraceBase

QueInitSt(sess) == [fl |-> 0, id |-> 1, q |-> <<>>]
Expect(c, st2, x) == IF c THEN [ok |-> TRUE, st |-> st2, exp |-> ""] ELSE [ok |-> FALSE, st |-> st2, exp |-> x]

FlagShown(r, n) == r.t = "ok" /\ r.bits = n /\ r.ask = FlagAsk(n)
(* what leaves: one of the heaviest, as it was put in *)
Fits(q, v) == {k \in Heaviest(q) : q[k].w = v.w /\ Describes(v.d, q[k].f)}
(* a data frame changed in place, step by step *)
Edit(f, x) ==
  CASE x.k = "es" -> [f EXCEPT !.fl = SetBit(1, f.fl, x.n = 1)]
    [] x.k = "pd" -> [f EXCEPT !.fl = SetBit(8, f.fl, TRUE)]
    [] x.k = "add" -> [f EXCEPT !.p = @ \o x.b]
    [] x.k = "flip" -> [f EXCEPT !.p = [j \in 1..Len(f.p) |-> f.p[Len(f.p) + 1 - j]]]
    [] x.k = "eh" -> [f EXCEPT !.fl = SetBit(4, f.fl, TRUE)]
    [] x.k = "set" -> [f EXCEPT !.p = x.b]
    [] OTHER -> f
RECURSIVE Edits(_, _)
Edits(f, xs) == IF xs = <<>> THEN f ELSE Edits(Edit(f, xs[1]), Tail(xs))
QueStep(z, e) ==
  LET r == e.r good == r.t = "ok" IN
  CASE e.op = "flag" -> LET k == FlagKnown(e.n) IN
                        \* flags nobody defined: refused or left out
                        IF k = e.n THEN Expect(FlagShown(r, k), [z EXCEPT !.fl = k], k) ELSE IF good THEN Expect(FlagShown(r, k), [z EXCEPT !.fl = k], k) ELSE Expect(r.t = "err", z, k)
    [] e.op = "fset" -> LET n == SetBit(BitOf(e.k), z.fl, e.on = 1) IN Expect(FlagShown(r, n), [z EXCEPT !.fl = n], n)
    [] e.op = "fconst" -> LET n == IF e.k = "load" THEN SetBit(1, z.fl, TRUE) ELSE BitOf(e.k) IN Expect(FlagShown(r, n), [z EXCEPT !.fl = n], n)
    [] e.op = "id" -> Expect(good /\ r.n = e.n /\ r.zero = Yes(e.n = 0) /\ r.text = DigitsOf(e.n), [z EXCEPT !.id = e.n], e.n)
    [] e.op = "next" -> Expect(good /\ r.n = z.id /\ r.after = z.id + 2, [z EXCEPT !.id = @ + 2], z.id)
    [] e.op = "cmp" -> Expect(good /\ r.cmp = Cmp(e.a, e.b) /\ r.part = Cmp(e.a, e.b) /\ r.eq = Yes(e.a = e.b), z, Cmp(e.a, e.b))
    [] e.op = "wcmp" -> Expect(good /\ r.cmp = Cmp(e.a, e.b) /\ r.part = Cmp(e.a, e.b) /\ r.eq = Yes(e.a = e.b), z, Cmp(e.a, e.b))
    [] e.op = "edit" -> LET f == Edits(e.f, e.steps) IN Expect(good /\ Describes(r.d, f) /\ r.pd = Yes(BitIn(8, f.fl)), z, f)
    [] e.op = "push" -> Expect(good /\ Describes(r.d, e.f) /\ r.w = e.w /\ r.len = Len(z.q) + 1, [z EXCEPT !.q = Append(@, [f |-> e.f, w |-> e.w])], NameOf(e.f))
    [] e.op = "pop" -> IF z.q = <<>> THEN Expect(good /\ r.v = <<>>, z, "nothing waits")
                       ELSE LET S == IF good /\ r.v # <<>> THEN Fits(z.q, r.v[1]) ELSE {} IN
                            IF S = {} THEN Expect(FALSE, z, {NameOf(z.q[k].f) : k \in Heaviest(z.q)}) ELSE Expect(TRUE, [z EXCEPT !.q = Without(@, CHOOSE k \in S : TRUE)], "")
    [] e.op = "setw" -> IF z.q = <<>> THEN Expect(good /\ r.v = <<>>, z, "nothing waits")
                        ELSE LET S == IF good /\ r.v # <<>> THEN Fits(z.q, r.v[1]) ELSE {} IN
                             IF S = {} THEN Expect(FALSE, z, {NameOf(z.q[k].f) : k \in Heaviest(z.q)}) ELSE Expect(TRUE, [z EXCEPT !.q[CHOOSE k \in S : TRUE].w = e.n], "")
=============================================================================
