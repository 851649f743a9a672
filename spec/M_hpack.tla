------------------------------- MODULE M_hpack -------------------------------
(* Design model: one HPACK encoding context and one decoding context.  The   *)
(* encoder chooses freely among all representations RFC 7541 allows it.      *)
EXTENDS Hpack, Json

CONSTANT MaxBlocks
VARIABLES e, d, hist, n, sync

A == <<97>>  B == <<98>>  HostN == <<104, 111, 115, 116>>  MethodN == <<58, 109, 101, 116, 104, 111, 100>>
Fields == {<<A, <<>>>>, <<A, <<120>>>>, <<B, <<121, 121>>>>, <<HostN, <<104>>>>, <<MethodN, <<71, 69, 84>>>>, <<MethodN, <<80>>>>}
Caps == {0, 33, 67, 71, 4096}
Indices(t) == 1..(NS + Len(t.tab))
FullIdx(t, f) == {k \in {2, 3} \cup (NS + 1)..(NS + Len(t.tab)) : Lookup(t, k) = f}
NameIdx(t, f) == {k \in {2, 3, 38} \cup (NS + 1)..(NS + Len(t.tab)) : Lookup(t, k)[1] = f[1]}

(* every way to write field f: <<octets, added to the table>> *)
Reps(t, f) ==
  {<<IntEnc(k, 7, 128), FALSE>> : k \in FullIdx(t, f)}
  \cup {<<IntEnc(k, 6, 64) \o StrEnc(f[2], FALSE), TRUE>> : k \in NameIdx(t, f)}
  \cup {<<IntEnc(k, 4, 16) \o StrEnc(f[2], TRUE), FALSE>> : k \in NameIdx(t, f)}
  \cup {<<<<64>> \o StrEnc(f[1], TRUE) \o StrEnc(f[2], FALSE), TRUE>>,
        <<<<0>> \o StrEnc(f[1], FALSE) \o StrEnc(f[2], TRUE), FALSE>>}

Init == e = Table0 /\ d = Table0 /\ hist = <<>> /\ n = 0 /\ sync = TRUE

AsDec(h) == [k \in 1..Len(h) |-> IF h[k].k = "block" THEN [op |-> "dec", b |-> h[k].b] ELSE [op |-> "resize", who |-> "both", n |-> h[k].n]]
AsEnc(h) == [k \in 1..Len(h) |-> IF h[k].k = "block" THEN [op |-> "encdec", hs |-> h[k].hs] ELSE [op |-> "resize", who |-> "both", n |-> h[k].n]]
Emit(h) == PrintT("SCRIPT " \o ToJson(AsDec(h))) /\ PrintT("SCRIPT " \o ToJson(AsEnc(h)))

Receive(bytes, hs, e2) ==
  LET p == DecBlock(d, bytes) IN
  /\ sync' = (p.v = "ok" /\ p.hs = hs /\ ~p.lax)
  /\ d' = p.d
  /\ e' = e2
  /\ n' = n + 1
  /\ hist' = Append(hist, [k |-> "block", b |-> bytes, hs |-> hs, n |-> 0])
  /\ Emit(hist')

Block == \E f \in Fields : \E r \in Reps(e, f) :
           Receive(r[1], <<f>>, IF r[2] THEN AddEnt(e, f[1], f[2]) ELSE e)
(* a size update at the start of a block, then a field *)
UpdateBlock == \E c \in Caps, f \in {<<A, <<120>>>>} :
           /\ c <= e.limit
           /\ LET e2 == Update(e, c) IN
              \E r \in Reps(e2, f) : Receive(IntEnc(c, 5, 32) \o r[1], <<f>>, IF r[2] THEN AddEnt(e2, f[1], f[2]) ELSE e2)
ResizeBoth == \E c \in Caps :
           /\ e' = Resize(e, c) /\ d' = Resize(d, c) /\ n' = n + 1 /\ sync' = sync
           /\ hist' = Append(hist, [k |-> "resize", b |-> <<>>, hs |-> <<>>, n |-> c])
Next == n < MaxBlocks /\ (Block \/ UpdateBlock \/ ResizeBoth)
vars == <<e, d, hist, n, sync>>
Spec == Init /\ [][Next]_vars
View == <<e, d, n, sync>>

InSync == sync /\ e.tab = d.tab /\ e.max = d.max
Bounded == TabSize(d.tab) <= d.max /\ d.max <= d.limit
(* laws of the primitive codings *)
IntLaw == \A N \in 4..7 : \A v \in (0..300) \cup {16383, 16384, 16511, 2097151, 268435455} :
            LET x == IntEnc(v, N, 0) y == IntDec(x, 1, N) IN
            y.v = "ok" /\ y.val = v /\ y.next = Len(x) + 1 /\ (v < 268435456 => ~y.lax)
            /\ \A k \in 0..(Len(x) - 1) : IntDec(Take(x, k), 1, N).v = "short"
HuffLaw == \A a \in 0..255 : \A b \in {0, 48, 97, 255} :
            LET x == HuffEncode(<<a, b>>) y == HuffDecode(x) IN y.ok /\ y.s = <<a, b>>
ASSUME IntLaw /\ HuffLaw
=============================================================================
