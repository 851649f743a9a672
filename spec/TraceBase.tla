------------------------------ MODULE TraceBase -----------------------------
(* Trace validation: every recorded session of the real code must be a      *)
(* behaviour of the specification.  A session is a sequence of events, each *)
(* an operation with its arguments and, in field r, what the code answered. *)
(* `Step(st, e)` is the specification's transition: it tells whether the    *)
(* specification allows the event in state st, and the state after it.      *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANTS InitSt(_), Step(_, _)
VARIABLES s, i, st
tvars == <<s, i, st>>

TRACE == ndJsonDeserialize(IOEnv.TRACE)
Ended == 1000000

TraceInit == /\ s \in 1..Len(TRACE)
             /\ i = 0
             /\ st = InitSt(TRACE[s])

(* memory an operation holds is bounded by what the session was given (the harness itself takes up to 1 kB per octet to record it) *)
MemoryOk(e) == e.kb <= 8192 + 4 * e.sz
(* a panic is never a behaviour of the specification *)
Outcome(e) == IF e.r.t = "panic" THEN [ok |-> FALSE, st |-> st, exp |-> "no panic"]
              ELSE IF ~MemoryOk(e) THEN [ok |-> FALSE, st |-> st, exp |-> "memory in proportion to the input"] ELSE Step(st, e)

TraceNext == /\ i < Len(TRACE[s].ev)
             /\ s' = s
             /\ LET o == Outcome(TRACE[s].ev[i + 1])
                IN IF o.ok
                   THEN i' = i + 1 /\ st' = o.st
                   ELSE /\ PrintT("MISMATCH " \o ToString(TRACE[s].id) \o " " \o ToString(i + 1) \o " " \o ToJson(o.exp))
                        /\ i' = Ended
                        /\ st' = st

TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
