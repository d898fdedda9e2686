------------------------------ MODULE TraceKit ------------------------------
(***************************************************************************)
(* Trace validation skeleton.  A trace is a sequence of events recorded    *)
(* from the real code (ndjson).  A component's trace module supplies       *)
(*   St0            the specification's initial state                      *)
(*   Clauses(st,e)  names of the clauses of the specification that event e *)
(*                  breaks in state st ({} iff e is an allowed step)       *)
(*   Step(st,e)     the specification state after e                        *)
(* The whole trace is always consumed, every event is judged, and the      *)
(* verdict (how many events were judged, which ones broke which clauses)   *)
(* is written to a file; a missing file means that TLC did not finish.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

CONSTANTS St0, Clauses(_, _), Step(_, _)

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, st, bad

TraceInit == l = 1 /\ st = St0 /\ bad = <<>>

Consume ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l]
         f == Clauses(st, e)
     IN  /\ bad' = IF f = {} \/ Len(bad) >= 40 THEN bad
                   ELSE Append(bad, [i |-> l, f |-> SetToSeq(f)])
         /\ st' = Step(st, e)
  /\ l' = l + 1

Finish ==
  /\ l = Len(Trace) + 1
  /\ JsonSerialize(IOEnv.VERDICT, [n |-> Len(Trace), bad |-> bad])
  /\ l' = l + 1
  /\ UNCHANGED <<st, bad>>

TraceNext == Consume \/ Finish
TraceSpec == TraceInit /\ [][TraceNext]_<<l, st, bad>>
=============================================================================
