----------------------------- MODULE PurityGen -----------------------------
(* All behaviours of Purity of length MaxLen over representative operations;  *)
(* each one is later instantiated with real operations by the driver.        *)
EXTENDS Purity, Json, IOUtils, SequencesExt
CONSTANT MaxLen
Bound == Len(hist) < MaxLen
GNext == Bound /\ Next
Useful(h) == /\ h[Len(h)][1] = "call"
             /\ \E i \in 1..Len(h) - 1 : h[i][1] = "call" /\ h[i][2] = h[Len(h)][2]
Done == TLCSet(1, TLCGet(1) \cup (IF Len(hist) = MaxLen /\ Useful(hist) THEN {hist} ELSE {}))
GInit == Init /\ TLCSet(1, {})
GSpec == GInit /\ [][GNext]_vars
Inv == Done /\ OneResult /\ ResultsAreMemo
Emit == JsonSerialize(IOEnv.OUT, SetToSeq(TLCGet(1)))
=============================================================================
