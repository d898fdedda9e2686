--------------------------- MODULE TransformModel ---------------------------
(* Five halo parameters whose unbounded values move between levels.  Every    *)
(* transition (one unbounded value raised by one level) is an implementation  *)
(* test: TLC enumerates the whole graph and the driver replays every edge.    *)
EXTENDS Transform, TLC, Json, IOUtils, Sequences
CONSTANT NL                           \* number of levels per parameter
Lo == <<0, -1000000, 100000, 100000, 50000>>
Hi == <<17000000, 1000000, 10000000, 5000000, 20000000>>
Floor == <<0, 0, 4, 0, 0>>            \* lower limit of the early index is the late index
Mid(i) == IF Floor[i] = 0 THEN (Lo[i] + Hi[i]) \div 2 ELSE 0
\* level -> unbounded value: far below, ..., far above the midpoint
Val(i, n) == Mid(i) + (2 * n - NL - 1) * 24000000
VARIABLE lev
P(v) == LET late == BndTo(Val(4, v[4]), Mid(4), Lo[4], Hi[4])
        IN [i \in 1..5 |-> IF i = 3 THEN BndTo(Val(3, v[3]), 0, late, Hi[3])
                           ELSE IF i = 4 THEN late
                           ELSE BndTo(Val(i, v[i]), Mid(i), Lo[i], Hi[i])]
Init == lev = [i \in 1..5 |-> 1]
Raise(i) == lev[i] < NL /\ lev' = [lev EXCEPT ![i] = @ + 1]
Next == \E i \in 1..5 : Raise(i)
Spec == Init /\ [][Next]_lev
Bounded == InBounds(Floor, Lo, Hi, P(lev))
EarlyAboveLate == P(lev)[3] >= P(lev)[4]
Increases == [][\A i \in 1..5 : lev'[i] > lev[i] =>
                  P(lev')[i] > P(lev)[i] /\ OwnOnly(Floor, i, P(lev), P(lev'))]_lev
=============================================================================
