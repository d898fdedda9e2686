--------------------------- MODULE FitTargetsModel ---------------------------
(* Every history of N points over a few mass levels and every setting whose    *)
(* cuts fall on, between and beyond those levels.                               *)
EXTENDS FitTargets, TLC, TLCExt, Json, IOUtils, SequencesExt
CONSTANTS N, Tier
L(k) == k * ONE
Levels == IF Tier = 0 THEN {ZERO, L(8), L(9), L(11)} ELSE {ZERO, L(8), L(9), L(10), L(12)}
Mins == {ZERO, L(8), L(9)}
Cuts == {L(1), L(2), L(10)}
Times == [i \in 1..N |-> (i * ONE * 13) \div N]
TMins == {0, Times[2], Times[2] + 1}
NoConf == [min |-> 0, cut |-> 0, tmin |-> -1, fixed |-> -1]
VARIABLES h, c
vars == <<h, c>>
Init == h = <<>> /\ c = NoConf
Grow == Len(h) < N /\ \E x \in Levels : h' = Append(h, x) /\ UNCHANGED c
Configure == /\ Len(h) = N /\ c = NoConf /\ UNCHANGED h
             /\ \E a \in Mins, b \in Cuts, d \in TMins : c' = [min |-> a, cut |-> b, tmin |-> d, fixed |-> 0]
Next == Grow \/ Configure
Spec == Init /\ [][Next]_vars
Done == c # NoConf
D == Done /\ Domain(h, c)
Y == TargetMass(h, Times, c)
X == TargetTime(h, Times, c)
NoZeroTarget == D => \A k \in 1..Len(Y) : Y[k] # ZERO /\ Y[k] >= L(8)
Ordered == D => \A k \in 1..(Len(Y) - 1) : Y[k] <= Y[k + 1] /\ X[k] < X[k + 1]
Within == D => \A k \in 1..Len(Y) : Y[k] > c.min /\ X[k] >= c.tmin
NotSkippedHasPoints == D => (~Skipped(h, Times, c, FALSE) => Len(Y) > NPTS_MIN)
PeakIsFirst == D => LET p == FirstFinal(h) IN h[p] = h[N] /\ \A j \in 1..(p - 1) : h[j] # h[N]
\* a history that never decreases peaks when it stops growing
PeakOfMonotone == D => ((\A i \in 1..(N - 1) : h[i] <= h[i + 1]) => \A j \in FirstFinal(h)..N : h[j] = h[N])
\* the requests: all states in which the invariants above have been judged
Settings == [min : Mins, cut : Cuts, tmin : TMins, fixed : {0}]
Requests == {r \in [1..N -> Levels] \X Settings : Domain(r[1], r[2])}
Emit == JsonSerialize(IOEnv.OUT, [times |-> Times, reqs |-> SetToSeq(Requests)])
=============================================================================
