--------------------------- MODULE FitQualityModel ---------------------------
(* The loss of a fit over all small sets of deviations: it is the mean square,  *)
(* it does not depend on their order or sign, and it is zero only for a perfect  *)
(* fit.                                                                          *)
EXTENDS FitQuality, TLC
CONSTANT Tier
VARIABLES d
Vals == IF Tier = 0 THEN {-200000, -1000, 0, 50000, 1000000} ELSE {-1500000, -200000, -1000, 0, 3000, 50000, 1000000}
Init == d = <<>>
Next == Len(d) < 5 /\ \E v \in Vals : d' = Append(d, v)
Spec == Init /\ [][Next]_d
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Symmetric == Len(d) > 0 => Near(MeanSq(d), MeanSq(Rev(d)), 1) /\ MeanSq(d) = MeanSq([i \in 1..Len(d) |-> -d[i]])
NonNeg == Len(d) > 0 => MeanSq(d) >= 0
ZeroOnlyPerfect == Len(d) > 0 => /\ (\A i \in 1..Len(d) : d[i] = 0) => MeanSq(d) = 0
                                 /\ (\E i \in 1..Len(d) : Abs(d[i]) >= 50000) => MeanSq(d) > 0
Accepts == Len(d) > 0 => LossIsMeanSq(d, MeanSq(d))
=============================================================================
