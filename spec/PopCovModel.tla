----------------------------- MODULE PopCovModel -----------------------------
(* Every corner and face centre of the box of correlations.  A determinant is a *)
(* concave quadratic in each single correlation, so positive minors at the      *)
(* corners make them positive in the whole box.                                  *)
EXTENDS PopCov, TLC
CONSTANT Tier
Levels == IF Tier = 0 THEN {-300000, 0, 300000} ELSE {-300000, -100000, 0, 200000, 300000}
VARIABLES rho, mass
vars == <<rho, mass>>
X0 == 12750000
Masses == {10000000, 11500000, 12750000, 14000000, 16000000}
Mat == [i \in 1..4 |-> [j \in 1..4 |-> Corr(rho, i, j)]]
Init == rho = [k \in 1..6 |-> 0] /\ mass \in Masses
Next == \E k \in 1..6, v \in Levels : rho' = [rho EXCEPT ![k] = v] /\ UNCHANGED mass
Spec == Init /\ [][Next]_vars
PD == PosDef(Mat)
Sym == \A i, j \in 1..4 : Mat[i][j] = Mat[j][i]
OwnEntry == \A k \in 1..6 : Cardinality({ij \in (1..4) \X (1..4) : ij[1] > ij[2] /\ PairIdx(ij[1], ij[2]) = k}) = 1
Between == \A lo, hi \in {10000, 1000000, 100000000} :
             LET s == Scatter(mass, X0, lo, hi) IN s >= Min2(lo, hi) - 1 /\ s <= Max2(lo, hi) + 1
=============================================================================
