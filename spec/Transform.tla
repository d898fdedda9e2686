----------------------------- MODULE Transform -----------------------------
(***************************************************************************)
(* Bounded <-> unbounded parameter transforms.  A family has N parameters; *)
(* parameter i has limits lo[i] < hi[i]; floor[i] = j > 0 says that the    *)
(* lower limit of i is the current bounded value of j (early/late index).  *)
(***************************************************************************)
EXTENDS Fix, FiniteSets
BK == 100000                                   \* bounding steepness 0.1
BndTo(u, mid, lo, hi) == lo + Mul(hi - lo, Sig(SatMul(BK, u - mid)))
\* what may change when unbounded parameter i changes: i itself and the
\* parameters whose floor is i
Influences(floor, i, j) == j = i \/ floor[j] = i
InBounds(floor, lo, hi, p) ==
  \A i \in DOMAIN p : /\ Finite(p[i])
                      /\ p[i] >= (IF floor[i] = 0 THEN lo[i] ELSE p[floor[i]]) - 2
                      /\ p[i] <= hi[i] + 2
OwnOnly(floor, i, p, q) == \A j \in DOMAIN p : Influences(floor, i, j) \/ Near(p[j], q[j], 1)
=============================================================================
