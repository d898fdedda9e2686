------------------------------ MODULE GradModel ------------------------------
(* All squared-error losses of D parameters and K data on a small lattice; an   *)
(* optimiser may start anywhere and move along any coordinate.                  *)
EXTENDS Grad, TLC
CONSTANTS D, K, M, T
VARIABLES a, y, p
vars == <<a, y, p>>
Vals == { x - M : x \in 0..(2 * M) }
Rows == [1..D -> Vals]
Init == /\ a \in [1..K -> Rows] /\ y \in [1..K -> {0, 1}] /\ p \in [1..D -> {0}]
Next == /\ \E i \in 1..D, h \in {-1, 1} : p' = Shift(p, i, h) /\ Abs(p'[i]) <= T
        /\ UNCHANGED <<a, y>>
Spec == Init /\ [][Next]_vars
L(q) == Loss(a, y, q)
g == GradOf(a, y, p)
CD(i, h) == (L(Shift(p, i, h)) - L(Shift(p, i, -h)))          \* times 2h
Exact == \A i \in 1..D, h \in 1..2 : CD(i, h) = 2 * h * g[i]
Accepted == LET d(h) == [ i \in 1..D |-> CD(i, h) \div (2 * h) ] IN Slopes(g, d(2), d(1), 0)
\* the value never falls below the tangent plane (so a descent step along -g helps) and is never negative
Convex == L(p) >= 0 /\ \A i \in 1..D, h \in {-1, 1} : L(Shift(p, i, h)) >= L(p) + h * g[i]
Stationary == (L(p) = 0) => \A i \in 1..D : g[i] = 0
\* faulty gradients that differ anywhere are refused: dropped datum, exchanged entries, wrong factor, missing entry
Swap(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]
Refused == LET d == g IN
   \A bad \in { GradOf([k \in 1..(K - 1) |-> a[k]], [k \in 1..(K - 1) |-> y[k]], p), [i \in 1..D |-> 2 * g[i]], [i \in 1..D |-> -g[i]] }
              \cup { Swap(g, i, j) : i, j \in 1..D } \cup { [g EXCEPT ![i] = 0] : i \in 1..D } :
      Slopes(bad, d, d, 0) <=> bad = g
Short == ~Slopes(SubSeq(g, 1, D - 1), g, g, 0)
\* renaming the parameters renames the gradient
Permuted == \A i, j \in 1..D : GradOf([k \in 1..K |-> Swap(a[k], i, j)], y, Swap(p, i, j)) = Swap(g, i, j)
\* a third-order term bends central differences by c h^2; the two-step margin covers it
Margin == \A c \in Vals, h \in 1..3 : \A i \in 1..D :
   Slope(4 * g[i], 4 * g[i] + 4 * c * h * h, 4 * g[i] + c * h * h, 0)
Descends == [][ \A i \in 1..D : p'[i] # p[i] => (L(p') - L(p)) - (p'[i] - p[i]) * g[i] >= 0 ]_vars
=============================================================================
