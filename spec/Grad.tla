-------------------------------- MODULE Grad --------------------------------
(* Losses and their gradients.  Everything a loss offers is determined by how  *)
(* its value changes when one parameter moves: the gradient has one entry per  *)
(* parameter, in the parameters' order, and entry i is the limit of central    *)
(* differences along parameter i.  The model below uses squared-error losses   *)
(* (the only kind the package has) on an integer lattice, where central        *)
(* differences are exact, to fix what an acceptable gradient is.               *)
EXTENDS Fix, FiniteSets

Dot(a, p) == LET RECURSIVE S(_) S(i) == IF i = 0 THEN 0 ELSE a[i] * p[i] + S(i - 1) IN S(Len(p))
\* a: rows of a linear prediction, y: targets; twice-scaled so that everything is an integer
Loss(a, y, p) == LET RECURSIVE S(_) S(k) == IF k = 0 THEN 0 ELSE (Dot(a[k], p) - y[k]) * (Dot(a[k], p) - y[k]) + S(k - 1) IN S(Len(y))
GradOf(a, y, p) == [ i \in 1..Len(p) |->
   LET RECURSIVE S(_) S(k) == IF k = 0 THEN 0 ELSE 2 * a[k][i] * (Dot(a[k], p) - y[k]) + S(k - 1) IN S(Len(y)) ]
Shift(p, i, h) == [p EXCEPT ![i] = @ + h]

(* --------------------- what an observed gradient must satisfy ---------------- *)
\* g: supplied entry; d1, d2: central differences with step h and h/2.  The error of
\* d2 is at most a third of |d1 - d2| up to higher order; a margin of three is taken.
Slope(g, d1, d2, tol) == Finite(g) /\ Finite(d1) /\ Finite(d2) /\ Near(g, d2, tol + Abs(d1 - d2))
Slopes(g, d1, d2, tol) == Len(g) = Len(d1) /\ \A i \in 1..Len(g) : Slope(g[i], d1[i], d2[i], tol)
SameFields(gn, pn) == gn = pn
AllFinite(xs) == \A i \in 1..Len(xs) : Finite(xs[i])
=============================================================================
