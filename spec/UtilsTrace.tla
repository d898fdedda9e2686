------------------------------ MODULE UtilsTrace ------------------------------
(* "dt" t, dt | "tri" d, p, m | "cov" rho, s, cov, back (correlation recovered)    *)
(* "zero" corr, zero: entries of the correlation of covariances that are zero      *)
(* "trim" x, p, mean, mean2, var (the second from the joint form)                   *)
(* "sig" x, x0, k, lo, hi, y | "inv" the same, x: inverse of y | "slope" ..., xtp, ytp *)
(* "bc" n, accepted, a (arguments' values), out                                     *)
EXTENDS Utils, TraceKit
CLAUSE(name, ok) == IF ok THEN {} ELSE {name}
SeqNear(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(b) : Near(a[i], b[i], tol)
MatNear(a, b, tol(_, _)) == Len(a) = Len(b) /\ \A i \in 1..Len(b) : Len(a[i]) = Len(b[i]) /\ \A j \in 1..Len(b[i]) : Near(a[i][j], b[i][j], tol(i, j))
SigTol(e) == 6 + (Abs(e.hi - e.lo) + Abs(e.lo) + Abs(e.hi)) \div 300000
MyClauses(s, e) ==
  CASE e.ev = "dt" -> CLAUSE("widths-tile", SeqNear(e.dt, Widths(e.t), 4))
    [] e.ev = "tri" -> CLAUSE("triangular-order", e.m = Tri(e.d, e.p))
    [] e.ev = "cov" -> LET c == CovOf(e.rho, e.s)
                           tol(i, j) == 5 + Abs(c[i][j]) \div 200000 + (e.s[i] + e.s[j]) \div 400000
                           t2(i, j) == 4
                       IN  CLAUSE("covariance-definition", MatNear(e.cov, c, tol))
                           \cup CLAUSE("correlation-recovered", MatNear(e.back, e.rho, t2))
                           \cup CLAUSE("unit-diagonal", \A i \in 1..Len(e.s) : Near(e.back[i][i], ONE, 1))
    [] e.ev = "zero" -> CLAUSE("zero-stays-zero", e.exact)
    [] e.ev = "trim" -> LET K == Kept(e.x, e.p)
                            n == Cardinality(K)
                        IN  IF n = 0 THEN {}
                            ELSE CLAUSE("trimmed-mean", Near(e.mean, MeanOver(e.x, K), e.tol) /\ Near(e.mean2, MeanOver(e.x, K), e.tol))
                                 \cup CLAUSE("trimmed-variance", n < 2 \/ LET w == VarOver(e.x, K) IN Near(e.var, w, 5 * e.tol + w \div 50000))
    [] e.ev = "sig" -> CLAUSE("sigmoid-definition", Near(e.y, Sigmoid(e.x, e.x0, e.k, e.lo, e.hi), SigTol(e)))
    [] e.ev = "inv" -> CLAUSE("inverse-inverts", Near(e.y, Sigmoid(e.x, e.x0, e.k, e.lo, e.hi), 2 * SigTol(e) + Mul(Abs(e.k), Abs(e.hi - e.lo)) \div 400000))
    [] e.ev = "slope" -> CLAUSE("slope-definition", Near(e.y, SigSlope(e.x, e.xtp, e.ytp, e.x0, e.k, e.lo, e.hi), 4 * (2 + Abs(e.x - e.xtp) \div ONE) * SigTol(e) + Abs(e.ytp) \div 300000))
    [] e.ev = "bc" -> CLAUSE("lengths-checked", e.accepted = Compatible(e.n))
                      \cup (IF ~(e.accepted /\ Compatible(e.n)) THEN {} ELSE
                            CLAUSE("broadcast-values", Len(e.out) = Len(e.a) /\ \A i \in 1..Len(e.a) : e.out[i] = Spread(e.a[i], MaxLen(e.n))))
    [] OTHER -> {}
MySt0 == 0
MyStep(s, e) == s
===============================================================================
