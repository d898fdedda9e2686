------------------------------- MODULE Measure -------------------------------
(* Measured target histories of a sample of halos, and its outlier mask.         *)
(* a[h][t]: mass of halo h in its own units, times 10^e[t] (a common shift per    *)
(* time, zero at the last time).  d[h][t]: rate in the same units, times 10^g[t]. *)
EXTENDS Fix, FiniteSets

\* evaluate a sequence now (TLC would re-evaluate a lazy one at every use)
Fz(f) == f \o <<>>

(* --------------------------- logarithms (fixed point) ------------------------ *)
RECURSIVE LogBits(_, _, _)
LogBits(y, w, n) == IF n = 0 THEN 0
                    ELSE LET q == Mul(y, y)
                         IN  IF q >= 2 * ONE THEN w + LogBits(q \div 2, w \div 2, n - 1) ELSE LogBits(q, w \div 2, n - 1)
RECURSIVE Log2(_)
Log2(x) == IF x >= 2 * ONE THEN ONE + Log2(x \div 2)
           ELSE IF x < ONE THEN Log2(2 * x) - ONE
           ELSE LogBits(x, ONE \div 2, 19)
Log10(x) == Mul(Log2(x), 301030)

(* -------------------------------- moments ------------------------------------ *)
Col(m, t) == Fz([ h \in 1..Len(m) |-> m[h][t] ])
MeanOf(c) == SumSeq(c) \div Len(c)
VarOf(c) == LET u == MeanOf(c) IN SumSeq(Fz([ i \in 1..Len(c) |-> Sq(c[i] - u) ])) \div Len(c)
\* masses and rates relative to the halo's own final mass
Scaled(m, a) == Fz([ h \in 1..Len(m) |-> Fz([ t \in 1..Len(m[h]) |-> Div(m[h][t], a[h][Len(a[h])]) ]) ])
\* tables over the times: all in log of units of the sample mass, except the last two
Tables(a, d, e, g, lgmp) ==
  LET A == Scaled(a, a)
      D == Scaled(d, a)
      n == Len(a[1])
      L == Fz([ h \in 1..Len(a) |-> Fz([ t \in 1..n |-> Log10(A[h][t]) ]) ])
  IN  [ mass |-> Fz([ t \in 1..n |-> Log10(MeanOf(Col(A, t))) - e[t] * ONE ]),
        rate |-> Fz([ t \in 1..n |-> Log10(MeanOf(Col(D, t))) - g[t] * ONE ]),
        srate |-> Fz([ t \in 1..n |-> Log10(Sqrt(VarOf(Col(D, t)))) - g[t] * ONE ]),
        logm |-> Fz([ t \in 1..n |-> Log10(lgmp + MeanOf(Col(L, t)) - e[t] * ONE) ]),
        slog |-> Fz([ t \in 1..n |-> Sqrt(VarOf(Col(L, t))) ]) ]
\* linear interpolation in x, within the table
Seg(xs, x) == CHOOSE i \in 1..(Len(xs) - 1) : xs[i] <= x /\ x <= xs[i + 1]
Interp(x, xs, ys) == LET i == Seg(xs, x) IN ys[i] + Mul(Div(x - xs[i], xs[i + 1] - xs[i]), ys[i + 1] - ys[i])

(* ------------------------------- outlier mask -------------------------------- *)
\* x[h][t]: integer log masses relative to the final one; k dropped from each end
RECURSIVE Ins(_, _)
Ins(s, x) == IF s = <<>> \/ x <= s[1] THEN <<x>> \o s ELSE <<s[1]>> \o Ins(Tail(s), x)
RECURSIVE Srt(_)
Srt(s) == IF s = <<>> THEN <<>> ELSE Ins(Srt(Tail(s)), s[1])
Trim(c, k) == SubSeq(Srt(c), k + 1, Len(c) - k)
\* deviation of v from the trimmed mean against z2/2 trimmed standard deviations (exact)
Dev(w, v) == LET n == Len(w)
                 q == n * v - SumSeq(w)
             IN  4 * q * q
Lim(w, z2) == LET n == Len(w)
                  s == SumSeq(w)
              IN  z2 * z2 * (n * SumSeq(Fz([ i \in 1..n |-> w[i] * w[i] ])) - s * s)
Inside(x, t, k, z2) == LET w == Trim(Col(x, t), k)
                           b == Lim(w, z2)
                       IN  Fz([ h \in 1..Len(x) |-> Dev(w, x[h][t]) < b ])
OnEdge(x, t, k, z2) == LET w == Trim(Col(x, t), k)
                           b == Lim(w, z2)
                       IN  Fz([ h \in 1..Len(x) |-> Dev(w, x[h][t]) = b ])
\* considered times: from the first one asked for to the last but one
Mask(x, first, k, z2) == LET S == first..(Len(x[1]) - 1)
                             I == Fz([ i \in 1..Cardinality(S) |-> Inside(x, first + i - 1, k, z2) ])
                         IN  Fz([ h \in 1..Len(x) |-> \A i \in DOMAIN I : I[i][h] ])
Edge(x, first, k, z2) == LET S == first..(Len(x[1]) - 1)
                             I == Fz([ i \in 1..Cardinality(S) |-> OnEdge(x, first + i - 1, k, z2) ])
                         IN  Fz([ h \in 1..Len(x) |-> \E i \in DOMAIN I : I[i][h] ])
==============================================================================
