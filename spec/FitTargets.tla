----------------------------- MODULE FitTargets -----------------------------
(***************************************************************************)
(* From a simulated history to a fitting problem.  A history h is a        *)
(* sequence of log masses (ZERO for a mass of zero) at times t; a setting  *)
(* c has the least fitting mass c.min (ZERO: none), the allowed range      *)
(* c.cut below the final mass and the first fitting time c.tmin.           *)
(***************************************************************************)
EXTENDS Fix, FiniteSets
ZERO == NINF
NPTS_MIN == 3
NOFIT == -99 * ONE
NOCODE == -1
Selected(h, t, c, i) ==
  /\ h[i] # ZERO /\ h[i] > c.min /\ t[i] >= c.tmin
  /\ (h[Len(h)] = ZERO \/ h[i] > h[Len(h)] - c.cut)
RECURSIVE IdxFrom(_, _, _, _)
IdxFrom(h, t, c, i) == IF i > Len(h) THEN <<>>
                       ELSE (IF Selected(h, t, c, i) THEN <<i>> ELSE <<>>) \o IdxFrom(h, t, c, i + 1)
Chosen(h, t, c) == IdxFrom(h, t, c, 1)
RECURSIVE RunMax(_, _, _, _)
RunMax(h, ix, k, m) == IF k > Len(ix) THEN <<>>
                       ELSE LET v == Max2(m, h[ix[k]]) IN <<v>> \o RunMax(h, ix, k + 1, v)
TargetMass(h, t, c) == RunMax(h, Chosen(h, t, c), 1, NINF)
TargetTime(h, t, c) == LET ix == Chosen(h, t, c) IN [k \in 1..Len(ix) |-> t[ix[k]]]
\* target points below the last target
NonTrivial(y) == Cardinality({k \in 1..Len(y) : y[k] < y[Len(y)]})
Skipped(h, t, c, force) == force \/ NonTrivial(TargetMass(h, t, c)) < NPTS_MIN
\* first time at which the history has its final mass
FirstFinal(h) == CHOOSE i \in 1..Len(h) : h[i] = h[Len(h)] /\ \A j \in 1..(i - 1) : h[j] # h[Len(h)]
PeakTime(h, t, c) == IF c.fixed > 0 THEN c.fixed ELSE t[FirstFinal(h)]
\* histories and settings for which the properties are stated
Domain(h, c) == h[Len(h)] # ZERO \/ c.min # ZERO
PeakDomain(h, c) == h[Len(h)] # ZERO /\ h[Len(h)] > c.min
=============================================================================
