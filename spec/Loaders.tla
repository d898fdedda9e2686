------------------------------- MODULE Loaders -------------------------------
(***************************************************************************)
(* What the simulation loaders deliver.  Masses are base-10 logarithms in  *)
(* fixed point; a zero mass is NINF.  Each kind of catalogue has its stored *)
(* quantity (mass or log mass, per h or not) and its promised quantity.    *)
(***************************************************************************)
EXTENDS Fix, FiniteSets
RECURSIVE RunMaxFrom(_, _, _)
RunMaxFrom(s, k, m) == IF k > Len(s) THEN <<>>
                       ELSE LET q == Max2(m, s[k]) IN << q >> \o RunMaxFrom(s, k + 1, q)
RunMax(s) == IF s = <<>> THEN <<>> ELSE RunMaxFrom(s, 1, s[1])
LGH_TNG == -169155                     \* log10(0.6774)
Unit(kind, lgh) == IF kind = "hacc" THEN 0 - lgh ELSE IF kind = "tngm" THEN 0 - LGH_TNG ELSE 0
Convert(kind, lgh, v) ==
  CASE kind = "hacc" -> IF v = NINF THEN NINF ELSE v + Unit(kind, lgh)
    [] kind = "bpl"  -> IF v < 0 THEN 0 ELSE v
    [] kind = "tngm" -> IF v = 0 THEN NINF ELSE v + Unit(kind, lgh)
    [] kind = "tngl" -> v
    [] kind = "publ" -> IF v = NINF THEN 0 ELSE v
    [] OTHER -> v
Deliver(kind, lgh, raw) == LET m == IF kind = "raw" THEN raw ELSE RunMax(raw)
                           IN [ i \in 1..Len(raw) |-> Convert(kind, lgh, m[i]) ]
Close(a, b, tol) == a = b \/ Near(a, b, tol)
RowOK(kind, lgh, raw, out) ==
  LET w == Deliver(kind, lgh, raw) IN Len(out) = Len(raw) /\ \A i \in 1..Len(raw) : Close(out[i], w[i], 6)
NonDecreasing(s) == \A i \in 1..Len(s) - 1 : s[i + 1] >= s[i]
Increasing(s) == \A i \in 1..Len(s) - 1 : s[i + 1] > s[i]
\* ages in micro-Gyr against the cosmology's
TimesOK(t, w) == Len(t) = Len(w) /\ Increasing(t) /\ \A i \in 1..Len(w) : Near(t[i], w[i], 300 + w[i] \div 500)
\* rows of chunk c (0-based) of k chunks of n rows: sizes differ by at most one, larger ones first
ChunkLo(n, k, c) == c * (n \div k) + Min2(c, n % k)
ChunkRows(n, k, c) == { i \in 0..n - 1 : i >= ChunkLo(n, k, c) /\ i < ChunkLo(n, k, c + 1) }
=============================================================================
