------------------------------ MODULE UtilsModel ------------------------------
(* All small grids, samples, dimensions and argument lengths; the laws below are *)
(* checked on each, and each is printed as a request for the real code.          *)
EXTENDS Utils, TLC
CONSTANTS N, D, B
VARIABLES k, v
vars == <<k, v>>
U == 4 * ONE
Vals == 0..3
Init == \/ k = "dt" /\ v = <<>>
        \/ k = "trim" /\ v = <<>>
        \/ k = "tri" /\ v \in { <<d>> : d \in 1..D }
        \/ k = "bc" /\ v = <<>>
Next == /\ UNCHANGED k
        /\ \/ k = "dt" /\ Len(v) < N /\ \E g \in 1..3 : v' = Append(v, g)
           \/ k = "trim" /\ Len(v) < N /\ \E g \in Vals : v' = Append(v, g)
           \/ k = "bc" /\ Len(v) < B /\ \E g \in 0..3 : v' = Append(v, g)
Spec == Init /\ [][Next]_vars
\* times of a grid of gaps (offset by one), in units that keep every half exact
RECURSIVE Cum(_)
Cum(g) == IF g = <<>> THEN <<>> ELSE LET c == Cum(SubSeq(g, 1, Len(g) - 1)) IN Append(c, (IF c = <<>> THEN 0 ELSE c[Len(c)]) + g[Len(g)] * U)
T == Cum(v)
Grid == k = "dt" /\ Len(v) >= 2
Tiles == Grid => LET w == Widths(T) IN /\ \A i \in 1..Len(T) : w[i] > 0 /\ Lo(T, i) < T[i] /\ T[i] < Hi(T, i)
                                       /\ \A i \in 2..Len(T) : Lo(T, i) = Hi(T, i - 1)
                                       /\ SumSeq(w) = Hi(T, Len(T)) - Lo(T, 1)
Uniform == Grid => ((\A i \in 2..Len(v) : v[i] = v[2]) => \A i \in 1..Len(T) : Widths(T)[i] = v[2] * U)
Bijection == k = "tri" => LET d == v[1] IN
   { TriIndex(d, i, j) : i, j \in 1..d } \ {0} = 1..NPar(d)
   /\ Cardinality({ <<i, j>> \in (1..d) \X (1..d) : TriIndex(d, i, j) # 0 }) = NPar(d)
   /\ \A i, j \in 1..d : j > i => TriIndex(d, i, j) = 0
X == [ i \in 1..Len(v) |-> v[i] * ONE ]
Eighths == {0, 125000, 250000, 375000}
Sample == k = "trim" /\ Len(v) >= 1
\* keeps a symmetric middle part: between the extremes, smaller for larger fractions, blind to order
Trimmed == Sample => \A p \in Eighths : LET K == Kept(X, p) IN
   /\ \A i \in K : \E a, b \in 1..Len(X) : X[a] < X[i] /\ X[i] < X[b]
   /\ \A q \in Eighths : q > p => Kept(X, q) \subseteq K
   /\ \A i, j \in 1..Len(X) : X[i] = X[j] => (i \in K) = (j \in K)
   /\ K # {} => (\E a \in K : X[a] <= MeanOver(X, K)) /\ (\E a \in K : X[a] >= MeanOver(X, K))
Mirror == Sample => \A p \in Eighths : Kept(X, p) = Kept([ i \in 1..Len(X) |-> -X[i] ], p)
NN == [ i \in 1..Len(v) |-> IF v[i] = 0 THEN 1 ELSE v[i] ]
Broadcast == (k = "bc" /\ v # <<>> /\ Compatible(NN)) => \A i \in 1..Len(v) : NN[i] = 1 \/ NN[i] = MaxLen(NN)
Done == (k = "dt" /\ Len(v) >= 2) \/ (k = "trim" /\ Len(v) >= 3) \/ (k = "bc" /\ Len(v) >= 1) \/ k = "tri"
Emit == Done => PrintT(<<"B", k, v>>)
===============================================================================
