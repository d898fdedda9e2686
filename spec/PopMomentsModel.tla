--------------------------- MODULE PopMomentsModel ---------------------------
(* Halos are added to a bin one at a time; the moments of the mixture keep    *)
(* their defining relations, and the loss is zero exactly on a match.          *)
EXTENDS PopMoments, TLC
CONSTANT NMax
VARIABLES hs
Vals == {-2 * ONE, 0, ONE}
Fracs == {0, 250000, ONE}
Init == hs = <<>>
Next == /\ Len(hs) < NMax
        /\ \E e, l \in Vals, f \in Fracs : hs' = Append(hs, [e |-> e, l |-> l, f |-> f])
Spec == Init /\ [][Next]_hs
N == Len(hs)
Mu == MixMean(hs)
Range == N = 0 \/ WithinSample(hs, Mu, 2)
VarNonNeg == N = 0 \/ MixVar(hs, Mu) >= 0
\* variance = mean square - square of the mean
Steiner == N = 0 \/ Near(MixVar(hs, Mu), MixVar(hs, 0) - Sq(Mu), 8)
Flip(h) == [e |-> h.l, l |-> h.e, f |-> ONE - h.f]
Symmetric == N = 0 \/ MixMean([i \in 1..N |-> Flip(hs[i])]) = Mu
Rev == [i \in 1..N |-> hs[N + 1 - i]]
OrderFree == N = 0 \/ (MixMean(Rev) = Mu /\ MixVar(Rev, Mu) = MixVar(hs, Mu))
AllEarly == N = 0 \/ (\E i \in 1..N : hs[i].f # ONE) \/ Near(Mu, SumSeq([i \in 1..N |-> hs[i].e]) \div N, 2)
ZeroIffMatch == \A a, b \in Vals : LET bin == [m |-> <<a>>, s |-> <<0>>, tm |-> <<b>>, ts |-> <<0>>]
                                  IN  (BinLoss(bin) = 0) = (a = b)
=============================================================================
