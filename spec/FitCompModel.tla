---------------------------- MODULE FitCompModel ----------------------------
(* A fit as a walk over candidate parameters that returns the best one met.      *)
EXTENDS FitComp, TLC
CONSTANTS Steps
VARIABLES kind, own, order, cur, best, bl, n
vars == <<kind, own, order, cur, best, bl, n>>
Cand(k) == CASE k = "c0" -> { [lgm0pop_c0_ytp |-> a, lgm0pop_c0_ylo |-> -100000, lgm0pop_c0_clip_c0 |-> b, lgm0pop_c0_clip_c1 |-> -50000, lgm0pop_c0_t_obs_x0 |-> c]
                              : a \in {10000, 300000}, b \in {500000, 900000}, c \in {2000000, 6000000} }
             [] k = "c1" -> { [lgm0pop_c1_ytp |-> a, lgm0pop_c1_ylo |-> -40000, lgm0pop_c1_clip_x0 |-> 8000000, lgm0pop_c1_clip_ylo |-> b, lgm0pop_c1_clip_yhi |-> 30000,
                               lgm0pop_c1_t_obs_x0 |-> c] : a \in {10000, 90000}, b \in {20000, 150000}, c \in {3000000, 9000000} }
             [] k \in {"utp", "cens"} -> { [loc |-> a, scale |-> b] : a \in {200000, 500000, 900000}, b \in {100000, 400000, 900000} }
Xs(k) == CASE k \in {"c0", "c1"} -> <<1000000, 3000000, 6000000, 12000000>> [] k = "utp" -> <<150000, 300000, 500000, 700000, 950000>>
           [] k = "cens" -> <<2000000, 5000000, 9000000, 13000000>>
Ts(k) == CASE k \in {"c0", "c1"} -> <<3000000, 12000000>> [] k = "utp" -> <<0>> [] k = "cens" -> <<13800000>>
Table(k, p, t) == LET d == [t |-> t, x |-> Xs(k), y |-> <<>>] IN [d EXCEPT !.y = Fz([ i \in 1..Len(d.x) |-> Pred(k, p, d, d.x[i]) ])]
Data == LET T == Fz([ i \in 1..Len(Ts(kind)) |-> Table(kind, own, Ts(kind)[i]) ]) IN IF order = 1 THEN T ELSE Fz([ i \in 1..Len(T) |-> T[Len(T) + 1 - i] ])
Init == /\ kind \in {"c0", "c1", "utp", "cens"} /\ own \in Cand(kind) /\ order \in {1, 2} /\ cur \in Cand(kind)
        /\ best = cur /\ bl = Loss(kind, cur, Data) /\ n = 0
Walk == n < Steps /\ \E c \in Cand(kind) : LET l == Loss(kind, c, Data) IN
          /\ cur' = c /\ n' = n + 1 /\ IF l < bl THEN best' = c /\ bl' = l ELSE UNCHANGED <<best, bl>>
          /\ UNCHANGED <<kind, own, order>>
Next == Walk
Spec == Init /\ [][Next]_vars
Mine == bl = Loss(kind, best, Data)
NonNeg == bl >= 0
OwnIsZero == Loss(kind, own, Data) = 0
Best == bl <= Loss(kind, cur, Data)
Adds == LET D == Data IN Loss(kind, cur, D) = SumSeq(Fz([ i \in 1..Len(D) |-> Loss(kind, cur, <<D[i]>>) ]))
NeverWorse == [][bl' <= bl]_vars
===============================================================================
