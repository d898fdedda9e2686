------------------------------- MODULE FitComp -------------------------------
(* Fits of one component of the population model to tabulated curves.            *)
(*   "c0", "c1"  coefficients of the mean normalisation as functions of           *)
(*               observation time and peak time; data: a list of tables            *)
(*               (t_obs, peak times, values), the loss adds the tables' mean        *)
(*               squared deviations                                                 *)
(*   "utp"       density of peak time / observation time; one table                  *)
(*   "cens"      density of peak time for today's age t0; one table                   *)
EXTENDS PopMean
PD == INSTANCE PeakDist
Fz(f) == f \o <<>>
MeanSeq(s) == s[1] + SumSeq(Fz([ i \in 1..Len(s) |-> s[i] - s[1] ])) \div Len(s)

Names(kind) == IF kind = "c0" THEN <<"lgm0pop_c0_ytp", "lgm0pop_c0_ylo", "lgm0pop_c0_clip_c0", "lgm0pop_c0_clip_c1", "lgm0pop_c0_t_obs_x0">>
               ELSE <<"lgm0pop_c1_ytp", "lgm0pop_c1_ylo", "lgm0pop_c1_clip_x0", "lgm0pop_c1_clip_ylo", "lgm0pop_c1_clip_yhi", "lgm0pop_c1_t_obs_x0">>
Pred(kind, p, d, x) == CASE kind = "c0" -> C0(p, "", d.t, x)
                         [] kind = "c1" -> C1(p, "", d.t, x)
                         [] kind = "utp" -> Div(PD!TruncDen(x, p.loc, p.scale, PD!XMIN, ONE), p.scale)
                         [] kind = "cens" -> Div(Div(PD!TruncDen(Div(x, d.t), p.loc, p.scale, PD!XMIN, ONE), p.scale), d.t)
TableLoss(kind, p, d) == MeanSeq(Fz([ i \in 1..Len(d.x) |-> Sq(d.y[i] - Pred(kind, p, d, d.x[i])) ]))
Loss(kind, p, D) == SumSeq(Fz([ i \in 1..Len(D) |-> TableLoss(kind, p, D[i]) ]))
\* limits of the bounded fits
LocOK(x) == x >= 100000 /\ x <= ONE
ScaleOK(x) == x >= 0 /\ x <= ONE + 2
===============================================================================
