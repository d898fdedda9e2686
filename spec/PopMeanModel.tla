---------------------------- MODULE PopMeanModel ----------------------------
(* The mean model over a lattice of inputs and of corner parameter values of    *)
(* one component at a time: every prediction stays in its range, in the order   *)
(* and between the values its definition names.                                  *)
EXTENDS PopMean, TLC
CONSTANT Tier
Dom == [ c0 |-> {"lgm0pop_c0_ytp", "lgm0pop_c0_ylo", "lgm0pop_c0_clip_c0", "lgm0pop_c0_clip_c1", "lgm0pop_c0_t_obs_x0"},
         tc |-> {"logtc_lgm_c0_tp_ytp_tobs_c0", "logtc_lgm_c0_tp_ytp_tobs_c1", "logtc_lgm_c0_tp_ylo", "logtc_lgm_c0_tp_yhi",
                 "logtc_lgm_c1", "logtc_c0_ss_x0"},
         ei |-> {"early_index_ylo_x0", "early_index_ylo_ylo", "early_index_ylo_yhi", "early_index_yhi_ylo", "early_index_yhi_yhi",
                 "early_index_yhi_x0", "early_index_lgm_x0"},
         li |-> {"late_index_x0", "late_index_ylo", "late_index_yhi"},
         fec |-> {"fec_t_obs_x0", "fec_lgm_x0", "fec_lgm_ylo_early", "fec_lgm_ylo_late", "fec_lgm_yhi_early", "fec_lgm_yhi_late"},
         ft |-> {"ftpt0_c0_c0", "ftpt0_c0_c1", "ftpt0_c1"},
         tp |-> {"cen_tp_lgm_x0_x0", "cen_tp_t_obs_x0_x0", "cen_tp_x0_ylo_early", "cen_tp_x0_yhi_early", "cen_tp_x0_ylo_late", "cen_tp_x0_yhi_late"} ]
BND == [ lgm0pop_c0_ytp |-> <<10000, 400000>>, lgm0pop_c0_ylo |-> <<-150000, -50000>>, lgm0pop_c0_clip_c0 |-> <<500000, 900000>>,
         lgm0pop_c0_clip_c1 |-> <<-100000, -10000>>, lgm0pop_c0_t_obs_x0 |-> <<1500000, 6000000>>,
         logtc_lgm_c0_tp_ytp_tobs_c0 |-> <<200000, 900000>>, logtc_lgm_c0_tp_ytp_tobs_c1 |-> <<0, 50000>>,
         logtc_lgm_c0_tp_ylo |-> <<20000, 150000>>, logtc_lgm_c0_tp_yhi |-> <<-250000, 0>>, logtc_lgm_c1 |-> <<20000, 150000>>,
         logtc_c0_ss_x0 |-> <<11000000, 13000000>>,
         early_index_ylo_x0 |-> <<1000000, 7000000>>, early_index_ylo_ylo |-> <<1000000, 3500000>>, early_index_ylo_yhi |-> <<500000, 3000000>>,
         early_index_yhi_ylo |-> <<2000000, 4000000>>, early_index_yhi_yhi |-> <<1500000, 4000000>>, early_index_yhi_x0 |-> <<4000000, 13000000>>,
         early_index_lgm_x0 |-> <<12000000, 14000000>>,
         late_index_x0 |-> <<11500000, 14000000>>, late_index_ylo |-> <<10000, 200000>>, late_index_yhi |-> <<10000, 200000>>,
         fec_t_obs_x0 |-> <<5000000, 13000000>>, fec_lgm_x0 |-> <<11000000, 14000000>>,
         fec_lgm_ylo_early |-> <<250000, 750000>>, fec_lgm_ylo_late |-> <<250000, 750000>>,
         fec_lgm_yhi_early |-> <<250000, 750000>>, fec_lgm_yhi_late |-> <<250000, 750000>>,
         ftpt0_c0_c0 |-> <<10000, 990000>>, ftpt0_c0_c1 |-> <<10000, 100000>>, ftpt0_c1 |-> <<10000, 250000>>,
         cen_tp_lgm_x0_x0 |-> <<11000000, 14000000>>, cen_tp_t_obs_x0_x0 |-> <<3000000, 10000000>>,
         cen_tp_x0_ylo_early |-> <<500000, 1000000>>, cen_tp_x0_yhi_early |-> <<1000000, 1800000>>,
         cen_tp_x0_ylo_late |-> <<500000, 1000000>>, cen_tp_x0_yhi_late |-> <<1000000, 1800000>> ]
Lev(k) == LET b == BND[k] IN IF Tier = 0 THEN {b[1], b[2]} ELSE {b[1], (b[1] + b[2]) \div 2, b[2]}
Masses == IF Tier = 0 THEN {10000000, 12000000, 15000000} ELSE {10000000, 11000000, 12000000, 13500000, 15000000}
Times == IF Tier = 0 THEN {2000000, 13800000} ELSE {2000000, 7000000, 13800000}
Peaks == IF Tier = 0 THEN {500000, 9000000} ELSE {500000, 4000000, 9000000, 13800000}
VARIABLES comp, p, todo, m, t, tp
vars == <<comp, p, todo, m, t, tp>>
Init == /\ comp \in DOMAIN Dom /\ p = <<>> /\ todo = Dom[comp]
        /\ m \in Masses /\ t \in Times /\ tp \in Peaks
\* parameters are chosen one after the other, in a fixed order
Choose1 == /\ todo # {}
           /\ LET k == CHOOSE x \in todo : TRUE IN
              \E v \in Lev(k) : p' = (k :> v) @@ p /\ todo' = todo \ {k}
           /\ UNCHANGED <<comp, m, t, tp>>
Next == Choose1
Spec == Init /\ [][Next]_vars
On(c) == todo = {} /\ comp = c
Fractions == /\ On("fec") => LET x == Fec(p, m, t) IN x >= FecMin - 1 /\ x <= FecMax + 1 /\ BetweenOwn(x, FecLo(p, t), FecHi(p, t), 2)
             /\ On("ft") => LET x == Ftpt0(p, m, t) IN x >= 10000 /\ x <= 990000
Peaked == On("tp") => \A u \in {0, 500000, 999999} : LET a == FracPeaked(p, u, m, t) b == FracPeaked(p, u + 1, m, t) IN
             a >= 0 /\ a <= ONE /\ b >= a - 1
Indices == /\ On("ei") => LET x == EarlyIdx(p, "", m, t, tp) IN x > 100000 /\ x < 10 * ONE /\ x >= 499998
           /\ On("li") => LET x == LateIdx(p, "", m) IN x > 100000 /\ x <= 200001
Tc == On("tc") => LET x == Logtc(p, "", m, t, tp) IN x > -ONE /\ x < ONE
Floor0 == On("c0") => LET x == C0(p, "", t, tp) IN x >= C0Floor(p, "", tp) /\ x >= C0Raw(p, "", t) /\ (x = C0Floor(p, "", tp) \/ x = C0Raw(p, "", t))
=============================================================================
