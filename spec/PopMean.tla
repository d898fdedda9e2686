------------------------------- MODULE PopMean -------------------------------
(***************************************************************************)
(* Mean predictions of the population model.  p is a population parameter  *)
(* set (a record name -> value), f the family suffix ("_early", "_late",   *)
(* "_early_sats", ...; "_alpha"/"_beta" for the indices).  Every formula   *)
(* is built from the sigmoid and the sigmoid of a slope.                   *)
(***************************************************************************)
EXTENDS Fix, FiniteSets
LGMP == 12 * ONE
EPS3 == 1000
\* ---------------------------------------------------------------- logm0
C0Raw(p, f, t) == SigSlope(t, 15 * ONE, p["lgm0pop_c0_ytp" \o f], p["lgm0pop_c0_t_obs_x0" \o f], 250000, p["lgm0pop_c0_ylo" \o f], 0)
C0Floor(p, f, tp) == p["lgm0pop_c0_clip_c0" \o f] + Mul(p["lgm0pop_c0_clip_c1" \o f], tp)
C0(p, f, t, tp) == Max2(C0Raw(p, f, t), C0Floor(p, f, tp))
C1Raw(p, f, t) == SigSlope(t, 10 * ONE, p["lgm0pop_c1_ytp" \o f], p["lgm0pop_c1_t_obs_x0" \o f], 250000, p["lgm0pop_c1_ylo" \o f], 0)
C1Floor(p, f, tp) == Sigmoid(tp, p["lgm0pop_c1_clip_x0" \o f], ONE, p["lgm0pop_c1_clip_ylo" \o f], p["lgm0pop_c1_clip_yhi" \o f])
C1(p, f, t, tp) == Max2(C1Raw(p, f, t), C1Floor(p, f, tp))
Logm0(p, f, m, t, tp) == Clip(m + C0(p, f, t, tp) + Mul(C1(p, f, t, tp), m - LGMP), EPS3, 17 * ONE - EPS3)
\* ---------------------------------------------------------------- logtc
TcPivot(p, f, t) == p["logtc_lgm_c0_tp_ytp_tobs_c0" \o f] + Mul(p["logtc_lgm_c0_tp_ytp_tobs_c1" \o f], t)
Logtc(p, f, m, t, tp) ==
  Clip(SigSlope(tp, 10 * ONE, TcPivot(p, f, t), p["logtc_c0_ss_x0" \o f], 500000,
                p["logtc_lgm_c0_tp_ylo" \o f], p["logtc_lgm_c0_tp_yhi" \o f])
       + Mul(p["logtc_lgm_c1" \o f], m - LGMP), EPS3 - ONE, ONE - EPS3)
\* ---------------------------------------------------------------- indices
EarlyIdx(p, f, m, t, tp) ==
  LET lo == Sigmoid(tp, p["early_index_ylo_x0" \o f], ONE, p["early_index_ylo_ylo" \o f], p["early_index_ylo_yhi" \o f])
      hi == Sigmoid(t, p["early_index_yhi_x0" \o f], 500000, p["early_index_yhi_ylo" \o f], p["early_index_yhi_yhi" \o f])
  IN  Clip(Sigmoid(m, p["early_index_lgm_x0" \o f], ONE, lo, hi), 100000 + EPS3, 10 * ONE - EPS3)
LateIdx(p, f, m) == Clip(Sigmoid(m, p["late_index_x0" \o f], ONE, p["late_index_ylo" \o f], p["late_index_yhi" \o f]),
                         100000 + EPS3, 5 * ONE - EPS3)
\* ---------------------------------------------------------------- fractions
FecLo(p, t) == Sigmoid(t, p["fec_t_obs_x0"], ONE, p["fec_lgm_ylo_early"], p["fec_lgm_ylo_late"])
FecHi(p, t) == Sigmoid(t, p["fec_t_obs_x0"], ONE, p["fec_lgm_yhi_early"], p["fec_lgm_yhi_late"])
Fec(p, m, t) == Sigmoid(m, p["fec_lgm_x0"], 4 * ONE, FecLo(p, t), FecHi(p, t))
FecMin == 250000
FecMax == 750000
Ftpt0(p, m, t) ==
  Clip(Clip(p["ftpt0_c0_c0"] + Mul(p["ftpt0_c0_c1"], t - 10 * ONE), 10000, 990000) + Mul(p["ftpt0_c1"], m - LGMP), 10000, 990000)
\* ---------------------------------------------------------------- peak times
PeakX0(p, m, t) ==
  Sigmoid(t, p["cen_tp_t_obs_x0_x0"], 2 * ONE,
          Sigmoid(m, p["cen_tp_lgm_x0_x0"], ONE, p["cen_tp_x0_ylo_early"], p["cen_tp_x0_yhi_early"]),
          Sigmoid(m, p["cen_tp_lgm_x0_x0"], ONE, p["cen_tp_x0_ylo_late"], p["cen_tp_x0_yhi_late"]))
FracPeaked(p, u, m, t) == Sigmoid(u, PeakX0(p, m, t), 5 * ONE, 0, ONE)
SatLoc(p, m, t) ==
  Sigmoid(m, p["utp_loc_lgm_x0"], 1500000,
          Sigmoid(t, p["utp_loc_lgm_ylo_t0"], 400000, p["utp_loc_lgm_ylo_early"], p["utp_loc_lgm_ylo_late"]), 950000)
SatScale(p, m, t) ==
  Sigmoid(m, LGMP, ONE,
          Sigmoid(t, p["utp_scale_lgm_ylo_t0"], ONE, p["utp_scale_lgm_ylo_early"], p["utp_scale_lgm_ylo_late"]), 160000)
\* older single-population centrals: truncated normal of t_peak/t_0
CenScale(p, m, t, t0) == Sigmoid(m, 12500000, 2 * ONE, p["tpck_scale_mh_lo"], p["tpck_scale_mh_hi"])
                         + Sigmoid(t, t0 \div 2, ONE, p["tpck_scale_boost_early"], 0)
\* ---------------------------------------------------------------- one halo
MeanParams(p, e, i, m, t, tp) == << Logm0(p, e, m, t, tp), 0, EarlyIdx(p, i, m, t, tp), LateIdx(p, i, m) >>
LO == << 0, -ONE, 100000, 100000, 0 >>
HI == << 17 * ONE, ONE, 10 * ONE, 5 * ONE, 2000000000 >>
InBounds(v) == \A k \in 1..4 : Finite(v[k]) /\ LO[k] < v[k] /\ v[k] < HI[k]
BetweenOwn(x, a, b, tol) == x >= Min2(a, b) - tol /\ x <= Max2(a, b) + tol
=============================================================================
