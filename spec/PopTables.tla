---------------------------- MODULE PopTables ----------------------------
EXTENDS Integers
(* Declared limits of every population-model parameter (fixed point), and   *)
(* the parameters of the composite model in their documented order.         *)
PopBounds == [
  ftpt0_c0_c0 |-> <<10000, 990000>>,
  ftpt0_c0_c1 |-> <<10000, 100000>>,
  ftpt0_c1 |-> <<10000, 250000>>,
  early_index_ylo_x0_alpha |-> <<1000000, 7000000>>,
  early_index_ylo_ylo_alpha |-> <<1000000, 3500000>>,
  early_index_ylo_yhi_alpha |-> <<500000, 3000000>>,
  early_index_yhi_ylo_alpha |-> <<2000000, 4000000>>,
  early_index_yhi_yhi_alpha |-> <<1500000, 4000000>>,
  early_index_yhi_x0_alpha |-> <<4000000, 13000000>>,
  early_index_lgm_x0_alpha |-> <<12000000, 14000000>>,
  early_index_ylo_x0_beta |-> <<1000000, 7000000>>,
  early_index_ylo_ylo_beta |-> <<1000000, 3500000>>,
  early_index_ylo_yhi_beta |-> <<500000, 3000000>>,
  early_index_yhi_ylo_beta |-> <<2000000, 4000000>>,
  early_index_yhi_yhi_beta |-> <<1500000, 4000000>>,
  early_index_yhi_x0_beta |-> <<4000000, 13000000>>,
  early_index_lgm_x0_beta |-> <<12000000, 14000000>>,
  early_index_ylo_x0 |-> <<1000000, 7000000>>,
  early_index_ylo_ylo |-> <<1000000, 3500000>>,
  early_index_ylo_yhi |-> <<500000, 3000000>>,
  early_index_yhi_ylo |-> <<2000000, 4000000>>,
  early_index_yhi_yhi |-> <<1500000, 4000000>>,
  early_index_yhi_x0 |-> <<4000000, 13000000>>,
  early_index_lgm_x0 |-> <<12000000, 14000000>>,
  late_index_x0_alpha |-> <<11500000, 14000000>>,
  late_index_ylo_alpha |-> <<10000, 200000>>,
  late_index_yhi_alpha |-> <<10000, 200000>>,
  late_index_x0_beta |-> <<11500000, 14000000>>,
  late_index_ylo_beta |-> <<10000, 200000>>,
  late_index_yhi_beta |-> <<10000, 200000>>,
  logtc_lgm_c0_tp_ytp_tobs_c0_early |-> <<200000, 900000>>,
  logtc_lgm_c0_tp_ytp_tobs_c1_early |-> <<0, 50000>>,
  logtc_lgm_c0_tp_ylo_early |-> <<20000, 150000>>,
  logtc_lgm_c0_tp_yhi_early |-> <<-250000, 0>>,
  logtc_lgm_c1_early |-> <<20000, 150000>>,
  logtc_c0_ss_x0_early |-> <<11000000, 13000000>>,
  logtc_lgm_c0_tp_ytp_tobs_c0_late |-> <<200000, 900000>>,
  logtc_lgm_c0_tp_ytp_tobs_c1_late |-> <<0, 50000>>,
  logtc_lgm_c0_tp_ylo_late |-> <<20000, 150000>>,
  logtc_lgm_c0_tp_yhi_late |-> <<-250000, 0>>,
  logtc_lgm_c1_late |-> <<20000, 150000>>,
  logtc_c0_ss_x0_late |-> <<11000000, 13000000>>,
  fec_t_obs_x0 |-> <<5000000, 13000000>>,
  fec_lgm_x0 |-> <<11000000, 14000000>>,
  fec_lgm_ylo_early |-> <<250000, 750000>>,
  fec_lgm_ylo_late |-> <<250000, 750000>>,
  fec_lgm_yhi_early |-> <<250000, 750000>>,
  fec_lgm_yhi_late |-> <<250000, 750000>>,
  std_u_logm0_ylo |-> <<10000, 100000000>>,
  std_u_logtc_ylo |-> <<10000, 100000000>>,
  std_u_early_ylo |-> <<10000, 100000000>>,
  std_u_late_ylo |-> <<10000, 100000000>>,
  std_u_logm0_yhi |-> <<10000, 100000000>>,
  std_u_logtc_yhi |-> <<10000, 100000000>>,
  std_u_early_yhi |-> <<10000, 100000000>>,
  std_u_late_yhi |-> <<10000, 100000000>>,
  rho_logtc_logm0 |-> <<-300000, 300000>>,
  rho_early_logm0 |-> <<-300000, 300000>>,
  rho_early_logtc |-> <<-300000, 300000>>,
  rho_late_logm0 |-> <<-300000, 300000>>,
  rho_late_logtc |-> <<-300000, 300000>>,
  rho_late_early |-> <<-300000, 300000>>,
  cov_lgm_x0_logm0 |-> <<11500000, 14000000>>,
  cov_lgm_x0_logtc |-> <<11500000, 14000000>>,
  cov_lgm_x0_early |-> <<11500000, 14000000>>,
  cov_lgm_x0_late |-> <<11500000, 14000000>>,
  tpck_scale_boost_early |-> <<10000, 900000>>,
  tpck_scale_mh_lo |-> <<100000, 900000>>,
  tpck_scale_mh_hi |-> <<100000, 900000>>,
  cen_tp_lgm_x0_x0 |-> <<11000000, 14000000>>,
  cen_tp_t_obs_x0_x0 |-> <<3000000, 10000000>>,
  cen_tp_x0_ylo_early |-> <<500000, 1000000>>,
  cen_tp_x0_yhi_early |-> <<1000000, 1800000>>,
  cen_tp_x0_ylo_late |-> <<500000, 1000000>>,
  cen_tp_x0_yhi_late |-> <<1000000, 1800000>>,
  utp_loc_lgm_ylo_t0 |-> <<5000000, 10000000>>,
  utp_loc_lgm_ylo_early |-> <<400000, 800000>>,
  utp_loc_lgm_ylo_late |-> <<150000, 250000>>,
  utp_loc_lgm_x0 |-> <<11000000, 13000000>>,
  utp_scale_lgm_ylo_t0 |-> <<6000000, 11000000>>,
  utp_scale_lgm_ylo_early |-> <<100000, 500000>>,
  utp_scale_lgm_ylo_late |-> <<100000, 600000>>,
  utp_loc |-> <<100100, 999900>>,
  utp_scale |-> <<100, 1000000>>,
  lgm0pop_c0_ytp_early |-> <<10000, 400000>>,
  lgm0pop_c0_ylo_early |-> <<-150000, -50000>>,
  lgm0pop_c0_clip_c0_early |-> <<500000, 900000>>,
  lgm0pop_c0_clip_c1_early |-> <<-100000, -10000>>,
  lgm0pop_c0_t_obs_x0_early |-> <<1500000, 6000000>>,
  lgm0pop_c0_ytp_late |-> <<10000, 400000>>,
  lgm0pop_c0_ylo_late |-> <<-150000, -50000>>,
  lgm0pop_c0_clip_c0_late |-> <<500000, 900000>>,
  lgm0pop_c0_clip_c1_late |-> <<-100000, -10000>>,
  lgm0pop_c0_t_obs_x0_late |-> <<1500000, 6000000>>,
  lgm0pop_c1_ytp_early |-> <<1000, 100000>>,
  lgm0pop_c1_ylo_early |-> <<-50000, -1000>>,
  lgm0pop_c1_clip_x0_early |-> <<4000000, 11000000>>,
  lgm0pop_c1_clip_ylo_early |-> <<20000, 150000>>,
  lgm0pop_c1_clip_yhi_early |-> <<1000, 50000>>,
  lgm0pop_c1_t_obs_x0_early |-> <<3000000, 10000000>>,
  lgm0pop_c1_ytp_late |-> <<1000, 100000>>,
  lgm0pop_c1_ylo_late |-> <<-50000, -1000>>,
  lgm0pop_c1_clip_x0_late |-> <<4000000, 11000000>>,
  lgm0pop_c1_clip_ylo_late |-> <<20000, 150000>>,
  lgm0pop_c1_clip_yhi_late |-> <<1000, 50000>>,
  lgm0pop_c1_t_obs_x0_late |-> <<3000000, 10000000>>,
  lgm0pop_c0_ytp_early_sats |-> <<10000, 400000>>,
  lgm0pop_c0_ylo_early_sats |-> <<-150000, -50000>>,
  lgm0pop_c0_clip_c0_early_sats |-> <<500000, 900000>>,
  lgm0pop_c0_clip_c1_early_sats |-> <<-100000, -10000>>,
  lgm0pop_c0_t_obs_x0_early_sats |-> <<1500000, 6000000>>,
  lgm0pop_c0_ytp_late_sats |-> <<10000, 400000>>,
  lgm0pop_c0_ylo_late_sats |-> <<-150000, -50000>>,
  lgm0pop_c0_clip_c0_late_sats |-> <<500000, 900000>>,
  lgm0pop_c0_clip_c1_late_sats |-> <<-100000, -10000>>,
  lgm0pop_c0_t_obs_x0_late_sats |-> <<1500000, 6000000>>,
  lgm0pop_c1_ytp_early_sats |-> <<1000, 100000>>,
  lgm0pop_c1_ylo_early_sats |-> <<-50000, -1000>>,
  lgm0pop_c1_clip_x0_early_sats |-> <<4000000, 11000000>>,
  lgm0pop_c1_clip_ylo_early_sats |-> <<20000, 150000>>,
  lgm0pop_c1_clip_yhi_early_sats |-> <<1000, 50000>>,
  lgm0pop_c1_t_obs_x0_early_sats |-> <<3000000, 10000000>>,
  lgm0pop_c1_ytp_late_sats |-> <<1000, 100000>>,
  lgm0pop_c1_ylo_late_sats |-> <<-50000, -1000>>,
  lgm0pop_c1_clip_x0_late_sats |-> <<4000000, 11000000>>,
  lgm0pop_c1_clip_ylo_late_sats |-> <<20000, 150000>>,
  lgm0pop_c1_clip_yhi_late_sats |-> <<1000, 50000>>,
  lgm0pop_c1_t_obs_x0_late_sats |-> <<3000000, 10000000>>]
CompositeNames == {"cen_tp_lgm_x0_x0", "cen_tp_t_obs_x0_x0", "cen_tp_x0_ylo_early", "cen_tp_x0_yhi_early", "cen_tp_x0_ylo_late", "cen_tp_x0_yhi_late", "utp_loc_lgm_ylo_t0", "utp_loc_lgm_ylo_early", "utp_loc_lgm_ylo_late", "utp_loc_lgm_x0", "utp_scale_lgm_ylo_t0", "utp_scale_lgm_ylo_early", "utp_scale_lgm_ylo_late", "lgm0pop_c0_ytp_early", "lgm0pop_c0_ylo_early", "lgm0pop_c0_clip_c0_early", "lgm0pop_c0_clip_c1_early", "lgm0pop_c0_t_obs_x0_early", "lgm0pop_c1_ytp_early", "lgm0pop_c1_ylo_early", "lgm0pop_c1_clip_x0_early", "lgm0pop_c1_clip_ylo_early", "lgm0pop_c1_clip_yhi_early", "lgm0pop_c1_t_obs_x0_early", "lgm0pop_c0_ytp_late", "lgm0pop_c0_ylo_late", "lgm0pop_c0_clip_c0_late", "lgm0pop_c0_clip_c1_late", "lgm0pop_c0_t_obs_x0_late", "lgm0pop_c1_ytp_late", "lgm0pop_c1_ylo_late", "lgm0pop_c1_clip_x0_late", "lgm0pop_c1_clip_ylo_late", "lgm0pop_c1_clip_yhi_late", "lgm0pop_c1_t_obs_x0_late", "lgm0pop_c0_ytp_early_sats", "lgm0pop_c0_ylo_early_sats", "lgm0pop_c0_clip_c0_early_sats", "lgm0pop_c0_clip_c1_early_sats", "lgm0pop_c0_t_obs_x0_early_sats", "lgm0pop_c1_ytp_early_sats", "lgm0pop_c1_ylo_early_sats", "lgm0pop_c1_clip_x0_early_sats", "lgm0pop_c1_clip_ylo_early_sats", "lgm0pop_c1_clip_yhi_early_sats", "lgm0pop_c1_t_obs_x0_early_sats", "lgm0pop_c0_ytp_late_sats", "lgm0pop_c0_ylo_late_sats", "lgm0pop_c0_clip_c0_late_sats", "lgm0pop_c0_clip_c1_late_sats", "lgm0pop_c0_t_obs_x0_late_sats", "lgm0pop_c1_ytp_late_sats", "lgm0pop_c1_ylo_late_sats", "lgm0pop_c1_clip_x0_late_sats", "lgm0pop_c1_clip_ylo_late_sats", "lgm0pop_c1_clip_yhi_late_sats", "lgm0pop_c1_t_obs_x0_late_sats", "logtc_lgm_c0_tp_ytp_tobs_c0_early", "logtc_lgm_c0_tp_ytp_tobs_c1_early", "logtc_lgm_c0_tp_ylo_early", "logtc_lgm_c0_tp_yhi_early", "logtc_lgm_c1_early", "logtc_c0_ss_x0_early", "logtc_lgm_c0_tp_ytp_tobs_c0_late", "logtc_lgm_c0_tp_ytp_tobs_c1_late", "logtc_lgm_c0_tp_ylo_late", "logtc_lgm_c0_tp_yhi_late", "logtc_lgm_c1_late", "logtc_c0_ss_x0_late", "early_index_ylo_x0_alpha", "early_index_ylo_ylo_alpha", "early_index_ylo_yhi_alpha", "early_index_yhi_ylo_alpha", "early_index_yhi_yhi_alpha", "early_index_yhi_x0_alpha", "early_index_lgm_x0_alpha", "early_index_ylo_x0_beta", "early_index_ylo_ylo_beta", "early_index_ylo_yhi_beta", "early_index_yhi_ylo_beta", "early_index_yhi_yhi_beta", "early_index_yhi_x0_beta", "early_index_lgm_x0_beta", "late_index_x0_alpha", "late_index_ylo_alpha", "late_index_yhi_alpha", "late_index_x0_beta", "late_index_ylo_beta", "late_index_yhi_beta", "fec_t_obs_x0", "fec_lgm_x0", "fec_lgm_ylo_early", "fec_lgm_ylo_late", "fec_lgm_yhi_early", "fec_lgm_yhi_late", "std_u_logm0_ylo", "std_u_logtc_ylo", "std_u_early_ylo", "std_u_late_ylo", "std_u_logm0_yhi", "std_u_logtc_yhi", "std_u_early_yhi", "std_u_late_yhi", "rho_logtc_logm0", "rho_early_logm0", "rho_early_logtc", "rho_late_logm0", "rho_late_logtc", "rho_late_early", "cov_lgm_x0_logm0", "cov_lgm_x0_logtc", "cov_lgm_x0_early", "cov_lgm_x0_late"}
(* component that owns each parameter, and the formation family it belongs to *)
Owner == [
  cen_tp_lgm_x0_x0 |-> "tpc",
  cen_tp_t_obs_x0_x0 |-> "tpc",
  cen_tp_x0_ylo_early |-> "tpc",
  cen_tp_x0_yhi_early |-> "tpc",
  cen_tp_x0_ylo_late |-> "tpc",
  cen_tp_x0_yhi_late |-> "tpc",
  utp_loc_lgm_ylo_t0 |-> "tps",
  utp_loc_lgm_ylo_early |-> "tps",
  utp_loc_lgm_ylo_late |-> "tps",
  utp_loc_lgm_x0 |-> "tps",
  utp_scale_lgm_ylo_t0 |-> "tps",
  utp_scale_lgm_ylo_early |-> "tps",
  utp_scale_lgm_ylo_late |-> "tps",
  lgm0pop_c0_ytp_early |-> "m0",
  lgm0pop_c0_ylo_early |-> "m0",
  lgm0pop_c0_clip_c0_early |-> "m0",
  lgm0pop_c0_clip_c1_early |-> "m0",
  lgm0pop_c0_t_obs_x0_early |-> "m0",
  lgm0pop_c1_ytp_early |-> "m0",
  lgm0pop_c1_ylo_early |-> "m0",
  lgm0pop_c1_clip_x0_early |-> "m0",
  lgm0pop_c1_clip_ylo_early |-> "m0",
  lgm0pop_c1_clip_yhi_early |-> "m0",
  lgm0pop_c1_t_obs_x0_early |-> "m0",
  lgm0pop_c0_ytp_late |-> "m0",
  lgm0pop_c0_ylo_late |-> "m0",
  lgm0pop_c0_clip_c0_late |-> "m0",
  lgm0pop_c0_clip_c1_late |-> "m0",
  lgm0pop_c0_t_obs_x0_late |-> "m0",
  lgm0pop_c1_ytp_late |-> "m0",
  lgm0pop_c1_ylo_late |-> "m0",
  lgm0pop_c1_clip_x0_late |-> "m0",
  lgm0pop_c1_clip_ylo_late |-> "m0",
  lgm0pop_c1_clip_yhi_late |-> "m0",
  lgm0pop_c1_t_obs_x0_late |-> "m0",
  lgm0pop_c0_ytp_early_sats |-> "m0s",
  lgm0pop_c0_ylo_early_sats |-> "m0s",
  lgm0pop_c0_clip_c0_early_sats |-> "m0s",
  lgm0pop_c0_clip_c1_early_sats |-> "m0s",
  lgm0pop_c0_t_obs_x0_early_sats |-> "m0s",
  lgm0pop_c1_ytp_early_sats |-> "m0s",
  lgm0pop_c1_ylo_early_sats |-> "m0s",
  lgm0pop_c1_clip_x0_early_sats |-> "m0s",
  lgm0pop_c1_clip_ylo_early_sats |-> "m0s",
  lgm0pop_c1_clip_yhi_early_sats |-> "m0s",
  lgm0pop_c1_t_obs_x0_early_sats |-> "m0s",
  lgm0pop_c0_ytp_late_sats |-> "m0s",
  lgm0pop_c0_ylo_late_sats |-> "m0s",
  lgm0pop_c0_clip_c0_late_sats |-> "m0s",
  lgm0pop_c0_clip_c1_late_sats |-> "m0s",
  lgm0pop_c0_t_obs_x0_late_sats |-> "m0s",
  lgm0pop_c1_ytp_late_sats |-> "m0s",
  lgm0pop_c1_ylo_late_sats |-> "m0s",
  lgm0pop_c1_clip_x0_late_sats |-> "m0s",
  lgm0pop_c1_clip_ylo_late_sats |-> "m0s",
  lgm0pop_c1_clip_yhi_late_sats |-> "m0s",
  lgm0pop_c1_t_obs_x0_late_sats |-> "m0s",
  logtc_lgm_c0_tp_ytp_tobs_c0_early |-> "tc",
  logtc_lgm_c0_tp_ytp_tobs_c1_early |-> "tc",
  logtc_lgm_c0_tp_ylo_early |-> "tc",
  logtc_lgm_c0_tp_yhi_early |-> "tc",
  logtc_lgm_c1_early |-> "tc",
  logtc_c0_ss_x0_early |-> "tc",
  logtc_lgm_c0_tp_ytp_tobs_c0_late |-> "tc",
  logtc_lgm_c0_tp_ytp_tobs_c1_late |-> "tc",
  logtc_lgm_c0_tp_ylo_late |-> "tc",
  logtc_lgm_c0_tp_yhi_late |-> "tc",
  logtc_lgm_c1_late |-> "tc",
  logtc_c0_ss_x0_late |-> "tc",
  early_index_ylo_x0_alpha |-> "ei",
  early_index_ylo_ylo_alpha |-> "ei",
  early_index_ylo_yhi_alpha |-> "ei",
  early_index_yhi_ylo_alpha |-> "ei",
  early_index_yhi_yhi_alpha |-> "ei",
  early_index_yhi_x0_alpha |-> "ei",
  early_index_lgm_x0_alpha |-> "ei",
  early_index_ylo_x0_beta |-> "ei",
  early_index_ylo_ylo_beta |-> "ei",
  early_index_ylo_yhi_beta |-> "ei",
  early_index_yhi_ylo_beta |-> "ei",
  early_index_yhi_yhi_beta |-> "ei",
  early_index_yhi_x0_beta |-> "ei",
  early_index_lgm_x0_beta |-> "ei",
  late_index_x0_alpha |-> "li",
  late_index_ylo_alpha |-> "li",
  late_index_yhi_alpha |-> "li",
  late_index_x0_beta |-> "li",
  late_index_ylo_beta |-> "li",
  late_index_yhi_beta |-> "li",
  fec_t_obs_x0 |-> "fec",
  fec_lgm_x0 |-> "fec",
  fec_lgm_ylo_early |-> "fec",
  fec_lgm_ylo_late |-> "fec",
  fec_lgm_yhi_early |-> "fec",
  fec_lgm_yhi_late |-> "fec",
  std_u_logm0_ylo |-> "cov",
  std_u_logtc_ylo |-> "cov",
  std_u_early_ylo |-> "cov",
  std_u_late_ylo |-> "cov",
  std_u_logm0_yhi |-> "cov",
  std_u_logtc_yhi |-> "cov",
  std_u_early_yhi |-> "cov",
  std_u_late_yhi |-> "cov",
  rho_logtc_logm0 |-> "cov",
  rho_early_logm0 |-> "cov",
  rho_early_logtc |-> "cov",
  rho_late_logm0 |-> "cov",
  rho_late_logtc |-> "cov",
  rho_late_early |-> "cov",
  cov_lgm_x0_logm0 |-> "cov",
  cov_lgm_x0_logtc |-> "cov",
  cov_lgm_x0_early |-> "cov",
  cov_lgm_x0_late |-> "cov"]
Family == [
  cen_tp_lgm_x0_x0 |-> "both",
  cen_tp_t_obs_x0_x0 |-> "both",
  cen_tp_x0_ylo_early |-> "both",
  cen_tp_x0_yhi_early |-> "both",
  cen_tp_x0_ylo_late |-> "both",
  cen_tp_x0_yhi_late |-> "both",
  utp_loc_lgm_ylo_t0 |-> "both",
  utp_loc_lgm_ylo_early |-> "both",
  utp_loc_lgm_ylo_late |-> "both",
  utp_loc_lgm_x0 |-> "both",
  utp_scale_lgm_ylo_t0 |-> "both",
  utp_scale_lgm_ylo_early |-> "both",
  utp_scale_lgm_ylo_late |-> "both",
  lgm0pop_c0_ytp_early |-> "early",
  lgm0pop_c0_ylo_early |-> "early",
  lgm0pop_c0_clip_c0_early |-> "early",
  lgm0pop_c0_clip_c1_early |-> "early",
  lgm0pop_c0_t_obs_x0_early |-> "early",
  lgm0pop_c1_ytp_early |-> "early",
  lgm0pop_c1_ylo_early |-> "early",
  lgm0pop_c1_clip_x0_early |-> "early",
  lgm0pop_c1_clip_ylo_early |-> "early",
  lgm0pop_c1_clip_yhi_early |-> "early",
  lgm0pop_c1_t_obs_x0_early |-> "early",
  lgm0pop_c0_ytp_late |-> "late",
  lgm0pop_c0_ylo_late |-> "late",
  lgm0pop_c0_clip_c0_late |-> "late",
  lgm0pop_c0_clip_c1_late |-> "late",
  lgm0pop_c0_t_obs_x0_late |-> "late",
  lgm0pop_c1_ytp_late |-> "late",
  lgm0pop_c1_ylo_late |-> "late",
  lgm0pop_c1_clip_x0_late |-> "late",
  lgm0pop_c1_clip_ylo_late |-> "late",
  lgm0pop_c1_clip_yhi_late |-> "late",
  lgm0pop_c1_t_obs_x0_late |-> "late",
  lgm0pop_c0_ytp_early_sats |-> "early",
  lgm0pop_c0_ylo_early_sats |-> "early",
  lgm0pop_c0_clip_c0_early_sats |-> "early",
  lgm0pop_c0_clip_c1_early_sats |-> "early",
  lgm0pop_c0_t_obs_x0_early_sats |-> "early",
  lgm0pop_c1_ytp_early_sats |-> "early",
  lgm0pop_c1_ylo_early_sats |-> "early",
  lgm0pop_c1_clip_x0_early_sats |-> "early",
  lgm0pop_c1_clip_ylo_early_sats |-> "early",
  lgm0pop_c1_clip_yhi_early_sats |-> "early",
  lgm0pop_c1_t_obs_x0_early_sats |-> "early",
  lgm0pop_c0_ytp_late_sats |-> "late",
  lgm0pop_c0_ylo_late_sats |-> "late",
  lgm0pop_c0_clip_c0_late_sats |-> "late",
  lgm0pop_c0_clip_c1_late_sats |-> "late",
  lgm0pop_c0_t_obs_x0_late_sats |-> "late",
  lgm0pop_c1_ytp_late_sats |-> "late",
  lgm0pop_c1_ylo_late_sats |-> "late",
  lgm0pop_c1_clip_x0_late_sats |-> "late",
  lgm0pop_c1_clip_ylo_late_sats |-> "late",
  lgm0pop_c1_clip_yhi_late_sats |-> "late",
  lgm0pop_c1_t_obs_x0_late_sats |-> "late",
  logtc_lgm_c0_tp_ytp_tobs_c0_early |-> "early",
  logtc_lgm_c0_tp_ytp_tobs_c1_early |-> "early",
  logtc_lgm_c0_tp_ylo_early |-> "early",
  logtc_lgm_c0_tp_yhi_early |-> "early",
  logtc_lgm_c1_early |-> "early",
  logtc_c0_ss_x0_early |-> "early",
  logtc_lgm_c0_tp_ytp_tobs_c0_late |-> "late",
  logtc_lgm_c0_tp_ytp_tobs_c1_late |-> "late",
  logtc_lgm_c0_tp_ylo_late |-> "late",
  logtc_lgm_c0_tp_yhi_late |-> "late",
  logtc_lgm_c1_late |-> "late",
  logtc_c0_ss_x0_late |-> "late",
  early_index_ylo_x0_alpha |-> "early",
  early_index_ylo_ylo_alpha |-> "early",
  early_index_ylo_yhi_alpha |-> "early",
  early_index_yhi_ylo_alpha |-> "early",
  early_index_yhi_yhi_alpha |-> "early",
  early_index_yhi_x0_alpha |-> "early",
  early_index_lgm_x0_alpha |-> "early",
  early_index_ylo_x0_beta |-> "late",
  early_index_ylo_ylo_beta |-> "late",
  early_index_ylo_yhi_beta |-> "late",
  early_index_yhi_ylo_beta |-> "late",
  early_index_yhi_yhi_beta |-> "late",
  early_index_yhi_x0_beta |-> "late",
  early_index_lgm_x0_beta |-> "late",
  late_index_x0_alpha |-> "early",
  late_index_ylo_alpha |-> "early",
  late_index_yhi_alpha |-> "early",
  late_index_x0_beta |-> "late",
  late_index_ylo_beta |-> "late",
  late_index_yhi_beta |-> "late",
  fec_t_obs_x0 |-> "both",
  fec_lgm_x0 |-> "both",
  fec_lgm_ylo_early |-> "both",
  fec_lgm_ylo_late |-> "both",
  fec_lgm_yhi_early |-> "both",
  fec_lgm_yhi_late |-> "both",
  std_u_logm0_ylo |-> "both",
  std_u_logtc_ylo |-> "both",
  std_u_early_ylo |-> "both",
  std_u_late_ylo |-> "both",
  std_u_logm0_yhi |-> "both",
  std_u_logtc_yhi |-> "both",
  std_u_early_yhi |-> "both",
  std_u_late_yhi |-> "both",
  rho_logtc_logm0 |-> "both",
  rho_early_logm0 |-> "both",
  rho_early_logtc |-> "both",
  rho_late_logm0 |-> "both",
  rho_late_logtc |-> "both",
  rho_late_early |-> "both",
  cov_lgm_x0_logm0 |-> "both",
  cov_lgm_x0_logtc |-> "both",
  cov_lgm_x0_early |-> "both",
  cov_lgm_x0_late |-> "both"]
=============================================================================
