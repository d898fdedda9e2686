From 8219155bbcecc28893c73a51de95f25eece48cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:50 +0000
Subject: [PATCH 01/16] fix: keep early and late late_index parameters separate
 in bounding transforms

---
 diffmah/diffmahpop_kernels/late_index_bimod.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/diffmah/diffmahpop_kernels/late_index_bimod.py b/diffmah/diffmahpop_kernels/late_index_bimod.py
index cce4680..79856f4 100644
--- a/diffmah/diffmahpop_kernels/late_index_bimod.py
+++ b/diffmah/diffmahpop_kernels/late_index_bimod.py
@@ -35,12 +35,12 @@ def _pred_late_index_late(params, lgm_obs):
 
 @jjit
 def get_bounded_late_index_params(u_params):
-    late_u_params = [
+    early_u_params = [
         getattr(u_params, key)
         for key in late_index_alpha.DEFAULT_LATE_INDEX_U_PARAMS._fields
     ]
-    late_u_params = late_index_alpha.LateIndex_UParams(*late_u_params)
-    late_params = late_index_alpha.get_bounded_late_index_params(late_u_params)
+    early_u_params = late_index_alpha.LateIndex_UParams(*early_u_params)
+    early_params = late_index_alpha.get_bounded_late_index_params(early_u_params)
 
     late_u_params = [
         getattr(u_params, key)
@@ -49,24 +49,24 @@ def get_bounded_late_index_params(u_params):
     late_u_params = late_index_beta.LateIndex_UParams(*late_u_params)
     late_params = late_index_beta.get_bounded_late_index_params(late_u_params)
 
-    params = LateIndex_Params(*late_params, *late_params)
+    params = LateIndex_Params(*early_params, *late_params)
     return params
 
 
 @jjit
 def get_unbounded_late_index_params(params):
-    late_pnames = late_index_alpha.LateIndex_Params._fields
+    early_pnames = late_index_alpha.LateIndex_Params._fields
     late_pnames = late_index_beta.LateIndex_Params._fields
 
-    late_params = [getattr(params, key) for key in late_pnames]
-    late_params = late_index_alpha.LateIndex_Params(*late_params)
-    late_u_params = late_index_alpha.get_unbounded_late_index_params(late_params)
+    early_params = [getattr(params, key) for key in early_pnames]
+    early_params = late_index_alpha.LateIndex_Params(*early_params)
+    early_u_params = late_index_alpha.get_unbounded_late_index_params(early_params)
 
     late_params = [getattr(params, key) for key in late_pnames]
     late_params = late_index_beta.LateIndex_Params(*late_params)
     late_u_params = late_index_beta.get_unbounded_late_index_params(late_params)
 
-    u_params = LateIndex_UParams(*late_u_params, *late_u_params)
+    u_params = LateIndex_UParams(*early_u_params, *late_u_params)
     return u_params
 
 
-- 
2.43.0


From e438f2f2fd71e6069e3f6b5c34d5d771c225a7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:27 +0000
Subject: [PATCH 02/16] fix: draw t_peak and halo shape noise from independent
 PRNG keys

---
 diffmah/diffmahpop_kernels/mc_bimod_cens.py | 7 ++++---
 diffmah/diffmahpop_kernels/mc_bimod_sats.py | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/diffmah/diffmahpop_kernels/mc_bimod_cens.py b/diffmah/diffmahpop_kernels/mc_bimod_cens.py
index eae8bc4..2a8ab85 100644
--- a/diffmah/diffmahpop_kernels/mc_bimod_cens.py
+++ b/diffmah/diffmahpop_kernels/mc_bimod_cens.py
@@ -185,11 +185,13 @@ def _mean_diffmah_params_late_t_peak(
 def mc_diffmah_params_singlecen(
     diffmahpop_params, lgm_obs, t_obs, ran_key, lgt0, t_peak=None
 ):
+    early_key, late_key, tp_key = jran.split(ran_key, 3)
+
     if t_peak is None:
-        _res = _mean_diffmah_params(diffmahpop_params, lgm_obs, t_obs, ran_key, lgt0)
+        _res = _mean_diffmah_params(diffmahpop_params, lgm_obs, t_obs, tp_key, lgt0)
     else:
         _res = _mean_diffmah_params_t_peak(
-            diffmahpop_params, lgm_obs, t_obs, t_peak, ran_key
+            diffmahpop_params, lgm_obs, t_obs, t_peak, tp_key
         )
 
     mean_mah_params_early, mean_mah_params_late, frac_early_cens = _res
@@ -199,7 +201,6 @@ def mc_diffmah_params_singlecen(
 
     cov = _get_diffmahpop_cov(diffmahpop_params, lgm_obs)
 
-    early_key, late_key = jran.split(ran_key, 2)
     ran_diffmah_u_params_tp_early = jran.multivariate_normal(
         early_key, jnp.array(mean_mah_u_params_early)[:-1], cov, shape=()
     )
diff --git a/diffmah/diffmahpop_kernels/mc_bimod_sats.py b/diffmah/diffmahpop_kernels/mc_bimod_sats.py
index d785a60..abec5a6 100644
--- a/diffmah/diffmahpop_kernels/mc_bimod_sats.py
+++ b/diffmah/diffmahpop_kernels/mc_bimod_sats.py
@@ -185,11 +185,13 @@ def _mean_diffmah_params_late_t_peak(
 def mc_diffmah_params_singlesat(
     diffmahpop_params, lgm_obs, t_obs, ran_key, lgt0, t_peak=None
 ):
+    early_key, late_key, tp_key = jran.split(ran_key, 3)
+
     if t_peak is None:
-        _res = _mean_diffmah_params(diffmahpop_params, lgm_obs, t_obs, ran_key, lgt0)
+        _res = _mean_diffmah_params(diffmahpop_params, lgm_obs, t_obs, tp_key, lgt0)
     else:
         _res = _mean_diffmah_params_t_peak(
-            diffmahpop_params, lgm_obs, t_obs, t_peak, ran_key
+            diffmahpop_params, lgm_obs, t_obs, t_peak, tp_key
         )
 
     mean_mah_params_early, mean_mah_params_late, frac_early_cens = _res
@@ -199,7 +201,6 @@ def mc_diffmah_params_singlesat(
 
     cov = _get_diffmahpop_cov(diffmahpop_params, lgm_obs)
 
-    early_key, late_key = jran.split(ran_key, 2)
     ran_diffmah_u_params_tp_early = jran.multivariate_normal(
         early_key, jnp.array(mean_mah_u_params_early)[:-1], cov, shape=()
     )
-- 
2.43.0


From 0c4a1b64d066ba3fa4709293467d1d00a0a2e436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:11 +0000
Subject: [PATCH 03/16] fix: clip mean logm0 to its bounds so that sampled
 halos are never NaN

---
 .../bimod_logm0_kernels/logm0_pop_early.py                | 8 +++++++-
 .../bimod_logm0_kernels/logm0_pop_late.py                 | 8 +++++++-
 .../bimod_logm0_sats/logm0_pop_early.py                   | 8 +++++++-
 .../diffmahpop_kernels/bimod_logm0_sats/logm0_pop_late.py | 8 +++++++-
 4 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_pop_early.py b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_pop_early.py
index e4f85cf..9717e9b 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_pop_early.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_pop_early.py
@@ -4,7 +4,9 @@
 from collections import OrderedDict, namedtuple
 
 from jax import jit as jjit
+from jax import numpy as jnp
 
+from ...diffmah_kernels import MAH_PBOUNDS
 from . import logm0_c0_early, logm0_c1_early
 
 DEFAULT_LOGM0_PDICT = OrderedDict()
@@ -23,6 +25,7 @@ DEFAULT_LOGM0_BOUNDS_DICT.update(logm0_c1_early.LGM0POP_C1_BOUNDS_DICT)
 LGM0POP_BOUNDS = LGM0Pop_Params(**DEFAULT_LOGM0_BOUNDS_DICT)
 
 TP_LGMP = 12.0
+EPS = 1e-3
 
 
 @jjit
@@ -30,7 +33,10 @@ def _pred_logm0_kern(logm0_params, lgm_obs, t_obs, t_peak):
     c0 = logm0_c0_early._pred_c0_kern(logm0_params, t_obs, t_peak)
     c1 = logm0_c1_early._pred_c1_kern(logm0_params, t_obs, t_peak)
     delta_lgm = c0 + c1 * (lgm_obs - TP_LGMP)
-    return lgm_obs + delta_lgm
+    logm0 = lgm_obs + delta_lgm
+    ylo, yhi = MAH_PBOUNDS.logm0
+    logm0 = jnp.clip(logm0, ylo + EPS, yhi - EPS)
+    return logm0
 
 
 @jjit
diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_pop_late.py b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_pop_late.py
index b449ce5..1ca35f9 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_pop_late.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_pop_late.py
@@ -4,7 +4,9 @@
 from collections import OrderedDict, namedtuple
 
 from jax import jit as jjit
+from jax import numpy as jnp
 
+from ...diffmah_kernels import MAH_PBOUNDS
 from . import logm0_c0_late, logm0_c1_late
 
 DEFAULT_LOGM0_PDICT = OrderedDict()
@@ -23,6 +25,7 @@ DEFAULT_LOGM0_BOUNDS_DICT.update(logm0_c1_late.LGM0POP_C1_BOUNDS_DICT)
 LGM0POP_BOUNDS = LGM0Pop_Params(**DEFAULT_LOGM0_BOUNDS_DICT)
 
 TP_LGMP = 12.0
+EPS = 1e-3
 
 
 @jjit
@@ -30,7 +33,10 @@ def _pred_logm0_kern(logm0_params, lgm_obs, t_obs, t_peak):
     c0 = logm0_c0_late._pred_c0_kern(logm0_params, t_obs, t_peak)
     c1 = logm0_c1_late._pred_c1_kern(logm0_params, t_obs, t_peak)
     delta_lgm = c0 + c1 * (lgm_obs - TP_LGMP)
-    return lgm_obs + delta_lgm
+    logm0 = lgm_obs + delta_lgm
+    ylo, yhi = MAH_PBOUNDS.logm0
+    logm0 = jnp.clip(logm0, ylo + EPS, yhi - EPS)
+    return logm0
 
 
 @jjit
diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_pop_early.py b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_pop_early.py
index e4f85cf..9717e9b 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_pop_early.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_pop_early.py
@@ -4,7 +4,9 @@
 from collections import OrderedDict, namedtuple
 
 from jax import jit as jjit
+from jax import numpy as jnp
 
+from ...diffmah_kernels import MAH_PBOUNDS
 from . import logm0_c0_early, logm0_c1_early
 
 DEFAULT_LOGM0_PDICT = OrderedDict()
@@ -23,6 +25,7 @@ DEFAULT_LOGM0_BOUNDS_DICT.update(logm0_c1_early.LGM0POP_C1_BOUNDS_DICT)
 LGM0POP_BOUNDS = LGM0Pop_Params(**DEFAULT_LOGM0_BOUNDS_DICT)
 
 TP_LGMP = 12.0
+EPS = 1e-3
 
 
 @jjit
@@ -30,7 +33,10 @@ def _pred_logm0_kern(logm0_params, lgm_obs, t_obs, t_peak):
     c0 = logm0_c0_early._pred_c0_kern(logm0_params, t_obs, t_peak)
     c1 = logm0_c1_early._pred_c1_kern(logm0_params, t_obs, t_peak)
     delta_lgm = c0 + c1 * (lgm_obs - TP_LGMP)
-    return lgm_obs + delta_lgm
+    logm0 = lgm_obs + delta_lgm
+    ylo, yhi = MAH_PBOUNDS.logm0
+    logm0 = jnp.clip(logm0, ylo + EPS, yhi - EPS)
+    return logm0
 
 
 @jjit
diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_pop_late.py b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_pop_late.py
index b449ce5..1ca35f9 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_pop_late.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_pop_late.py
@@ -4,7 +4,9 @@
 from collections import OrderedDict, namedtuple
 
 from jax import jit as jjit
+from jax import numpy as jnp
 
+from ...diffmah_kernels import MAH_PBOUNDS
 from . import logm0_c0_late, logm0_c1_late
 
 DEFAULT_LOGM0_PDICT = OrderedDict()
@@ -23,6 +25,7 @@ DEFAULT_LOGM0_BOUNDS_DICT.update(logm0_c1_late.LGM0POP_C1_BOUNDS_DICT)
 LGM0POP_BOUNDS = LGM0Pop_Params(**DEFAULT_LOGM0_BOUNDS_DICT)
 
 TP_LGMP = 12.0
+EPS = 1e-3
 
 
 @jjit
@@ -30,7 +33,10 @@ def _pred_logm0_kern(logm0_params, lgm_obs, t_obs, t_peak):
     c0 = logm0_c0_late._pred_c0_kern(logm0_params, t_obs, t_peak)
     c1 = logm0_c1_late._pred_c1_kern(logm0_params, t_obs, t_peak)
     delta_lgm = c0 + c1 * (lgm_obs - TP_LGMP)
-    return lgm_obs + delta_lgm
+    logm0 = lgm_obs + delta_lgm
+    ylo, yhi = MAH_PBOUNDS.logm0
+    logm0 = jnp.clip(logm0, ylo + EPS, yhi - EPS)
+    return logm0
 
 
 @jjit
-- 
2.43.0


From 38b9e85c3ed3d6bd83ac80621abefebbfb690313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:33 +0000
Subject: [PATCH 04/16] fix: never fit MAH points at or below the minimum
 fitting mass

---
 diffmah/fitting_helpers/diffmah_fitter_helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diffmah/fitting_helpers/diffmah_fitter_helpers.py b/diffmah/fitting_helpers/diffmah_fitter_helpers.py
index 8134b52..0d40b40 100644
--- a/diffmah/fitting_helpers/diffmah_fitter_helpers.py
+++ b/diffmah/fitting_helpers/diffmah_fitter_helpers.py
@@ -239,8 +239,8 @@ def _get_target_data(t_sim, log_mah_sim, lgm_min, dlogm_cut, t_fit_min):
 
 def _get_clipped_log_mah(mah, lgm_min):
     msk = mah <= 10**lgm_min
-    clip = EPSILON + 10**lgm_min
-    clipped_log_mah = np.log10(np.where(msk, clip, mah))
+    lgm_clip = max(float(np.log10(EPSILON)), lgm_min)
+    clipped_log_mah = np.where(msk, lgm_clip, np.log10(np.where(msk, 1.0, mah)))
     return clipped_log_mah
 
 
-- 
2.43.0


From eb46bec74f85c5247a2e204449e0d16d000bbf2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:33 +0000
Subject: [PATCH 05/16] fix: load_flat_hdf5 returns the column names of nested
 datasets

---
 diffmah/data_loaders/io_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diffmah/data_loaders/io_utils.py b/diffmah/data_loaders/io_utils.py
index 154a34d..2beb09b 100644
--- a/diffmah/data_loaders/io_utils.py
+++ b/diffmah/data_loaders/io_utils.py
@@ -58,7 +58,7 @@ def load_flat_hdf5(fn, istart=0, iend=None, keys=None, dataset=None):
             if dataset is None:
                 key_out = key_in
             else:
-                key_out = key_in.split("/")[1]
+                key_out = key_in[len(dataset) + 1 :]
 
             if iend is None:
                 data[key_out] = hdf[key_in][istart:]
-- 
2.43.0


From 5f3c5381920bd765a45a0e021518d1546b2755ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:33 +0000
Subject: [PATCH 06/16] fix: import the fitter helpers used by the Discovery
 sims fitting script

---
 .../hacc_discovery_sims_diffmah_fitter_script.py                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py b/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
index 58d75a5..c0db73d 100644
--- a/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
@@ -9,8 +9,8 @@ from time import time
 import numpy as np
 from mpi4py import MPI
 
-from diffmah import fitting_helpers as cfh
 from diffmah.data_loaders.load_hacc_mahs import load_mahs_per_rank
+from diffmah.fitting_helpers import diffmah_fitter_helpers as cfh
 
 TMP_OUTPAT = "tmp_mah_fits_rank_{0}.dat"
 
-- 
2.43.0


From fcf1ebe0762bbd01630172ea7ca6713e2de44ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:33 +0000
Subject: [PATCH 07/16] fix: Last Journey fitting script skipped the final
 subvolume by default

---
 .../hacc_lastjourney_diffmah_fitter_script.py              | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py b/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py
index 2f40e83..afc2944 100644
--- a/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py
@@ -34,7 +34,12 @@ if __name__ == "__main__":
     parser.add_argument("outbase", help="Basename of the output hdf5 file")
     parser.add_argument("-test", help="Short test run?", type=bool, default=False)
     parser.add_argument("-istart", help="First subvolume in loop", type=int, default=0)
-    parser.add_argument("-iend", help="Last subvolume in loop", type=int, default=-1)
+    parser.add_argument(
+        "-iend",
+        help="Last subvolume in loop",
+        type=int,
+        default=NUM_SUBVOLS_LASTJOURNEY,
+    )
     parser.add_argument("-nstep", help="Number of gd steps", type=int, default=200)
     parser.add_argument("-nchunks", help="Number of chunks", type=int, default=NCHUNKS)
     parser.add_argument(
-- 
2.43.0


From 4d06aeaffca036b41c89308b2d11cc177a38b18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:57 +0000
Subject: [PATCH 08/16] fix: collate fits when a rank has only one halo or none

---
 scripts/fitting_scripts/bolshoi_planck_fitting_script.py     | 5 +++--
 scripts/fitting_scripts/galacticus_diffmah_fitter_script.py  | 5 +++--
 .../hacc_discovery_sims_diffmah_fitter_script.py             | 5 +++--
 .../hacc_lastjourney_diffmah_fitter_script.py                | 5 +++--
 scripts/fitting_scripts/tng_diffmah_fitter_script.py         | 5 +++--
 5 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/scripts/fitting_scripts/bolshoi_planck_fitting_script.py b/scripts/fitting_scripts/bolshoi_planck_fitting_script.py
index 3aa0734..c9fb9b9 100644
--- a/scripts/fitting_scripts/bolshoi_planck_fitting_script.py
+++ b/scripts/fitting_scripts/bolshoi_planck_fitting_script.py
@@ -114,8 +114,9 @@ if __name__ == "__main__":
         collector = []
         for fit_fn in fit_data_fnames:
             assert os.path.isfile(fit_fn)
-            fit_data = np.genfromtxt(fit_fn, dtype="str")
-            collector.append(fit_data)
+            fit_data = np.genfromtxt(fit_fn, dtype="str", ndmin=2)
+            if fit_data.size > 0:
+                collector.append(fit_data)
         chunk_fit_results = np.concatenate(collector)
 
         fit_data_bnames = [os.path.basename(fn) for fn in fit_data_fnames]
diff --git a/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py b/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py
index 2d6d380..d92674c 100644
--- a/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py
@@ -119,8 +119,9 @@ if __name__ == "__main__":
         collector = []
         for fit_fn in fit_data_fnames:
             assert os.path.isfile(fit_fn)
-            fit_data = np.genfromtxt(fit_fn, dtype="str")
-            collector.append(fit_data)
+            fit_data = np.genfromtxt(fit_fn, dtype="str", ndmin=2)
+            if fit_data.size > 0:
+                collector.append(fit_data)
         chunk_fit_results = np.concatenate(collector)
 
         fit_data_bnames = [os.path.basename(fn) for fn in fit_data_fnames]
diff --git a/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py b/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
index c0db73d..0a0fc38 100644
--- a/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
@@ -131,8 +131,9 @@ if __name__ == "__main__":
                 collector = []
                 for fit_fn in fit_data_fnames:
                     assert os.path.isfile(fit_fn)
-                    fit_data = np.genfromtxt(fit_fn, dtype="str")
-                    collector.append(fit_data)
+                    fit_data = np.genfromtxt(fit_fn, dtype="str", ndmin=2)
+                    if fit_data.size > 0:
+                        collector.append(fit_data)
                 chunk_fit_results = np.concatenate(collector)
 
                 fit_data_bnames = [os.path.basename(fn) for fn in fit_data_fnames]
diff --git a/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py b/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py
index afc2944..2172aee 100644
--- a/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py
@@ -134,8 +134,9 @@ if __name__ == "__main__":
                 collector = []
                 for fit_fn in fit_data_fnames:
                     assert os.path.isfile(fit_fn)
-                    fit_data = np.genfromtxt(fit_fn, dtype="str")
-                    collector.append(fit_data)
+                    fit_data = np.genfromtxt(fit_fn, dtype="str", ndmin=2)
+                    if fit_data.size > 0:
+                        collector.append(fit_data)
                 chunk_fit_results = np.concatenate(collector)
 
                 fit_data_bnames = [os.path.basename(fn) for fn in fit_data_fnames]
diff --git a/scripts/fitting_scripts/tng_diffmah_fitter_script.py b/scripts/fitting_scripts/tng_diffmah_fitter_script.py
index d92a231..a58f981 100644
--- a/scripts/fitting_scripts/tng_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/tng_diffmah_fitter_script.py
@@ -95,8 +95,9 @@ if __name__ == "__main__":
         collector = []
         for fit_fn in fit_data_fnames:
             assert os.path.isfile(fit_fn)
-            fit_data = np.genfromtxt(fit_fn, dtype="str")
-            collector.append(fit_data)
+            fit_data = np.genfromtxt(fit_fn, dtype="str", ndmin=2)
+            if fit_data.size > 0:
+                collector.append(fit_data)
         chunk_fit_results = np.concatenate(collector)
 
         fit_data_bnames = [os.path.basename(fn) for fn in fit_data_fnames]
-- 
2.43.0


From 04d64dbb3733dfae1421645a18fd6878f27402b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:57 +0000
Subject: [PATCH 09/16] fix: Galacticus fitting script crashed on ranks with no
 halos

---
 .../fitting_scripts/galacticus_diffmah_fitter_script.py   | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py b/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py
index d92674c..9169262 100644
--- a/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py
@@ -59,8 +59,10 @@ if __name__ == "__main__":
     nhalos_tot = egsd.get_nhalos_tot(fn)
     _a = np.arange(0, nhalos_tot).astype("i8")
     indx_for_rank = np.array_split(_a, nranks)[rank]
-    istart = indx_for_rank[0]
-    iend = indx_for_rank[-1] + 1
+    if len(indx_for_rank) > 0:
+        istart, iend = indx_for_rank[0], indx_for_rank[-1] + 1
+    else:
+        istart, iend = 0, 0
 
     _res = egsd.extract_galacticus_mah_tables(fn, istart, iend)
     mahs_for_rank, times_for_rank, is_cen_for_rank, t_infall_for_rank = _res
@@ -73,7 +75,7 @@ if __name__ == "__main__":
 
     comm.Barrier()
 
-    t_max_for_rank = np.array([t[-1] for t in times_for_rank]).max()
+    t_max_for_rank = max([t[-1] for t in times_for_rank], default=0.0)
     T0 = comm.allreduce(t_max_for_rank, op=MPI.MAX)
     comm.Barrier()
 
-- 
2.43.0


From 18dacfb38577341dc57f70e1cc3df378b1833a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:57 +0000
Subject: [PATCH 10/16] fix: jax_adam_wrapper flagged fits that reached the
 loss tolerance as failures

---
 diffmah/fitting_helpers/fit_utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/diffmah/fitting_helpers/fit_utils.py b/diffmah/fitting_helpers/fit_utils.py
index 3715794..6ac96b7 100644
--- a/diffmah/fitting_helpers/fit_utils.py
+++ b/diffmah/fitting_helpers/fit_utils.py
@@ -87,6 +87,7 @@ def jax_adam_wrapper(
         )
         p_init = fit_results[0]
         loss_init = fit_results[1]
+        n_step_requested = warmup_n_step
 
     if np.all(np.isfinite(p_init)):
         p0 = p_init
@@ -97,8 +98,11 @@ def jax_adam_wrapper(
         fit_results = _jax_adam_wrapper(
             loss_and_grad_func, p0, loss_data, n_step, step_size=step_size, tol=tol
         )
+        n_step_requested = n_step
 
-    if len(fit_results[2]) < n_step:
+    loss_arr = fit_results[2]
+    reached_tol = len(loss_arr) > 0 and loss_arr[-1] < tol
+    if len(loss_arr) < n_step_requested and not reached_tol:
         fit_terminates = 0
     else:
         fit_terminates = 1
-- 
2.43.0


From 9ece0db35bc6307c95065d159f978cf7ad235c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:57 +0000
Subject: [PATCH 11/16] fix: load_diffmahpop_targets called mah_halopop with an
 obsolete signature

---
 .../diffmahpop_kernels/load_diffmahpop_fitdata.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/diffmah/diffmahpop_kernels/load_diffmahpop_fitdata.py b/diffmah/diffmahpop_kernels/load_diffmahpop_fitdata.py
index 3f9677d..8694f01 100644
--- a/diffmah/diffmahpop_kernels/load_diffmahpop_fitdata.py
+++ b/diffmah/diffmahpop_kernels/load_diffmahpop_fitdata.py
@@ -30,7 +30,7 @@ def load_diffmahpop_targets(
 ):
     """Load target mean and variance along with subset of underlying MAH samples"""
     cendata, satdata = _load_diffmahpop_mu_var_targets(drn=drn)
-    cendata, satdata = _add_n_sample_column(cendata, satdata)
+    cendata, satdata = _add_n_sample_column(drn, cendata, satdata)
     cendata, satdata = _attach_samples(
         drn,
         cendata,
@@ -70,7 +70,7 @@ def _load_diffmahpop_mu_var_targets(drn):
     return cendata, satdata
 
 
-def _add_n_sample_column(cendata, satdata):
+def _add_n_sample_column(drn, cendata, satdata):
 
     n_cens = len(cendata["lgm_obs"])
     n_sats = len(satdata["lgm_obs"])
@@ -80,14 +80,14 @@ def _add_n_sample_column(cendata, satdata):
 
     for ih in range(n_cens):
         fn = os.path.join(
-            TASSO_DRN, PAT_CENS.format(cendata["lgm_obs"][ih], cendata["t_obs"][ih])
+            drn, PAT_CENS.format(cendata["lgm_obs"][ih], cendata["t_obs"][ih])
         )
         all_samples_cens = np.load(fn)
         cendata["n_samples"][ih] = all_samples_cens.shape[0]
 
     for ih in range(n_sats):
         fn = os.path.join(
-            TASSO_DRN, PAT_SATS.format(satdata["lgm_obs"][ih], satdata["t_obs"][ih])
+            drn, PAT_SATS.format(satdata["lgm_obs"][ih], satdata["t_obs"][ih])
         )
         all_samples_sats = np.load(fn)
         satdata["n_samples"][ih] = all_samples_sats.shape[0]
@@ -170,6 +170,7 @@ def _attach_samples(
         "logtc_samples",
         "early_index_samples",
         "late_index_samples",
+        "t_peak_samples",
     )
 
     n_times = cendata["t_table"].shape[1]
@@ -180,9 +181,8 @@ def _attach_samples(
             [cendata[key][ih, :] for key in mah_keys]
         )
         t_table_sample = cendata["t_table"][ih, :]
-        t_peak_cens = cendata["t_peak_samples"][ih]
         __, log_mah_cens = mah_halopop(
-            mah_params_cens, t_table_sample, t_peak_cens, np.log10(13.79)
+            mah_params_cens, t_table_sample, np.log10(13.79)
         )
         log_mah_cens_rescaled = rescale_target_log_mahs(
             log_mah_cens, cendata["lgm_obs"][ih]
@@ -197,9 +197,8 @@ def _attach_samples(
             [satdata[key][ih, :] for key in mah_keys]
         )
         t_table_sample = satdata["t_table"][ih, :]
-        t_peak_sats = satdata["t_peak_samples"][ih]
         __, log_mah_sats = mah_halopop(
-            mah_params_sats, t_table_sample, t_peak_sats, np.log10(13.79)
+            mah_params_sats, t_table_sample, np.log10(13.79)
         )
         log_mah_sats_rescaled = rescale_target_log_mahs(
             log_mah_sats, satdata["lgm_obs"][ih]
-- 
2.43.0


From ad3ecfc96081e749b56809b8c4c1492953b29fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:08 +0000
Subject: [PATCH 12/16] fix: diffmahpop tabulation called mah_halopop with an
 obsolete signature

---
 scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py b/scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py
index b2a04de..603408a 100644
--- a/scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py
+++ b/scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py
@@ -193,7 +193,7 @@ def load_diffmah_subvolume(
 def get_log_mah_tables_for_t_obs(mah_params, t_peak, t_obs, t0):
     t_table = get_t_table_for_t_obs(t_obs, 2)
     lgt0 = np.log10(t0)
-    log_mah_table = mah_halopop(mah_params, t_table, t_peak, lgt0)[1]
+    log_mah_table = mah_halopop(mah_params, t_table, lgt0)[1]
     return t_table, log_mah_table
 
 
@@ -299,7 +299,7 @@ def tabulate_target_means_vars(
                 [diffmah_data[:, i] for i in range(NUM_DIFFMAH_PARAMS - 1)]
             )
 
-            log_mah_table = mah_halopop(mah_params, t_table, t_peak, lgt0)[1]
+            log_mah_table = mah_halopop(mah_params, t_table, lgt0)[1]
             if rescale:
                 log_mah_table = rescale_target_log_mahs(log_mah_table, lgm_obs)
             mean_log_mah = np.mean(log_mah_table, axis=0)
@@ -328,7 +328,7 @@ def tabulate_target_means_vars(
                 [diffmah_data[:, i] for i in range(NUM_DIFFMAH_PARAMS - 1)]
             )
 
-            log_mah_table = mah_halopop(mah_params, t_table, t_peak, lgt0)[1]
+            log_mah_table = mah_halopop(mah_params, t_table, lgt0)[1]
             if rescale:
                 log_mah_table = rescale_target_log_mahs(log_mah_table, lgm_obs)
             mean_log_mah = np.mean(log_mah_table, axis=0)
-- 
2.43.0


From 88bf8cd9d18add5b6de066ea3f19a652bbae6bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:08 +0000
Subject: [PATCH 13/16] fix: diffmahpop tabulation kept halos whose fit was
 skipped

---
 scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py b/scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py
index 603408a..1f34732 100644
--- a/scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py
+++ b/scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py
@@ -179,7 +179,7 @@ def load_diffmah_subvolume(
     halocat_data = load_mock_from_binaries(subvols, sfhcat_drn, galprops)
 
     # throw out halos with a bad fit
-    msk = diffmah_data["loss"] != -1
+    msk = diffmah_data["loss"] >= 0
     mah_params = DEFAULT_MAH_PARAMS._make(
         [diffmah_data[key][msk] for key in DEFAULT_MAH_PARAMS._fields]
     )
-- 
2.43.0


From 15e6f7cacf3b0f33577e993c8630c516316835eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:50 +0000
Subject: [PATCH 14/16] fix: cumulative peak-time distribution of centrals was
 divided by today's age

---
 diffmah/diffmahpop_kernels/t_peak_kernels/tp_pdf_cens.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diffmah/diffmahpop_kernels/t_peak_kernels/tp_pdf_cens.py b/diffmah/diffmahpop_kernels/t_peak_kernels/tp_pdf_cens.py
index ef4dcb8..e1d7b09 100644
--- a/diffmah/diffmahpop_kernels/t_peak_kernels/tp_pdf_cens.py
+++ b/diffmah/diffmahpop_kernels/t_peak_kernels/tp_pdf_cens.py
@@ -125,8 +125,8 @@ def _t_peak_cens_pdf_kern(params, t_peak, t_0):
 @jjit
 def _t_peak_cens_cdf_kern(params, t_peak, t_0):
     loc, scale = params
-    pdf_pred = tpk._tp_cdf_kern(t_peak / t_0, (loc, scale)) / t_0
-    return pdf_pred
+    cdf_pred = tpk._tp_cdf_kern(t_peak / t_0, (loc, scale))
+    return cdf_pred
 
 
 @jjit
-- 
2.43.0


From 93be306aa6235e0967d19385323bb3314b21c7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:19 +0000
Subject: [PATCH 15/16] fix: global logm0 component fitters passed an unnamed
 array to the loss and always raised

---
 diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c0_early.py | 1 +
 diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c0_late.py  | 1 +
 diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c1_early.py | 1 +
 diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c1_late.py  | 1 +
 diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c0_early.py    | 1 +
 diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c0_late.py     | 1 +
 diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c1_early.py    | 1 +
 diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c1_late.py     | 1 +
 8 files changed, 8 insertions(+)

diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c0_early.py b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c0_early.py
index a991c32..343b3ee 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c0_early.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c0_early.py
@@ -68,6 +68,7 @@ def _loss_kern_scalar(params, loss_data):
 
 @jjit
 def global_loss_kern(params, global_loss_data):
+    params = LGM0Pop_C0_Params(*params)
     loss = 0.0
     for loss_data in global_loss_data:
         loss = loss + _loss_kern_scalar(params, loss_data)
diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c0_late.py b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c0_late.py
index d7404f5..2e4ec08 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c0_late.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c0_late.py
@@ -68,6 +68,7 @@ def _loss_kern_scalar(params, loss_data):
 
 @jjit
 def global_loss_kern(params, global_loss_data):
+    params = LGM0Pop_C0_Params(*params)
     loss = 0.0
     for loss_data in global_loss_data:
         loss = loss + _loss_kern_scalar(params, loss_data)
diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c1_early.py b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c1_early.py
index 25dfdc0..db0ddce 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c1_early.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c1_early.py
@@ -79,6 +79,7 @@ def _loss_kern_scalar(params, loss_data):
 
 @jjit
 def global_loss_kern(params, global_loss_data):
+    params = LGM0Pop_C1_Params(*params)
     loss = 0.0
     for loss_data in global_loss_data:
         loss = loss + _loss_kern_scalar(params, loss_data)
diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c1_late.py b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c1_late.py
index 255bdeb..33af708 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c1_late.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c1_late.py
@@ -79,6 +79,7 @@ def _loss_kern_scalar(params, loss_data):
 
 @jjit
 def global_loss_kern(params, global_loss_data):
+    params = LGM0Pop_C1_Params(*params)
     loss = 0.0
     for loss_data in global_loss_data:
         loss = loss + _loss_kern_scalar(params, loss_data)
diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c0_early.py b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c0_early.py
index 05585e5..ba673a7 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c0_early.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c0_early.py
@@ -71,6 +71,7 @@ def _loss_kern_scalar(params, loss_data):
 
 @jjit
 def global_loss_kern(params, global_loss_data):
+    params = LGM0Pop_C0_Params(*params)
     loss = 0.0
     for loss_data in global_loss_data:
         loss = loss + _loss_kern_scalar(params, loss_data)
diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c0_late.py b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c0_late.py
index e097053..8f1e9a0 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c0_late.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c0_late.py
@@ -71,6 +71,7 @@ def _loss_kern_scalar(params, loss_data):
 
 @jjit
 def global_loss_kern(params, global_loss_data):
+    params = LGM0Pop_C0_Params(*params)
     loss = 0.0
     for loss_data in global_loss_data:
         loss = loss + _loss_kern_scalar(params, loss_data)
diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c1_early.py b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c1_early.py
index 42891bd..cdfad89 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c1_early.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c1_early.py
@@ -79,6 +79,7 @@ def _loss_kern_scalar(params, loss_data):
 
 @jjit
 def global_loss_kern(params, global_loss_data):
+    params = LGM0Pop_C1_Params(*params)
     loss = 0.0
     for loss_data in global_loss_data:
         loss = loss + _loss_kern_scalar(params, loss_data)
diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c1_late.py b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c1_late.py
index 17f8936..8f11347 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c1_late.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c1_late.py
@@ -79,6 +79,7 @@ def _loss_kern_scalar(params, loss_data):
 
 @jjit
 def global_loss_kern(params, global_loss_data):
+    params = LGM0Pop_C1_Params(*params)
     loss = 0.0
     for loss_data in global_loss_data:
         loss = loss + _loss_kern_scalar(params, loss_data)
-- 
2.43.0


From 5258c94236a27d3ef61740b0f8c64fea128d7b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:19 +0000
Subject: [PATCH 16/16] fix: load_bpl_um_data could not be imported without
 dsps despite its guard

---
 diffmah/data_loaders/load_bpl_um_data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/diffmah/data_loaders/load_bpl_um_data.py b/diffmah/data_loaders/load_bpl_um_data.py
index 021a9b1..3231a5f 100644
--- a/diffmah/data_loaders/load_bpl_um_data.py
+++ b/diffmah/data_loaders/load_bpl_um_data.py
@@ -21,7 +21,8 @@ except ImportError:
 
 BPL_0M0 = 0.307
 BPL_h = 0.678
-BPL_COSMO = DEFAULT_COSMOLOGY._replace(Om0=BPL_0M0, h=BPL_h, w0=-1.0, wa=0.0)
+if HAS_DSPS:
+    BPL_COSMO = DEFAULT_COSMOLOGY._replace(Om0=BPL_0M0, h=BPL_h, w0=-1.0, wa=0.0)
 
 BPL_MAH_FIT_LGMIN = 10.0
 BPL_T_FIT_MIN = 1.0
-- 
2.43.0

