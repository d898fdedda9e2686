"""Writes /verif/properties.jsonl (the single source of the property list)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     observe_at=observe or [], hook_needed=hook)))

K = "diffmah/diffmah_kernels.py"
POP = "diffmah/diffmahpop_kernels/"
FH = "diffmah/fitting_helpers/"
DL = "diffmah/data_loaders/"

prop("C01", "Halo mass never decreases and is frozen from the peak time on",
 "For every set of halo parameters inside the documented bounds with the early index at least as large as the late index, the predicted log-mass history is finite and never decreases with time. From the peak time onward (the peak time itself included) the mass stays exactly equal to the mass the growth law gives at the peak time, and before the peak time the mass equals the growth law without any freezing. A history evaluated on any time grid never exceeds that peak mass.",
 ["inputs"], "all in-bounds parameter sets (early >= late), all positive times up to 1.5 times today's age, all peak times up to 1.5 times today's age (inside, at, before and after the time grid), all present-day ages",
 "Tests evaluate a few hand-picked parameter sets on one grid; the guarantee is over a continuous five-dimensional parameter space and every position of the peak time relative to the grid, including a grid time exactly equal to the peak time.",
 [K], [("growth clipped at t_peak", K+":_log_mah_kern"), ("rolling index between early and late", K+":_power_law_index_vs_logt")],
 observe=["mah_singlehalo", "mah_halopop", "logmh_at_t_obs"])

prop("C02", "Growth follows a rolling power law anchored at the present day",
 "Before the peak time, log10 mass equals the present-day normalisation plus (log10 time minus log10 of today's age) times an index that rolls from the early index to the late index as a sigmoid in log10 time with fixed steepness 3.5 centred on the transition time. Consequently a halo whose peak time lies after today has exactly the normalisation mass today, the effective index always lies between the early and late indices, and shifting the normalisation shifts the whole history by the same amount. The steepness and the documented default parameters are the same constants everywhere they are exposed.",
 ["inputs"], "all in-bounds parameter sets, all positive times, all present-day ages",
 "Tests compare against stored values at a handful of points; a mistake in a regime they do not sample (very early times, transition far outside the grid, today's age not 13.8) survives.",
 [K, "diffmah/defaults.py"], [("rolling power law", K+":_rolling_plaw_vs_logt"), ("fixed steepness", K+":MAH_K")],
 observe=["mah_singlehalo", "mah_halopop", "logmh_at_t_obs"])

prop("C03", "The accretion rate is the time derivative of the mass history",
 "The returned accretion rate, in solar masses per year, equals the derivative of the returned mass with respect to time at every time before the peak time, and is exactly zero at every time after the peak time. It is finite and never negative whenever the early index is at least the late index. Integrating the rate between two times before the peak reproduces the mass gained between them.",
 ["inputs"], "all in-bounds parameter sets with early >= late, all positive times up to 1.5 times today's age, all peak times",
 "Tests check the rate against finite differences for a few random draws on a single grid; the relation has to hold for all parameters and times, and the unit conversion and the cut at the peak time in every entry point.",
 [K], [("rate from automatic differentiation, /1e9", K+":_dmhdt_noq_kern_scalar"), ("zero after peak", K+":_dmhdt_kern")],
 observe=["mah_singlehalo", "mah_halopop", "_diffmah_kern_scalar"])

prop("C04", "All ways of evaluating a halo history agree",
 "The single-halo, population, single-time and unbounded-parameter entry points give the same masses and rates for the same halo and time. The result for one halo never depends on which other halos are in the batch, on the batch size or order, or on which other times are in the time array or their order. Output shapes are (times) for one halo, (halos, times) for a population and one value per halo for single-time evaluation.",
 ["inputs", "configurations"], "all batches (including one halo), all time arrays (including length one, unsorted and repeated times), all entry points",
 "Tests fix one batch and one grid; equivalence across batch composition, ordering and grid is a relation between runs that a single expected value cannot state.",
 [K], [("vectorised kernel", K+":_diffmah_kern_vmap"), ("u-param kernels", K+":_log_mah_kern_u_params")],
 observe=["mah_singlehalo", "mah_halopop", "logmh_at_t_obs", "_log_mah_kern_u_params", "_dmhdt_kern_u_params", "_diffmah_kern_u_params"])

prop("C05", "Calls have no side effects: results depend only on the arguments",
 "Calling any public function leaves its input arrays, the package default parameters and every previously returned result unchanged. Repeating a call with equal arguments gives bit-identical results, no matter which other calls were made in between or in which order.",
 ["histories"], "all sequences of public calls (kernels, transforms, Monte Carlo generators, losses, fitter, optimiser, measurement helpers) on shared argument objects",
 "Each test makes its own fresh inputs and looks at one call; mutation of shared defaults, aliasing and order dependence only show over histories of calls.",
 [K, FH+"diffmah_fitter_helpers.py", FH+"fit_utils.py", FH+"measure_mahs.py", "diffmah/utils.py", POP+"mc_bimod_cens.py", POP+"bimod_censat_params.py"],
 [("pure jitted kernels", K), ("copy of initial parameters", FH+"fit_utils.py:jax_adam_wrapper"), ("deepcopy of default dict", FH+"diffmah_fitter_helpers.py:VARIED_MAH_PDICT")],
 state=[("default parameters", "module level named tuples and dicts", K+":DEFAULT_MAH_PARAMS")])

prop("C06", "Halo-parameter transforms map onto the bounds and back",
 "Mapping any unbounded halo parameters to bounded ones gives values within the documented bounds, with the early index never below the late index; mapping in-bounds parameters to unbounded and back returns the same parameters to numerical accuracy, and likewise the other way round. Each bounded value increases with its own unbounded value, and apart from the early index (whose lower limit is the late index) depends on that value alone. The stored default unbounded parameters are the images of the stored defaults.",
 ["inputs"], "all real unbounded parameters (including extreme magnitudes) and all interior bounded parameters, scalar or array valued",
 "Tests round-trip small random samples near the defaults; bounds at extreme values, per-parameter independence and ordering of the two indices are universal statements.",
 [K], [("sigmoid bounding", K+":_get_bounded_diffmah_param"), ("early index above late index", K+":_get_early_late")],
 observe=["get_bounded_mah_params", "get_unbounded_mah_params"])

prop("C07", "Population-parameter transforms are bounded, invertible and per-parameter",
 "For every component of the population model and for the full composite model, mapping unbounded parameters to bounded ones puts each value within its own documented bounds, and mapping back recovers the unbounded values (and vice versa) to numerical accuracy. Each transformed value depends only on the parameter of the same name, increases with it, and uses the bounds declared for that name. The stored unbounded defaults are the images of the stored defaults, in every component and in the composite.",
 ["inputs", "configurations"], "all parameters of all component families (peak time of centrals and satellites, fraction at peak today, normalisation, transition time, early and late index, early fraction, covariance) and of the composite, all unbounded values",
 "Tests check only the round trip at (or near) the default values of some components, where swapping two equal parameters or bounds is invisible.",
 [POP+"bimod_censat_params.py", POP+"late_index_bimod.py", POP+"early_index_bimod.py", POP+"logtc_bimod.py", POP+"frac_early_cens.py", POP+"covariance_kernels.py", POP+"ftpt0_cens.py", POP+"early_index_pop.py", POP+"bimod_logm0_kernels/", POP+"bimod_logm0_sats/", POP+"t_peak_kernels/"],
 [("composite transform", POP+"bimod_censat_params.py:get_diffmahpop_params_from_u_params"), ("per component transform", POP+"late_index_bimod.py:get_bounded_late_index_params")])

prop("C08", "Every population parameter reaches exactly the component it names",
 "Building component parameters from the full set, overriding some parameters, or excluding some parameters acts purely by name: every named value is delivered unchanged, nothing else changes, and the order in which names are listed is irrelevant. A parameter of the satellite-only components never influences predictions for centrals and vice versa; parameters of the early family influence only early-forming predictions and those of the late family only late-forming ones. Every parameter of the model influences at least one prediction.",
 ["configurations", "inputs"], "all parameter names, all subsets of overridden/excluded names, all values in bounds, both halo kinds and both formation classes",
 "Tests use default values for all components at once; a swapped or duplicated routing between same-valued or similarly named parameters is invisible there.",
 [POP+"bimod_censat_params.py", POP+"mc_bimod_cens.py", POP+"mc_bimod_sats.py", POP+"bimod_censat_fithelp.py"],
 [("routing by name", POP+"bimod_censat_params.py:get_component_model_params"), ("overrides", POP+"bimod_censat_params.py:_get_all_diffmahpop_params_from_varied"), ("exclusion", POP+"bimod_censat_params.py:get_varied_params_by_exclusion")])

prop("C09", "Each generated halo is wholly early-forming or wholly late-forming",
 "In every Monte Carlo population each halo takes all five of its parameters, its mass history and its accretion rates from one and the same formation class, and the reported class flag says which one. The histories returned equal the histories recomputed from the returned parameters, and the share of early-forming halos follows the predicted early fraction of each halo. Combining two parameter sets by a flag returns, halo by halo, the first set where the flag is set and the second elsewhere.",
 ["inputs", "histories"], "all seeds, population sizes, masses, observation times and in-bounds population parameters, for centrals and satellites, with and without supplied peak times",
 "Tests check shapes and finiteness, and compare one realisation; mixing columns between classes for some halos keeps shapes and plausible values.",
 [POP+"mc_bimod_cens.py", POP+"mc_bimod_sats.py", POP+"param_utils.py"],
 [("class selection", POP+"mc_bimod_cens.py:mc_diffmah_cenpop"), ("selection with histories", POP+"mc_bimod_cens.py:mc_cenpop"), ("selection helper", POP+"param_utils.py:mc_select_diffmah_params")],
 observe=["mc_diffmah_cenpop", "mc_cenpop", "mc_diffmah_satpop", "mc_satpop", "mc_select_diffmah_params"])

prop("C10", "Generated peak times respect physical limits; supplied ones pass through",
 "Every generated central's peak time is positive, at least the fixed minimum fraction of today's age, and no later than today; every generated satellite's peak time lies between one tenth of and the whole of its observation time. Both the early and the late version of a halo share the same peak time. When peak times are supplied, each generated halo has exactly the supplied value.",
 ["inputs"], "all seeds, masses, observation times, today's ages and in-bounds population parameters",
 "Tests check a few seeds at the default parameters; limits have to hold in the tails of the draw and at the edges of the parameter ranges.",
 [POP+"t_peak_kernels/tp_pdf_cens_flex.py", POP+"t_peak_kernels/tp_pdf_sats.py", POP+"t_peak_kernels/utp_pdf_kernels.py", POP+"mc_bimod_cens.py", POP+"mc_bimod_sats.py"],
 [("central draw", POP+"t_peak_kernels/tp_pdf_cens_flex.py:mc_tpeak_singlecen"), ("satellite draw", POP+"t_peak_kernels/utp_pdf_kernels.py:mc_tp_pdf_singlesat")])

prop("C11", "Monte Carlo draws are reproducible and mutually independent",
 "The same seed and arguments always give the same population, and different seeds give different ones. Within a population the random choices are independent: across halos, between the peak time, the formation class and the scatter of each halo's parameters, and between the early and late versions of a halo; no two of these choices are driven by the same random number. The scatter of generated unbounded parameters around their predicted mean has zero mean and the model's predicted covariance.",
 ["inputs", "histories"], "all seeds and all population sizes, for all four generators and the per-bin samples used by the losses",
 "A test can look at one realisation only; reuse of a random key leaves every individual value plausible and shows only in joint distributions.",
 [POP+"mc_bimod_cens.py", POP+"mc_bimod_sats.py", POP+"t_peak_kernels/"],
 [("key splitting", POP+"mc_bimod_cens.py:mc_diffmah_params_singlecen"), ("per-halo keys", POP+"mc_bimod_cens.py:mc_cenpop")],
 state=[("random key tree", "which child key drives which draw", POP+"mc_bimod_cens.py")])

prop("C12", "The population covariance has the declared entries and is positive definite",
 "For every halo mass and in-bounds parameters the covariance of the four scattered halo parameters is symmetric and positive definite. Its diagonal holds the squares of the mass-dependent scatters, each rolling between its declared low-mass and high-mass values around its own transition mass, and each off-diagonal entry is the declared correlation of that named pair times the two scatters. Evaluating many masses at once gives the same matrices as one at a time.",
 ["inputs"], "all halo masses and all in-bounds covariance parameters",
 "Tests check positive definiteness at default and few random values, not that each named correlation sits at the entry of its pair, which is invisible to shape or eigenvalue checks.",
 [POP+"covariance_kernels.py", "diffmah/utils.py"],
 [("covariance assembly", POP+"covariance_kernels.py:_get_diffmahpop_cov"), ("scatter", POP+"covariance_kernels.py:_get_cov_params")])

prop("C13", "Predicted history moments are those of the early/late mixture",
 "The predicted mean and standard deviation of log mass in a bin equal, at every time, the weighted mean and standard deviation over the bin's Monte Carlo halos in which each halo's early history counts with its early fraction and its late history with the complement. The standard deviation is never negative or NaN, and the mean lies between the smallest and largest sampled history. One prediction is made per requested time, and it does not depend on which other times are requested.",
 ["inputs"], "all in-bounds population parameters, bins, time grids and seeds, centrals and satellites",
 "Tests compare to Monte Carlo averages with loose tolerance at one bin, or check shapes; swapped weights stay inside those tolerances when the fractions are near one half.",
 [POP+"mc_bimod_cens.py", POP+"mc_bimod_sats.py"], [("mixture moments", POP+"mc_bimod_cens.py:predict_mah_moments_singlebin")])

prop("C14", "Population losses are zero at their own predictions and add up over parts",
 "Each loss is non-negative, is zero when the target equals the model's own prediction for the same seed, and equals the mean over bins of the mean squared error in the mean history plus that in its scatter. The joint loss is the sum of the centrals' and the satellites' losses, each bin and each halo kind using its own random stream. Overriding only some parameters is the same as giving the full set with the others at their defaults, in bounded and in unbounded form.",
 ["inputs", "configurations"], "all in-bounds population parameters, numbers of bins, grids, targets, seeds and override subsets",
 "Tests check that the loss is positive and finite for one configuration and its gradient is non-zero; they cannot see a dropped or double-counted term.",
 [POP+"bimod_cens_fithelp.py", POP+"bimod_sats_fithelp.py", POP+"bimod_censat_fithelp.py"],
 [("single-bin loss", POP+"bimod_cens_fithelp.py:_loss_mah_moments_singlebin"), ("joint loss", POP+"bimod_censat_fithelp.py:loss_mah_moments_multibin_censat")])

prop("C15", "Population-level mean predictions stay finite and inside their ranges",
 "For every observed mass, observation time and peak time in the calibrated domain and every in-bounds population parameter, the predicted mean halo parameters are finite and strictly inside the halo-parameter bounds, so that every generated halo has finite in-bounds parameters and a finite non-decreasing history. The predicted early fraction always lies between the declared limits and between its own low-mass and high-mass values. Each component prediction follows its declared functional form.",
 ["inputs"], "lgm in 10..15, observation time 2 Gyr to today, peak times within limits, all in-bounds population parameters, centrals and satellites, early and late",
 "Tests sample defaults on a coarse grid; NaNs appear only in corners of a sixty-dimensional parameter space.",
 [POP+"bimod_logm0_kernels/", POP+"bimod_logm0_sats/", POP+"logtc_early.py", POP+"logtc_late.py", POP+"early_index_alpha.py", POP+"early_index_beta.py", POP+"late_index_alpha.py", POP+"late_index_beta.py", POP+"frac_early_cens.py", POP+"ftpt0_cens.py"],
 [("clipping inside bounds", POP+"bimod_logm0_kernels/logm0_pop_early.py:_pred_logm0_kern"), ("early fraction", POP+"frac_early_cens.py:_frac_early_cens_kern")])

prop("C16", "The fitter uses exactly the history points its cuts allow, in order",
 "The points that enter a fit are exactly those simulated points whose mass exceeds the minimum fitting mass, lies within the allowed range below the final mass, and whose time is at or after the minimum fitting time; they keep their order and times. Their masses are the simulated log masses replaced by the running maximum of the selected points. Zero or tiny input masses (of halos that end with a mass, or when a minimum mass is given) are never used and never produce NaN or infinite targets.",
 ["inputs"], "all simulated histories (zeros, plateaus, dips, tiny masses, single points), all minimum masses (none included), all range cuts up to 10 dex, all minimum times",
 "Tests use smooth simulated histories well above the cuts; boundary values, zeros and cuts that meet exactly are unsampled.",
 [FH+"diffmah_fitter_helpers.py"], [("target selection", FH+"diffmah_fitter_helpers.py:_get_target_data"), ("clipping of small masses", FH+"diffmah_fitter_helpers.py:_get_clipped_log_mah")],
 observe=["get_loss_data", "diffmah_fitter (loss_data)"])

prop("C17", "Histories with too little information are skipped with sentinel results",
 "A fit is skipped exactly when fewer than three of its target points lie below the final target mass, or when skipping is requested. A skipped fit returns minus 99 for every parameter and for the loss, is flagged as skipped and not converged, and reports algorithm code minus 1. A fit that is not skipped never returns any of those sentinels.",
 ["inputs", "configurations"], "all histories including empty target selections, all cut settings, forced or not",
 "Tests exercise one skipped and one fitted example; the threshold and the consistency of all result fields have to hold for every history.",
 [FH+"diffmah_fitter_helpers.py"], [("skip rule", FH+"diffmah_fitter_helpers.py:get_loss_data"), ("sentinels", FH+"diffmah_fitter_helpers.py:diffmah_fitter")])

prop("C18", "The fitted halo peaks when the simulated halo first reaches its final mass",
 "The peak time of a fit is the first simulated time at which the history has its final mass, unless a peak time is prescribed, in which case it is that value; the optimiser never changes it. The today's age used in the fit is the last simulated time. The population version of the peak-time search agrees with the single-halo version halo by halo.",
 ["inputs"], "all simulated histories that are not skipped and end above the minimum fitting mass (plateaus, strictly growing, constant at the end, non-monotonic), with and without a prescribed peak time",
 "Tests use one plateau; first-versus-last index and non-monotonic histories are not sampled.",
 [FH+"diffmah_fitter_helpers.py"], [("first time at final mass", FH+"diffmah_fitter_helpers.py:compute_indx_t_peak_singlehalo"), ("peak time excluded from optimisation", FH+"diffmah_fitter_helpers.py:diffmah_fitter")])

prop("C19", "The optimiser fallback and the gradient descent follow their state machine",
 "The quasi-Newton result is used exactly when it reports success with a finite positive loss; in every other case the gradient-descent fallback runs from the original starting point and the algorithm code says so. Gradient descent records the loss of every accepted step, stops at the first non-finite loss, gradient or parameter or as soon as the loss falls below the tolerance, and otherwise takes exactly the requested number of steps, after exactly the requested warm-ups. The returned parameters and loss are those of the best finite step visited, and the termination flag is 1 exactly when the phase that produced the result met no non-finite value. (The fallback's main phase is not run when the warm-up already reached the tolerance.)",
 ["fault_sequences", "histories"], "all sequences of loss/gradient outcomes (finite, NaN, infinite, below tolerance, at any step, in warm-up or main phase), all step counts and quasi-Newton outcomes",
 "Tests run well-behaved quadratic losses; where and when a non-finite value appears spans a space of fault sequences that no example covers.",
 [FH+"bfgs_wrapper.py", FH+"fit_utils.py"], [("fallback decision", FH+"bfgs_wrapper.py:bfgs_adam_fallback"), ("descent loop", FH+"fit_utils.py:_jax_adam_wrapper"), ("warm-up and termination flag", FH+"fit_utils.py:jax_adam_wrapper")],
 state=[("phase, step, losses, flags", "state of the descent", FH+"fit_utils.py")])

prop("C20", "Fit results are self-consistent and recover histories the model can make",
 "The reported loss of every completed fit equals the mean squared difference between the log masses of the returned best-fit parameters and the fit targets, and is no larger than the loss at the starting point. The returned parameters are finite and within bounds with the early index at least the late index. For a history generated by the model itself inside the calibrated range the quasi-Newton fit reproduces the history closely, and the descent fallback roughly.",
 ["inputs"], "all simulated histories that are not skipped, all cut settings, prescribed or measured peak time, both algorithms",
 "Tests check a loss threshold on few model-generated histories; consistency between the returned pieces is a relation over every fit.",
 [FH+"diffmah_fitter_helpers.py", FH+"bfgs_wrapper.py"], [("loss", FH+"diffmah_fitter_helpers.py:log_mah_loss_uparams"), ("bounded best-fit", FH+"diffmah_fitter_helpers.py:diffmah_fitter")])

prop("C21", "Fit results survive the text and HDF5 output formats",
 "A line of fit output contains, in the order of the header, the five parameters, the loss, the number of non-trivial target points and the algorithm code, preceded by the halo identifier if one is given. Parsing the line gives back every value to the printed precision and the integers exactly. Writing collected lines to file stores each column under its header name with every row kept, in order, and integer columns (identifiers up to 64 bits included) exact.",
 ["inputs"], "all fit results (skipped, fitted, either algorithm, any magnitude), any number of rows including one, with and without identifiers",
 "Tests parse one line and never read the file back; column swaps between similar columns and loss of large identifiers are invisible.",
 [FH+"diffmah_fitter_helpers.py"], [("text line", FH+"diffmah_fitter_helpers.py:get_outline"), ("file", FH+"diffmah_fitter_helpers.py:write_collated_data"), ("parser", FH+"diffmah_fitter_helpers.py:_parse_outline")])

prop("C22", "HDF5 loading returns exactly the requested rows and columns",
 "Loading a flat file returns exactly the requested columns (all when none are named), each holding exactly the requested row range (to the end when no end is given), keyed by the plain column name whether or not the columns are in a group. Writing a parameter tuple to file and loading it returns the same names in the same order with the same values, types and shapes. Neither operation changes the file it reads or leaves it open.",
 ["inputs", "configurations"], "all column sets, dtypes, shapes, row ranges (empty, negative, past the end), groups, and field orders",
 "Tests load one small file; row ranges, groups and field orders that sort differently are not covered.",
 [DL+"io_utils.py"], [("row and column selection", DL+"io_utils.py:load_flat_hdf5"), ("tuple writer", DL+"io_utils.py:write_namedtuple_to_hdf5"), ("tuple loader", DL+"io_utils.py:load_namedtuple_from_hdf5")])

prop("C23", "Loaders deliver cumulative peak masses in the promised units and order",
 "Histories delivered by the simulation loaders never decrease with time and equal the running maximum of the stored masses, converted exactly once from the stored to the promised units (merger-tree tables of Galacticus are delivered as stored). Rows stay aligned with their identifiers and columns with the returned time table, which increases and ends today. Row ranges and chunks return exactly the stored rows of that range.",
 ["inputs", "configurations"], "all stored histories (with dips and zeros), all supported simulations and halo kinds, all row ranges and chunks",
 "The loaders need data that the tests do not have, so most are never run; unit or ordering slips leave plausible numbers.",
 [DL+"load_hacc_mahs.py", DL+"load_bpl_um_data.py", DL+"load_tng_mahs.py", DL+"load_diffmah_pub_data.py", DL+"load_galacticus_eps_mahs.py", "scripts/fitting_scripts/load_mah_data.py"],
 [("cumulative maximum", DL+"load_hacc_mahs.py:load_mahs"), ("units", DL+"load_tng_mahs.py:load_tng_data")])

prop("C24", "Distributing halos over ranks loses, duplicates and reorders nothing",
 "When halos are distributed over the ranks of a parallel job, concatenating the ranks' shares in rank order gives back the original array exactly, for any number of ranks. Shares differ in size by at most one halo, and every rank gets the same time table. Every rank finishes, whatever the order in which the ranks run.",
 ["schedules", "configurations"], "all rank counts (more ranks than halos included), array shapes, dtypes and split axes, all interleavings of the ranks",
 "No test runs more than one rank; message mismatch, deadlock and uneven splits depend on rank counts and schedules.",
 [DL+"load_hacc_mahs.py"], [("scatter", DL+"load_hacc_mahs.py:_scatter_nd"), ("broadcast of times", DL+"load_hacc_mahs.py:load_mahs_per_rank")],
 state=[("messages in flight", "per-rank share sent by the root", DL+"load_hacc_mahs.py:_scatter_nd")])

prop("C25", "The parallel fitting pipeline writes one correct row per halo, in order",
 "When a fitting job completes, its output file holds exactly one row per input halo, in input order, each row being the fit of that halo with that simulation's cuts, for any number of ranks and any interleaving. Per-rank temporary files are read only after every rank has finished writing, and are deleted only after the collected output is complete; a completed job leaves no temporary files. After a crash at any point, either the output of a unit of work is complete or re-running the job (with the same or another number of ranks) produces it correctly.",
 ["schedules", "crash_points", "configurations"], "all fitting scripts, rank counts (ranks without halos included), interleavings, crash points, leftovers of earlier crashed jobs, chunk and subvolume ranges",
 "The scripts have no tests at all and depend on MPI; schedules and crash points cannot be sampled by unit tests.",
 ["scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py", "scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py", "scripts/fitting_scripts/tng_diffmah_fitter_script.py", "scripts/fitting_scripts/galacticus_diffmah_fitter_script.py", "scripts/fitting_scripts/bolshoi_planck_fitting_script.py", FH+"diffmah_fitter_helpers.py"],
 [("barrier before collation", "scripts/fitting_scripts/tng_diffmah_fitter_script.py"), ("collation in rank order", "scripts/fitting_scripts/tng_diffmah_fitter_script.py"), ("cleanup after output", "scripts/fitting_scripts/tng_diffmah_fitter_script.py")],
 state=[("per-rank temporary files", "rows fitted so far", "outdir"), ("output file", "collated fits", "outdir")])

prop("C26", "Collating chunked fits keeps every row and deletes only what is saved",
 "The collated file of each requested subvolume contains the rows of all its chunks, in chunk order, with all columns. Chunk files are deleted only after the collated files that contain them are complete, and no other file is ever deleted. A crash at any point loses no row: each is in a complete collated file or still in its chunk file.",
 ["crash_points", "configurations"], "all subvolume ranges, chunk contents (empty chunks included), crash points and unrelated files in the directories",
 "The script has no tests; ordering of writes and deletions matters only under crashes.",
 ["scripts/fitting_scripts/unchunk_last_journey_script.py"], [("collate then delete", "scripts/fitting_scripts/unchunk_last_journey_script.py")],
 state=[("chunk files", "rows by chunk", "indir"), ("collated files", "rows by subvolume", "outdir")])

prop("C27", "Numeric utilities satisfy their algebraic definitions for all inputs",
 "Time-step widths tile the time line: each interval runs between midpoints of neighbours, the first starting half its own width before the first point, the last ending half the previous interval's width after the last; a lower-triangular matrix built from a parameter list holds the first entries on the diagonal and the rest row by row below it. Correlation and covariance conversions are inverse to each other with unit diagonal, trimmed means and variances use exactly the points strictly inside the two percentiles, and the sigmoid, its inverse and its slope form agree with their definitions. Broadcasting scalars with arrays yields equal-length arrays without changing values, and incompatible lengths are rejected.",
 ["inputs"], "all sizes, dtypes and values in the documented domains",
 "Tests cover small fixed sizes (three-by-three matrices, one grid); the index arithmetic has to be right for every dimension.",
 ["diffmah/utils.py"], [("time steps", "diffmah/utils.py:get_dt_array"), ("triangular matrix", "diffmah/utils.py:get_cholesky_from_params"), ("correlation", "diffmah/utils.py:correlation_from_covariance"), ("trimming", "diffmah/utils.py:trimmed_mean")])

prop("C28", "Measured target histories and outlier masks follow their definitions",
 "Target measurements rescale every halo to the sample mass at the final time and return the mean and variance over halos of mass, log mass and accretion rate, interpolated in log time to the requested times. They do not depend on halo order or on rescaling any single halo's history by a constant. The outlier mask keeps exactly the halos whose rescaled log mass stays within the allowed number of trimmed standard deviations of the trimmed mean at all considered times.",
 ["inputs"], "all samples of positive histories with spread, all target times within the table, all sample masses",
 "No test exercises this module; the definitions have to hold for every sample, and invariances under permutation and rescaling are relations between runs.",
 [FH+"measure_mahs.py"], [("target moments", FH+"measure_mahs.py:measure_target_data"), ("outlier mask", FH+"measure_mahs.py:get_clean_sample_mask")])

prop("C29", "Population target tables contain exactly the halos their bins define",
 "Tabulating fitted halos assigns each successfully fitted halo (up to the fixed per-subvolume cap, in catalogue order) to every (mass, time) bin whose centre is within the bin width of its mass at that time, as central or satellite according to its host at the nearest snapshot, and never includes halos without a fit. Collation keeps every tabulated row of the run's subvolumes and deletes intermediate files only afterwards; means, scatters and peaked fractions are those of the rows. Loading targets keeps exactly the bins inside the requested limits with enough samples, draws distinct samples of that bin, and gives histories ending at the bin's mass after rescaling.",
 ["inputs", "configurations"], "all fit catalogues (with unfitted halos), bins, subvolume ranges, file orders and limits",
 "No test runs the tabulation or the loader (they need simulation data), so the binning, class assignment and limits are unchecked.",
 ["scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py", POP+"load_diffmahpop_fitdata.py"],
 [("bin membership", "scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py:get_target_mah_params"), ("collation", "scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py:collate_subvolume_samples"), ("loader", POP+"load_diffmahpop_fitdata.py:load_diffmahpop_targets")],
 state=[("per-subvolume sample files", "rows per bin", "outdrn"), ("collated sample files", "rows per bin", "outdrn/NM_*")])

prop("C30", "Gradients supplied to the optimisers are the gradients of the losses",
 "Every loss that comes with gradients returns the same value as the loss alone, and its gradient matches the change of the loss under small changes of each parameter. Values and gradients are finite for all in-domain parameters and data. The gradient has one entry per parameter, in the parameters' own order.",
 ["inputs"], "halo fit loss, population losses (centrals, satellites, joint; bounded and unbounded) and component losses, all in-domain parameters and data",
 "Tests check that gradients are not NaN at one point; correctness is a relation between neighbouring parameter values everywhere.",
 [FH+"diffmah_fitter_helpers.py", POP+"bimod_cens_fithelp.py", POP+"bimod_censat_fithelp.py", POP+"bimod_sats_fithelp.py"],
 [("halo loss gradient", FH+"diffmah_fitter_helpers.py:loss_and_grads_kern"), ("population loss gradient", POP+"bimod_censat_fithelp.py:loss_and_grads_mah_moments_multibin_censat_u_params")])

prop("C31", "Generated peak times follow their declared distributions",
 "The fraction of generated centrals that peaked before a given fraction of today's age is the declared logistic curve whose midpoint rolls with mass and observation time; the fraction of generated satellites that peaked before a given fraction of their observation time is that of the declared truncated normal curve whose location and width roll with mass and time, and the alternative centrals' model likewise with its own width. Each halo is drawn with its own mass, its own time and the given parameters, alone or in a population. Every reported distribution starts at zero, never decreases, reaches one at the end of its range and has the reported density as its slope.",
 ["inputs"], "all in-bounds peak-time parameters, masses, observation times and ages, for every generator of peak times, with and without the rest of the halo",
 "Tests look at ranges and finiteness of a few draws; that the drawn values have the declared distribution, halo by halo, is a statement about all populations.",
 [POP+"t_peak_kernels/tp_pdf_cens_flex.py", POP+"t_peak_kernels/tp_pdf_sats.py", POP+"t_peak_kernels/tp_pdf_cens.py", POP+"t_peak_kernels/utp_pdf_kernels.py"],
 [("centrals", POP+"t_peak_kernels/tp_pdf_cens_flex.py:mc_tpeak_singlecen"), ("satellites", POP+"t_peak_kernels/tp_pdf_sats.py:mc_tpeak_singlesat"), ("truncated normal", POP+"t_peak_kernels/utp_pdf_kernels.py:mc_tp_pdf_singlesat"), ("alternative centrals", POP+"t_peak_kernels/tp_pdf_cens.py:mc_tpeak_cens")])

prop("C32", "Fits of single model components report what they return",
 "Every component fitter (mean-normalisation coefficients of each family and class, peak-time distributions) completes on any non-empty finite data and returns finite parameters, inside their bounds where the fit is bounded, in the documented order. The reported loss is the declared mean squared deviation, added over all given tables, at the returned parameters, and is no larger than at the starting point, which is the one given. A curve the model can make is kept when the fit starts from its own parameters, and a well-conditioned peak-time density is recovered.",
 ["inputs"], "all tables, starting points, noise, and both outcomes of the quasi-Newton stage",
 "No test runs these fitters; self-consistency of the result must hold for whatever data they are given.",
 [POP+"bimod_logm0_kernels/logm0_c0_early.py", POP+"bimod_logm0_sats/logm0_c1_late.py", POP+"t_peak_kernels/utp_pdf_kernels.py", POP+"t_peak_kernels/tp_pdf_cens.py"],
 [("normalisation coefficients", POP+"bimod_logm0_kernels/logm0_c0_early.py:fit_global_c0_model"), ("peak-time density", POP+"t_peak_kernels/utp_pdf_kernels.py:t_peak_fitter"), ("peak-time density of centrals", POP+"t_peak_kernels/tp_pdf_cens.py:t_peak_cens_fitter")])

prop("C33", "Diagnostic figures show the bins and predictions they claim to show",
 "Each history figure shows, for each of its three declared masses, the tabulated bin nearest in mass among the bins of the figure's epoch: the table's mean history and a band of one scatter around it, the model's predicted mean for that same mass and observation time at the bin's own times, and lines one predicted scatter around that. Each residual figure has one panel per declared observation time, with one curve per declared mass, coloured from low to high mass: model minus table for the bin nearest in time plus mass. Figures are written to the requested folder, which is created, under their own names, and the inputs are left as they were.",
 ["inputs", "configurations"], "all target catalogues with at least one bin of the epoch, in any order, for any in-bounds population parameters, centrals and satellites",
 "No test draws a figure; a curve taken from the wrong bin, time or population looks plausible, and which bin is right depends on the whole catalogue.",
 [POP+"diagnostics/plot_bestfit_cen_mahs.py", POP+"diagnostics/plot_bestfit_sat_mahs.py"],
 [("history figures", POP+"diagnostics/plot_bestfit_cen_mahs.py:plot_singlepanel_mahs_centrals_z0"), ("residual figure", POP+"diagnostics/plot_bestfit_sat_mahs.py:plot_sat_mah_4panel_residuals")])

prop("C34", "Missing packages and inconsistent inputs are reported, not used",
 "Every module can be imported without the optional packages (only the two that read nothing but HDF5 may refuse without h5py, naming it). Every feature works exactly when the packages it needs are there, with the same result whichever other packages are missing and in whatever order modules are imported; otherwise it raises, naming a missing package where the loaders and writers promise so, and leaves no file behind. A fit whose times and masses differ in shape is refused, one whose largest mass is below 1e4 is flagged as possibly logarithmic, no other is flagged; TNG histories that cannot be masses are refused.",
 ["configurations", "inputs"], "all sets of optional packages, orders of import and calls; all shapes and largest masses",
 "Tests run in one environment, with every package installed and well-formed inputs.",
 ["diffmah/data_loaders/load_bpl_um_data.py", "diffmah/data_loaders/load_hacc_mahs.py", "diffmah/data_loaders/io_utils.py", "diffmah/data_loaders/load_tng_mahs.py", FH+"diffmah_fitter_helpers.py", POP+"load_diffmahpop_fitdata.py", POP+"diagnostics/plot_bestfit_cen_mahs.py"],
 [("optional packages of a loader", "diffmah/data_loaders/load_hacc_mahs.py:load_mahs"), ("cosmology of Bolshoi", "diffmah/data_loaders/load_bpl_um_data.py"), ("shape check", FH+"diffmah_fitter_helpers.py:diffmah_fitter"), ("logarithm warning", FH+"diffmah_fitter_helpers.py:_check_for_logmah_vs_mah_mistake")])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
