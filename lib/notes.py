_S = "fixed-point reference specification in TLA+ (10^-6), TLC; "
NOTE = {
"C01": ("TLA+ history model checked with TLC; recorded histories validated against the specification",
        "the history automaton (MahHistoryModel) is explored exhaustively over a parameter lattice; thousands of real evaluations over the whole bounded domain, "
        "including times on and next to the peak, are validated event by event. Trusts the 1e-6 fixed-point projection; sampled inputs between lattice points."),
"C02": ("TLA+ fixed-point growth law in TLC; recorded histories validated against it",
        "the growth law is computed by TLC itself (logistic table plus Taylor step) and compared with the code to a few 1e-5 dex on random, edge and calibrated inputs."),
"C03": ("TLA+ slope law in TLC; recorded rates validated against it",
        "rates are compared by TLC with finite differences of the code's own masses in double precision, with the integral of the rate, and with single precision."),
"C04": ("TLA+ memoising-evaluator model; TLC-enumerated requests replayed, trace validated",
        "TLC enumerates all batches and time arrays up to the bound; the driver issues them through every entry point; the trace specification learns each (halo, time) value once and rejects any disagreement."),
"C06": ("TLA+ transform lattice explored with TLC; every edge replayed and validated",
        "all 4^5 lattice vertices and their edges, plus random and extreme values, in scalar and array form; round trips within single precision."),
"C07": ("TLA+ transform specification with declared-limit tables; recorded transforms validated",
        "every parameter of every component and of the composite is raised alone from random bases; bounds, own-parameter dependence, declared limits, round trips and stored defaults are judged by TLC."),
"C05": ("TLA+ history model of calls over shared objects; TLC-generated call sequences replayed, trace validated",
        "TLC generates every call sequence up to the bound over the public operations on shared arguments; after each call the content hashes of all inputs, defaults and earlier results are judged by the specification."),
"C08": ("TLA+ routing specification with ownership tables; recorded single-parameter perturbations validated",
        "every one of the population parameters is perturbed alone and its effect on each prediction compared with the specification's ownership table; all TLC-enumerated override subsets of a small name set, plus random subsets of all names."),
"C09": ("TLA+ population model; recorded populations validated halo by halo",
        "each generated halo is compared bit by bit with its early and late version; share of early halos judged at 6 sigma."),
"C10": ("TLA+ population model; recorded peak times validated",
        "random and corner population parameters, masses, times, ages; range of every generated and equality of every supplied peak time judged by TLC."),
"C11": ("TLA+ key-tree model; keys recorded from the executing generators validated, joint statistics judged",
        "every random key consumed by the generators is recorded while the real code runs and checked against the one-use discipline of the key-tree model; correlations judged at 6 sigma."),
"C12": ("TLA+ covariance specification (named entries, transition formulas, determinants); recorded matrices validated",
        "TLC recomputes every scatter from its transition formula and every entry from the declared pair's correlation, and judges positive definiteness by leading minors, for random and corner parameters and masses, one at a time and in batches."),
"C13": ("TLA+ mixture-moment specification; recorded Monte Carlo halos and predictions validated",
        "the halos a bin samples are recorded from the real generator, TLC recomputes the weighted moments and compares; independence of other requested times and one prediction per time are judged on the same calls."),
"C14": ("TLA+ loss specification (mean over bins of both errors, additive over kinds); recorded losses validated",
        "TLC recomputes each loss from the recorded predictions and targets; zero at own prediction, sum over kinds, own random streams and override completion are judged on random in-bounds parameters and grids."),
"C15": ("TLA+ mean-model specification (every component formula); recorded predictions validated, model invariants checked on a parameter lattice",
        "TLC checks ranges on a lattice of corner parameters and recomputes every component prediction, the means recovered from unscattered generated halos, bounds of generated halos and order of their histories for corner, uniform and calibrated parameters."),
"C16": ("TLA+ fitting-target specification; every lattice history and setting of the model generated by TLC and replayed, targets validated",
        "TLC enumerates all histories of 5 (6) points over zero, boundary and intermediate masses with every combination of cuts placed on and between them; the real targets are compared with the declarative selection. Random realistic histories in addition."),
"C17": ("TLA+ skip rule over the same enumerated histories; real fitter results validated",
        "skip decision, sentinel values and result codes of the real fitter are judged on TLC-generated histories, threshold histories, forced skips and random ones."),
"C18": ("TLA+ peak-time definition over the same enumerated histories; real fitting problems and fits validated",
        "peak time and age of the fitting problem, of real fits by either algorithm, prescribed peak times and the vectorised index search are judged on TLC-generated and random histories."),
"C19": ("TLA+ optimiser state machine; all fault sequences generated by TLC and replayed with a scripted loss, traces validated",
        "TLC enumerates every outcome sequence (finite values, below tolerance, non-finite loss or gradient at any step and phase) for up to 2 warm-ups and 3 steps, proves termination and the result invariants, and each is replayed against the real descent; every evaluated point, recorded loss and result is judged. All quasi-Newton outcomes are scripted at the scipy boundary."),
"C20": ("TLA+ definition of a fit's loss, bounds and recovery; real fits by both algorithms validated as traces",
        "TLC checks the loss definition over all small deviation sets; some 200 (quick) to 2000 (thorough) real fits, quasi-Newton and forced fallback, of model-made, noisy and random histories are judged: loss equals mean square deviation, in bounds, no worse than the start, recovery within stated limits."),
"C21": ("TLA+ model of line, rank files and columns; every job behaviour of the model replayed, lines and files validated as traces",
        "TLC enumerates all small jobs (rows by kind over ranks, with and without identifiers) and proves row order and column naming; each is replayed through the real writer, text reader and HDF5 writer, and every token and stored value is compared with exact decimal arithmetic (six significant digits, integers as digit strings)."),
"C22": ("TLA+ model of columnar files and row ranges; every request of the model replayed on real files, loads and tuple round trips validated as traces",
        "TLC proves the row-range laws over every request on small files (all columns sets, orders, negative, empty and over-long ranges) and each is replayed against real HDF5 files of many types, shapes and groupings; random files and parameter tuples in addition."),
"C23": ("TLA+ definition of cumulative histories, units, times and chunks; every history of the model through every loader, deliveries validated as traces",
        "TLC proves the cumulative-maximum laws over every short stored history and each is stored in every catalogue format (HACC forests via a stand-in library, UniverseMachine binaries via the real library, structured arrays, Galacticus HDF5) and loaded; masses, units, identifiers, time tables (against astropy) and chunk rows are judged."),
"C24": ("TLA+ model of the scatter and broadcast; every schedule of the model replayed with a deterministic MPI stand-in, shares validated as traces",
        "TLC explores every interleaving for up to 3 (quick) or 4 (thorough) ranks under both extremes of MPI's send semantics, proving delivery, balance and termination; each complete schedule is replayed against the real code, and random jobs with up to 13 ranks, any split axis, type and root are judged."),
"C25": ("TLA+ model of the job's file protocol with crashes and re-runs; the real scripts run under a deterministic MPI stand-in with the model's schedules and at every crash point, their event traces validated against it",
        "TLC explores all interleavings, crashes and re-runs of small jobs (safety and termination); the five real scripts run as thread ranks under generated, extreme and random schedules and both extremes of MPI semantics, every file event is a step of the specification, every distinct on-disk crash state is re-run with another number of ranks, every output row is traced to its fit's arguments."),
"C26": ("TLA+ model of the collation's file protocol with crashes and re-runs; the real script run on scratch directories, its file events and every crash point's disk validated against it",
        "TLC explores every crash and re-run of small jobs; the real script runs on generated directories (empty chunks, any column set, unrelated look-alike files, shared directories), the disk is read back after every file event, and crash states are run again."),
"C27": ("TLA+ definitions of the utilities (interval tiling, triangular index map, trimming, broadcasting); model-enumerated and random calls of the real functions validated",
        "TLC proves the laws (tiling, bijection of the triangular index for every dimension, order-blind nested trimming) on all small inputs and each is replayed through the real functions; random grids, samples, matrices and sigmoids up to larger sizes are judged against the same definitions."),
"C28": ("TLA+ definition of scaled moments, interpolation and the trimmed outlier mask (exact integer arithmetic); model-enumerated and random samples through the real functions validated",
        "TLC proves the mask's laws on every small sample and each is replayed; measurements of random samples, every halo in its own units, many decades of mass, unordered target times, are recomputed by TLC including logarithms and interpolation."),
"C29": ("TLA+ model of bin membership, caps, file protocol and target selection; the real tabulation script and loader run on scratch catalogues, every table validated",
        "TLC checks membership laws on all small catalogues and that no crash point loses a row; the real script runs under the file-event recorder on generated catalogues (unfitted halos, masses around bin edges, changing hosts, varied subvolume numbers), TLC recomputes every bin's rows, moments, kept bins and drawn samples."),
"C30": ("TLA+ specification of losses and their gradients checked with TLC (exactness of central differences, refusal of wrong gradients); trace validation of every loss of the package against central differences of itself",
 "Model: all squared-error losses of 2-3 parameters and 2-3 data on a lattice. Conformance: each loss (single halo, population: centrals, satellites, joint bounded and unbounded, all component losses) in double precision at random in-domain points, every coordinate; single precision for value, finiteness and agreement, also far out in the unbounded space."),
"C31": ("TLA+ specification of the peak-time distributions (normal and logistic tables, rolling midpoints, table sampler) checked with TLC; real laws and real samples validated",
 "TLC checks on corner parameters that every declared distribution is one, that its density is its slope and that a table sampler draws from it within its spacing; it then recomputes the shape of every generated halo's distribution and judges the shares of generated peak times (all generators, within strata of mass and time) at 6 sigma plus the table allowance."),
"C32": ("TLA+ specification of the component losses and of a fit as a best-of walk checked with TLC; real component fits by both stages validated",
 "TLC checks the loss definition (additive over tables, zero at own curve) and the best-of rule over a lattice; every real fit (eight normalisation fitters, two density fitters, own, default and random starts, quasi-Newton and forced fallback) has its loss recomputed by TLC from the declared formulas."),
"C33": ("TLA+ model of bin selection over catalogues; the model's catalogues and random ones drawn by the real figure routines, the drawn curves validated",
 "TLC proves the selection laws (right epoch, nothing nearer, order-free, stable under added bins) for every small catalogue on a lattice; catalogues of the model and random ones are plotted by the six real routines (figures captured as they are saved) and every curve, band, colour, title and file is judged."),
"C34": ("TLA+ models of package sets with feature calls and of questionable inputs, checked with TLC; the model's package sets and inputs replayed into the real package, outcomes validated",
 "TLC enumerates every set of the seven optional packages (monotone, only own features lost, no memory of earlier calls) and every pair of shapes with every mass scale; interpreters without the chosen packages import every module in random order and call fifteen features; thorough replays all 127 sets."),
}
