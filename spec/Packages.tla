------------------------------- MODULE Packages -------------------------------
(* Which features of the package need which optional packages.  A session is an *)
(* interpreter with a set of installed optional packages: modules are imported,  *)
(* features are called.  A feature works exactly when what it needs is there;    *)
(* otherwise it reports, and leaves nothing behind.                              *)
EXTENDS Integers, Sequences, FiniteSets
Optional == {"h5py", "dsps", "haccytrees", "umachine_pyio", "mpi4py", "matplotlib", "astropy"}
Features == {"evaluate", "fit", "population", "load-hdf5", "write-params", "write-fits", "bpl", "hacc", "hacc-own-comm", "hacc-rank",
             "galacticus", "targets", "tng", "public", "figure"}
Needs == [ f \in Features |->
           CASE f \in {"load-hdf5", "write-params", "write-fits", "galacticus"} -> {"h5py"}
             [] f = "bpl" -> {"umachine_pyio", "dsps"}
             [] f \in {"hacc", "hacc-own-comm"} -> {"haccytrees", "dsps"}
             [] f = "hacc-rank" -> {"haccytrees", "dsps", "mpi4py"}
             [] f = "targets" -> {"h5py", "astropy"}
             [] f = "figure" -> {"matplotlib"}
             [] OTHER -> {} ]
\* features whose report names a package that is missing
Named == {"load-hdf5", "write-fits", "bpl", "hacc", "hacc-own-comm", "galacticus"}
\* the modules that may refuse to be imported, and without what
MayRefuse == [ m \in {"diffmah.data_loaders.load_galacticus_eps_mahs", "diffmah.diffmahpop_kernels.load_diffmahpop_fitdata"} |-> {"h5py"} ]
Hard(m) == IF m \in DOMAIN MayRefuse THEN MayRefuse[m] ELSE {}
Missing(S, f) == Needs[f] \ S
Works(S, f) == Missing(S, f) = {}
ImportWorks(S, m) == Hard(m) \subseteq S
===============================================================================
