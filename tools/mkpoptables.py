"""Writes spec/PopTables.tla: the declared limits of every population parameter, by name
(taken once from the pinned tree; committed, not regenerated by checks)."""
import sys; sys.path[:0] = ['/verif/lib', '/repo']
import popfam
from vf import fx
F = popfam.leaves()
tab = {}
for f in F:
    lo, hi = f.lohi()
    for k, a, b in zip(f.names, lo, hi):
        v = (fx(a), fx(b))
        assert tab.setdefault(k, v) == v, k
C = popfam.composite(F)
L = ["---------------------------- MODULE PopTables ----------------------------",
     "EXTENDS Integers",
     "(* Declared limits of every population-model parameter (fixed point), and   *)",
     "(* the parameters of the composite model in their documented order.         *)",
     "PopBounds == ["]
L += ["  " + ",\n  ".join(f"{k} |-> <<{a}, {b}>>" for k, (a, b) in tab.items()) + "]"]
L += ["CompositeNames == {" + ", ".join(f'"{k}"' for k in C.names) + "}"]
cls = {"tp_pdf_cens_flex": "tpc", "tp_pdf_sats": "tps", "logm0_pop_bimod_cens": "m0", "logm0_pop_bimod_sats": "m0s",
       "logtc_bimod": "tc", "early_index_bimod": "ei", "late_index_bimod": "li", "frac_early_cens": "fec", "covariance": "cov"}
half = {}
for f in F:
    if f.key in ("logm0_pop_early_cens", "logm0_pop_early_sats", "logtc_early", "early_index_alpha", "late_index_alpha"):
        half.update({k: "early" for k in f.names})
    if f.key in ("logm0_pop_late_cens", "logm0_pop_late_sats", "logtc_late", "early_index_beta", "late_index_beta"):
        half.update({k: "late" for k in f.names})
owner = {k: cls[f.key] for f in F if f.key in cls for k in f.names}
L += ["(* component that owns each parameter, and the formation family it belongs to *)", "Owner == ["]
L += ["  " + ",\n  ".join(f'{k} |-> "{owner[k]}"' for k in C.names) + "]", "Family == ["]
L += ["  " + ",\n  ".join(f'{k} |-> "{half.get(k, "both")}"' for k in C.names) + "]"]
L += ["============================================================================="]
open('/verif/spec/PopTables.tla', 'w').write("\n".join(L) + "\n")
