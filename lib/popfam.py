"""The parameter families of the population model: where each one lives and what it exposes."""
import importlib
import numpy as np
P = "diffmah.diffmahpop_kernels."
_L = [  # key, module, function suffix, bounds table, defaults, unbounded defaults
    ("ftpt0_cens", "ftpt0_cens", "ftpt0", "FTPT0_PBOUNDS"),
    ("early_index_alpha", "early_index_alpha", "early_index", "EARLY_INDEX_PBOUNDS"),
    ("early_index_beta", "early_index_beta", "early_index", "EARLY_INDEX_PBOUNDS"),
    ("early_index_pop", "early_index_pop", "early_index", "EARLY_INDEX_PBOUNDS"),
    ("early_index_bimod", "early_index_bimod", "early_index", "EARLY_INDEX_PBOUNDS"),
    ("late_index_alpha", "late_index_alpha", "late_index", "LATE_INDEX_PBOUNDS"),
    ("late_index_beta", "late_index_beta", "late_index", "LATE_INDEX_PBOUNDS"),
    ("late_index_bimod", "late_index_bimod", "late_index", "LATE_INDEX_PBOUNDS"),
    ("logtc_early", "logtc_early", "logtc", "LOGTC_PBOUNDS"),
    ("logtc_late", "logtc_late", "logtc", "LOGTC_PBOUNDS"),
    ("logtc_bimod", "logtc_bimod", "logtc", "LOGTC_PBOUNDS"),
    ("frac_early_cens", "frac_early_cens", "fec", "FEC_PBOUNDS"),
    ("covariance", "covariance_kernels", "cov", "COV_PBOUNDS"),
    ("tp_pdf_cens", "t_peak_kernels.tp_pdf_cens", "tp_cens", "TPCENS_PBOUNDS"),
    ("tp_pdf_cens_flex", "t_peak_kernels.tp_pdf_cens_flex", "tp_cens", "TPCENS_PBOUNDS"),
    ("tp_pdf_sats", "t_peak_kernels.tp_pdf_sats", "tp_sat", "TP_SATS_BOUNDS"),
    ("utp", "t_peak_kernels.utp_pdf_kernels", "utp", "UTP_PBOUNDS"),
]
for _k, _d in (("cens", "bimod_logm0_kernels"), ("sats", "bimod_logm0_sats")):
    for _c in ("c0", "c1"):
        for _e in ("early", "late"):
            _L.append((f"logm0_{_c}_{_e}_{_k}", f"{_d}.logm0_{_c}_{_e}", _c, f"LGM0POP_{_c.upper()}_BOUNDS"))
    for _e in ("early", "late"):
        _L.append((f"logm0_pop_{_e}_{_k}", f"{_d}.logm0_pop_{_e}", "m0pop", "LGM0POP_BOUNDS"))
    _L.append((f"logm0_pop_bimod_{_k}", f"{_d}.logm0_pop_bimod" + ("_sats" if _k == "sats" else ""), "m0pop",
               "LGM0POP_BOUNDS"))


class Family:
    def __init__(self, key, mod, bounded, unbounded, bounds, default, default_u):
        self.key, self.mod, self.bounded, self.unbounded = key, mod, bounded, unbounded
        self.names = list(default._fields)
        self.unames = list(default_u._fields)
        self.default, self.default_u, self.bounds = default, default_u, bounds
        self.P, self.U = type(default), type(default_u)

    def lohi(self):
        b = self.bounds
        return (np.array([float(getattr(b, k)[0]) for k in self.names]),
                np.array([float(getattr(b, k)[1]) for k in self.names]))


def _find(mod, suf, table, key):
    """default tuple and unbounded default tuple, found through the transform's own output type"""
    ds = [v for n, v in vars(mod).items() if n.startswith("DEFAULT") and hasattr(v, "_fields")]
    u = [d for d in ds if all(f.startswith("u_") for f in d._fields)]
    p = [d for d in ds if not all(f.startswith("u_") for f in d._fields)]
    nm = getattr(mod, table)._fields
    p = [d for d in p if set(d._fields) == set(nm)]
    u = [d for d in u if set(d._fields) == {"u_" + k for k in nm}]
    return p[0], u[0]


def leaves():
    out = []
    for key, m, suf, table in _L:
        mod = importlib.import_module(P + m)
        d, du = _find(mod, suf, table, key)
        out.append(Family(key, mod, getattr(mod, f"get_bounded_{suf}_params"), getattr(mod, f"get_unbounded_{suf}_params"),
                          getattr(mod, table), d, du))
    return out


def composite(fams):
    bcp = importlib.import_module(P + "bimod_censat_params")
    tab = {}
    comp = ("tp_pdf_cens_flex", "tp_pdf_sats", "logm0_pop_bimod_cens", "logm0_pop_bimod_sats", "logtc_bimod",
            "early_index_bimod", "late_index_bimod", "frac_early_cens", "covariance")
    for f in fams:
        if f.key in comp:
            for k in f.names:
                tab[k] = getattr(f.bounds, k)
    d = bcp.DEFAULT_DIFFMAHPOP_PARAMS
    B = type(d)(**{k: tab[k] for k in d._fields})
    return Family("composite", bcp, bcp.get_diffmahpop_params_from_u_params, bcp.get_diffmahpop_u_params_from_params,
                  B, d, bcp.DEFAULT_DIFFMAHPOP_U_PARAMS)
