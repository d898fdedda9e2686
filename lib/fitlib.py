"""Fitting problems: TLC's lattice of histories and settings, and random realistic ones."""
import numpy as np
from vf import fx, NINF
CFG = """SPECIFICATION Spec
CONSTANTS N = %d
 Tier = %d
INVARIANTS NoZeroTarget Ordered Within NotSkippedHasPoints PeakIsFirst PeakOfMonotone
POSTCONDITION Emit
CHECK_DEADLOCK FALSE
"""


def swap(old, new):
    """replace a function wherever the package (or scipy) refers to it"""
    import sys, scipy.optimize
    for m in [scipy.optimize] + [m for n, m in list(sys.modules.items()) if m and (n == "diffmah" or n.startswith("diffmah."))]:
        for k, v in list(vars(m).items()):
            if v is old:
                setattr(m, k, new)


def lattice(ctx, n=None, tier=0):
    """every (history, setting) of the model; masses are exact powers of ten"""
    g = ctx.generate("FitTargetsModel", CFG % (n or (5 if ctx.quick else 6), tier), heap="8g", timeout=850, workers=6)
    t = np.array(g["times"]) / 1e6
    out = []
    for h, c in g["reqs"]:
        mah = np.array([0.0 if x == NINF else 10.0 ** (x // 1000000) for x in h])
        kw = dict(lgm_min=-float("inf") if c["min"] == NINF else c["min"] / 1e6, dlogm_cut=c["cut"] / 1e6, t_fit_min=c["tmin"] / 1e6)
        out.append(dict(h=h, c=c, t=t, tf=g["times"], mah=mah, kw=kw))
    ctx.exhaustive = True
    return out


def _clear(x, edges, eps=3e-5):
    return np.all(np.abs(x - edges) > eps)


def random_problem(rng, nmax=90, dtype=None, fixed=None):
    """a realistic history; no point within 3e-5 of a cut, so that the projection cannot change a comparison"""
    while True:
        n = int(rng.integers(1, nmax))
        t = np.sort(rng.uniform(0.1, 13.8, n))
        if n > 1 and np.diff(t).min() < 1e-3:
            t = np.linspace(rng.uniform(0.05, 1.2), rng.uniform(13, 14), n)
        kind = rng.integers(0, 5)
        lm0 = rng.uniform(9, 15) if rng.uniform() < 0.85 else rng.uniform(0.5, 5)
        lg = lm0 - rng.uniform(0.2, 6) * (1 - (t / t[-1])) ** rng.uniform(0.5, 2)
        if kind == 1:
            lg = lg + rng.normal(0, 0.2, n)
        elif kind == 2:
            k = rng.integers(0, n)
            lg[k:] = lg[k]
        elif kind == 3:
            lg = np.round(lg * 2) / 2 + 0.123
        elif kind == 4:
            k = rng.integers(0, n)
            lg[k:] = lg[k] - rng.uniform(0, 1.5) * (t[k:] - t[k]) / 10
        mah = 10.0**lg
        if rng.uniform() < 0.5:
            mah[: rng.integers(0, n)] = 0.0 if rng.uniform() < 0.7 else 10.0 ** rng.uniform(-12, -8)
        if rng.uniform() < 0.2 and n > 2:
            mah[rng.integers(0, n - 1)] = 0.0
        if dtype is not None:
            mah = mah.astype(dtype)
        if not mah[-1] > 1.01:
            continue
        lgf = np.log10(np.where(mah > 0, mah, 1.0)).astype(float)
        mn = float(rng.choice([-np.inf, rng.uniform(6, 12), lgf[-1] - rng.uniform(0, 3), lgf[-1] - rng.uniform(0, 3), lgf[-1] + rng.uniform(0.01, 0.6)]))
        cut = float(rng.choice([2.5, rng.uniform(0.1, 10), 10.0]))
        cut = min(cut, lgf[-1] + 6.5)      # masses of 3e-7 and below are the same as none
        tmin = float(rng.choice([1.0, rng.uniform(0, 8), 0.0]))
        pos = lgf[mah > 0]
        if not (_clear(pos, mn) and _clear(pos, lgf[-1] - cut) and _clear(t, tmin)):
            continue
        y = np.sort(np.unique(lgf))
        if len(y) > 1 and np.diff(y).min() < 2e-5:
            continue
        fix = float(np.round(rng.uniform(0.05, max(t[-1], 0.06)), 3)) if fixed is None and rng.uniform() < 0.2 else (fixed or 0)
        h = [NINF if m == 0 else fx(x) for m, x in zip(mah, lgf)]
        c = dict(min=NINF if mn == -np.inf else fx(mn), cut=fx(cut), tmin=fx(tmin), fixed=fx(fix))
        kw = dict(lgm_min=mn, dlogm_cut=cut, t_fit_min=tmin)
        if fix:
            kw["tpeak_fixed"] = fix
        return dict(h=h, c=c, t=t, tf=fx(t), mah=mah, kw=kw)


def quiet(fn, *a, **k):
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn(*a, **k)
