"""C28 measured target histories and outlier masks (spec/Measure*)."""
import re
import numpy as np
from vf import fx
CFG = """SPECIFICATION Spec
CONSTANTS N = %d
 V = {%s}
 Probe = {120000, 500000, 999999, 1000000, 1000001, 1999999, 2000000, 3141593, 9999999, 12345678}
INVARIANTS Monotone Alike Reflect Cheb LogLaws Emit
CHECK_DEADLOCK FALSE
"""


def run(ctx):
    from diffmah.fitting_helpers import measure_mahs as mm
    rng = ctx.rng
    out = ctx.model("MeasureModel", CFG % ((5, "0, 1, 3, 8") if ctx.quick else (6, "0, 1, 3, 8")), workers=1)
    ctx.exhaustive = True
    req = [[int(x) for x in v.split(",")] for v in re.findall(r'<<\s*"B",\s*<<([^>]*)>>', out)]
    evs, meta = [], []

    def mask(x, unit, first, lim, k, z2, default=False):
        """x: integer (halo, time) relative log masses; lim, k: trimming asked for / dropped per end"""
        n = len(x)
        lgmp = float(rng.uniform(10, 15.5))
        a = rng.uniform(8, 16, (n, 1))
        logm = a + np.asarray(x, float) * unit
        c0 = logm.copy()
        kw = {} if default else dict(lim=lim, z_cut=z2 / 2)
        with np.errstate(all="ignore"):
            r = ctx.must("get_clean_sample_mask", mm.get_clean_sample_mask, logm, lgmp, first, **kw)
        if r is None:
            return False
        r = np.asarray(r)
        rel = np.asarray(x) - np.asarray(x)[:, -1:]
        ok = bool(r.dtype == bool and r.shape == (n,)) and np.array_equal(c0, logm)
        if not ok:
            ctx.violation("mask-form", "mask is not one boolean per halo, or the input was changed", dict(dtype=str(r.dtype), shape=r.shape))
        evs.append(dict(ev="mask", x=rel.tolist(), first=first + 1, k=k, z2=z2, keep=[bool(q) for q in r.ravel()]))
        meta.append(dict(logm=logm, lgmp=lgmp, it_min=first, **kw))
        return True
    for i in rng.permutation(len(req))[: 500 if ctx.quick else 6000]:
        s = req[i]
        n = len(s)
        for lim in (0.0, 0.25, 0.375):
            k = int(lim * n)
            if n - 2 * k < 2:
                continue
            z2 = int(rng.choice([1, 2, 3, 4, 6]))
            x = np.zeros((n, 2), int)
            x[:, 0] = s
            off = rng.integers(-3, 4, (n, 1))
            if not mask(x + off, 0.125, 0, lim, k, z2):
                return
        ctx.count(1, (n, len(set(s))))
    for i in range(60 if ctx.quick else 600):
        n = int(rng.choice([6, 13, 20, 150]))
        nt = int(rng.integers(2, 7))
        amp = 20 if n == 150 else 100
        x = np.clip(np.round(rng.standard_t(2, (n, nt)) * amp / 8).astype(int), -amp, amp)
        x[:, -1] = 0
        first = int(rng.integers(0, nt - 1))
        default = i % 4 == 0
        lim = 0.01 if default else float(rng.choice([0.0, 0.01, 0.07, 0.2]))
        k = int(lim * n)
        if abs(lim * n - round(lim * n)) < 1e-6 and lim > 0:
            continue
        z2 = 6 if default else int(rng.choice([1, 2, 3, 4, 5, 6]))
        cols = x - x[:, -1:]
        if not mask(x, 0.01, first, lim, k, z2, default):
            return
        ctx.count(1, ("m", n, nt, k, z2))
    # ---- target measurements
    for i in range(75 if ctx.quick else 700):
        n, nt = int(rng.choice([2, 3, 5, 12, 30])), int(rng.integers(3, 9))
        lgmp = float(np.round(rng.uniform(9, 16), 5))
        q = lambda z: np.round(z, 6)
        a = q(rng.uniform(0.5, 12, (n, nt)))
        if i % 2:
            a = np.sort(a, axis=1)
        spread = rng.uniform(0.5, 2)
        a[:, :-1] = q(np.clip(a[:, :-1] * 10 ** (rng.choice([-1, 1], (n, 1)) * np.minimum(spread, 0.4)), 0.3, 40))
        a[0, :-1] = q(a[0, :-1] * 0.4 + 0.1)
        a[:, -1] = q(rng.uniform(2, 12, n))
        d = q(rng.uniform(0.4, 6, (n, nt)))
        d[0] = q(d[0] * 0.5 + 0.2)
        d[-1] = q(d[-1] + 3)
        if np.std(d / a[:, -1:], axis=0).min() < 0.1 or np.std(np.log10(a / a[:, -1:]), axis=0)[:-1].min() < 0.05:
            continue        # keep the fixed-point moments well resolved
        e = np.concatenate([np.sort(rng.integers(0, 7, nt - 1))[::-1], [0]])
        g = rng.integers(-2, 4, nt)
        lgt = np.round(np.sort(rng.choice(np.arange(-500, 1140), nt, replace=False)) / 1000.0, 3)
        m = int(rng.integers(1, 12))
        tg = np.round(np.concatenate([rng.uniform(lgt[0], lgt[-1], m), rng.choice(lgt, 2), lgt[[0, -1]]]), 6)
        tg = np.clip(tg, lgt[0], lgt[-1])
        if i % 2:
            rng.shuffle(tg)
        c = 10 ** rng.uniform(7, 14, (n, 1)) if i % 3 else np.full((n, 1), 10 ** rng.uniform(7, 14))
        mah = c * a * 10.0 ** -e
        rate = c * d * 10.0 ** -g
        c0 = (mah.copy(), rate.copy(), lgt.copy(), tg.copy())
        r = ctx.must("measure_target_data", mm.measure_target_data, mah, rate, lgt, tg, lgmp)
        if r is None:
            return
        if not all(np.array_equal(x, y) for x, y in zip(c0, (mah, rate, lgt, tg))):
            ctx.violation("input-changed", "measuring changed its inputs", {})
        r = [np.asarray(z, float) for z in r]
        if len(r) != 5 or any(z.shape != tg.shape for z in r):
            ctx.violation("shape", "one value per requested time", dict(shapes=[z.shape for z in r], want=tg.shape))
            return
        with np.errstate(all="ignore"):
            mean, lmean, vlog, dmean, vd = r
            evs.append(dict(ev="measure", a=fx(a), d=fx(d), e=e.tolist(), g=g.tolist(), lgmp=fx(lgmp), lgt=fx(lgt), x=fx(tg), mass=fx(np.log10(mean) - lgmp),
                            rate=fx(np.log10(dmean) - lgmp), srate=fx(np.log10(vd) / 2 - lgmp), logm=fx(np.log10(lmean)), slog=fx(np.sqrt(vlog))))
        meta.append(dict(mah=mah, dmhdt=rate, lgt=lgt, lgt_target=tg, logmp_sample=lgmp))
        ctx.count(1, ("t", n, nt))
    ctx.trace("MeasureTrace", evs, meta, shards=ctx.blocks(evs, lambda e: True, 6))
    ctx.notes["rule"] = "one measurement or mask; distinct = sizes and settings"
    ctx.assumptions += ["positive histories and rates with spread; target times within the table",
                        "a halo exactly on the cut is not judged; log masses are multiples of 0.01 or 0.125 dex, offset per halo"]
