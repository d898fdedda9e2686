"""Shared generators of inputs in the documented domains."""
import numpy as np
BND = dict(logm0=(0.0, 17.0), logtc=(-1.0, 1.0), early_index=(0.1, 10.0), late_index=(0.1, 5.0),
           t_peak=(0.05, 20.0))
NAMES = list(BND)


def halos(rng, n, early_ge_late=True, edge=True, tpk_max=20.0):
    """n parameter sets (columns in the documented order), from everywhere in bounds."""
    out = np.zeros((n, 5))
    for i in range(n):
        r = rng.uniform()
        if r < 0.5:    # uniform
            v = [rng.uniform(*BND[k]) for k in NAMES]
            if rng.uniform() < 0.5:
                v[0] = rng.uniform(9, 16)
        elif r < 0.85 or not edge:  # calibrated region
            v = [rng.uniform(10, 15.5), rng.normal(0.05, 0.3), rng.uniform(1, 5), rng.uniform(0.1, 1.5),
                 rng.uniform(0.5, 16)]
        else:          # corners and edges
            v = [float(rng.choice(BND[k])) if rng.uniform() < 0.6 else rng.uniform(*BND[k]) for k in NAMES]
        v = [float(np.clip(x, *BND[k])) for x, k in zip(v, NAMES)]
        v[4] = min(v[4], tpk_max)
        if early_ge_late and v[2] < v[3]:
            if v[3] < 5.0 and v[2] >= 0.1 and rng.uniform() < 0.8:
                v[2], v[3] = v[3], v[2]
            else:
                v[2] = v[3]
        if rng.uniform() < 0.04:
            v[2] = v[3]
        out[i] = v
    return out


def f32(x):
    return np.asarray(x, dtype=np.float32)


def x64():
    """Context in which the code under test computes in double precision."""
    import jax
    if hasattr(jax, "enable_x64"):
        return jax.enable_x64(True)
    from jax.experimental import enable_x64
    return enable_x64()
