"""Runs the generators with jax.random's samplers wrapped and prints the keys they used (own process: the
wrappers stay in the compiled code)."""
import json, os, sys
import numpy as np
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import vf
LOG = []


def patch():
    """record every key that is drawn from or split, as the real code runs (also inside jit and vmap)"""
    import jax
    from jax import random as jr

    def log(tag, what):
        def f(k):
            k = np.asarray(k).astype(np.uint32).reshape(-1)
            LOG.append((tag, what, int(k[0]), int(k[-1])))
        return f

    def data(key):
        import jax.numpy as jnp
        key = jnp.asarray(key)
        return jax.random.key_data(key) if jnp.issubdtype(key.dtype, jax.dtypes.prng_key) else key
    for nm in ("uniform", "normal", "multivariate_normal", "bernoulli", "randint", "truncated_normal", "choice",
               "permutation", "exponential", "gamma", "beta", "categorical", "bits", "cauchy", "laplace"):
        if hasattr(jr, nm):
            def mk(nm, fn):
                def w(key, *a, **k):
                    out = fn(key, *a, **k)
                    jax.debug.callback(log("draw", f"{nm}{tuple(out.shape)}"), data(key))
                    return out
                return w
            setattr(jr, nm, mk(nm, getattr(jr, nm)))
    for nm in ("split", "fold_in"):
        def mk2(nm, fn):
            def w(key, *a, **k):
                out = fn(key, *a, **k)
                jax.debug.callback(log("split", nm), data(key))
                return out
            return w
        setattr(jr, nm, mk2(nm, getattr(jr, nm)))


def main(out, seed, reps):
    import jax
    from jax import random as jr
    patch()
    vf.setup_repo()
    import popgen
    rng = np.random.default_rng([seed, 1111])
    nh, res = 7, []
    tarr = np.linspace(1, 13.5, 3).astype("f4")
    for rep in range(reps):
        for kind, mod, popf, mcf, momf in popgen.kinds():
            P = popgen.pop_params(rng, 5)
            lgm, tob, tpk, lgt0 = popgen.inputs(rng, nh)
            key = jr.PRNGKey(int(rng.integers(1 << 30)))
            for lab, fn, mx, a in ((f"{kind} pop", popf, 2, (P, lgm, tob, key, lgt0)),
                                   (f"{kind} pop t_peak", popf, 1, (P, lgm, tob, key, lgt0, tpk)),
                                   (f"{kind} histories", mcf, 2, (P, tarr, lgm, tob, key, lgt0)),
                                   (f"{kind} moments", momf, 2, (P, tarr, lgm[0], tob[0], key, lgt0))):
                if rep and "moments" in lab:
                    continue
                jax.effects_barrier()
                LOG.clear()
                try:
                    jax.block_until_ready(fn(*a))
                    err = None
                except Exception as e:
                    err = f"{type(e).__name__}: {str(e)[:300]}"
                jax.effects_barrier()
                res.append(dict(label=lab, max=mx, err=err, log=list(LOG)))
    json.dump(res, open(out, "w"))
    sys.stdout.flush()
    os._exit(0)


main(sys.argv[1], int(sys.argv[2]), int(sys.argv[3]))
