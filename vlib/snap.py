"""Complete, comparable picture of a module or model as seen through its public
interface."""
import jax
import jax.numpy as np
import numpy as onp

import parametricmatrixmodels as pmm
from parametricmatrixmodels.modules import BaseModule


def arr(x):
    x = onp.array(x)
    return (str(x.dtype), x.shape, x.tobytes())


def tree(t):
    leaves, td = jax.tree.flatten(t)
    return (str(td), [arr(x) for x in leaves])


def norm(v):
    """hyperparameter value -> comparable"""
    if isinstance(v, dict):
        return {str(k): norm(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [type(v).__name__] + [norm(x) for x in v]
    if isinstance(v, BaseModule):
        return snap(v)
    if hasattr(v, "dtype") and hasattr(v, "shape"):
        if jax.dtypes.issubdtype(v.dtype, jax.dtypes.prng_key):
            return arr(jax.random.key_data(v))
        return arr(v)
    if callable(v):
        return getattr(v, "__qualname__", type(v).__name__)
    return v if v is None or isinstance(v, (int, float, complex, str, bool)) else repr(v)


def snap(m, hyper=True):
    d = dict(
        type=type(m).__name__,
        name=m.name,
        params=tree(m.get_params()),
        state=tree(m.get_state()),
        ready=m.is_ready(),
    )
    if hyper:
        d["hyper"] = norm(m.get_hyperparameters())
    if isinstance(m, pmm.Model):
        d["rng"] = arr(jax.random.key_data(m.get_rng()))
        d["flags"] = norm(m.get_trainable_modules()) if m.modules is not None else None
        d["structure"] = str(jax.tree.structure(m.modules))
        d["shapes"] = (norm(m.input_shape), norm(m.output_shape))
        d["modules"] = [snap(s, hyper) for s in jax.tree.leaves(m.modules)]
    else:
        d["trainable"] = bool(m.trainable)
    return d


def diff(a, b, path=""):
    """first difference of two snapshots, or None"""
    if type(a) is not type(b):
        return f"{path}: {a!r} vs {b!r}"[:300]
    if isinstance(a, dict):
        if set(a) != set(b):
            return f"{path}: keys {sorted(a)} vs {sorted(b)}"
        for k in a:
            r = diff(a[k], b[k], f"{path}.{k}")
            if r:
                return r
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: {a!r} vs {b!r}"[:300]
        for i, (x, y) in enumerate(zip(a, b)):
            r = diff(x, y, f"{path}[{i}]")
            if r:
                return r
        return None
    if a != b and not (a != a and b != b):
        return f"{path}: {a!r} vs {b!r}"[:300]
    return None


def same(mon, a, b, key, what=""):
    mon.event("checks")
    mon.event("check:" + key)
    r = diff(a, b)
    if r:
        mon.fail(key, what, difference=r)
