"""C18: every basic module computes its documented formula."""
import jax
import jax.numpy as np
import numpy as onp

import parametricmatrixmodels as pmm
import parametricmatrixmodels.modules as M
from vlib import catalog as C
from vlib import gen as G
from vlib.core import Registry, Skip

R = Registry()
RULE = (
    "Random hyperparameters, parameter values and input trees for every module of"
    " the catalogue; the module's output is compared with an independent NumPy"
    " evaluation in double precision."
)


def apply(m, X):
    if isinstance(m, pmm.Model):
        return m(X)
    return m(X, state=m.get_state(), rng=jax.random.key(0))[0]


def run_entry(rng, mon, e, key):
    m = e["module"]
    m.compile(jax.random.key(int(rng.randint(1000))), e["shape"])
    mon.check(m.is_ready(), "ready", e["name"])
    if jax.tree.leaves(m.get_params()) and rng.rand() < 0.8:
        C.params_jitter(rng, m)
    n = int(rng.randint(1, 5))
    X = e["x"](rng, n)
    mon.sig(e["name"], e["shape"], n)
    y = apply(m, X)
    ref = e["ref"](G.t64(m.get_params()), G.t64(X))
    mon.tree_close(y, ref, key, f"{e['name']} on {e['shape']}", rtol=e.get("rtol", 1e-4), atol=2e-5)
    mon.event("module:" + type(m).__name__)
    return m, X, y


@R.scenario(quick=312, thorough=5000)
def catalogue(rng, mon):
    run_entry(rng, mon, G.cycle(rng, C.BASIC)(rng), "formula")


STRUCTURE = [C.concat, C.concat, C.treekey, C.treeflatten, C.flatten, C.reshape, C.einsum, C.matmul, C.glu]


@R.scenario(quick=270, thorough=4000)
def structure(rng, mon):
    """more of the modules that rearrange trees and axes"""
    run_entry(rng, mon, G.cycle(rng, STRUCTURE)(rng), "formula")


@R.scenario(quick=1, thorough=6)
def every_activation(rng, mon):
    for name in sorted(C.ACT):
        run_entry(rng, mon, C.activation(rng, name), "activation")


@R.scenario(quick=1, thorough=4)
def activation_arguments(rng, mon):
    for name, args, kw, dom, ref in C.ACT_ARGS:
        m = getattr(M, name)(*args, **kw)
        x = C._dom(dom)(rng, 3, 2, 4)
        mon.close(m(x, state=(), rng=None)[0], ref(G.n64(x)), "activation-args", f"{name}{args}{kw}", rtol=1e-4)
        mon.sig(name, args, kw, str(x[0, 0, 0]))


@R.scenario(quick=30, thorough=500)
def in_model(rng, mon):
    """The same through a compiled model and its prediction call."""
    e = G.cycle(rng, C.BASIC)(rng)
    e["module"].compile(jax.random.key(int(rng.randint(100))), e["shape"])
    n = int(rng.randint(1, 5))
    X = e["x"](rng, n)
    out = e["ref"](G.t64(e["module"].get_params()), G.t64(X))
    if any(onp.ndim(v) < 2 for v in jax.tree.leaves(out)):
        raise Skip()  # scalar outputs per sample are not model outputs
    m = pmm.SequentialModel([e["module"]], rng=0)
    m.compile(int(rng.randint(100)), e["shape"])
    out = e["ref"](G.t64(e["module"].get_params()), G.t64(X))
    mon.sig(e["name"], e["shape"], n)
    mon.tree_close(m(X), out, "formula-in-model", e["name"], rtol=e.get("rtol", 1e-4), atol=2e-5)


@R.scenario(quick=12, thorough=150)
def parameters_change(rng, mon):
    """The output follows every later change of the parameters."""
    while True:
        e = G.pick(rng, C.BASIC)(rng)
        m = e["module"]
        m.compile(jax.random.key(1), e["shape"])
        if jax.tree.leaves(m.get_params()):
            break
    X = e["x"](rng, 2)
    f = jax.jit(m._get_callable(), static_argnums=2) if rng.randint(2) else None
    mon.sig(e["name"], e["shape"])
    for _ in range(3):
        C.params_jitter(rng, m)
        y = apply(m, X) if f is None else f(m.get_params(), X, False, m.get_state(), jax.random.key(0))[0]
        mon.tree_close(y, e["ref"](G.t64(m.get_params()), G.t64(X)), "follows-params", e["name"], rtol=e.get("rtol", 1e-4), atol=2e-5)
