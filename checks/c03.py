"""C03: results per sample do not depend on how samples are batched."""
import jax
import jax.numpy as np
import numpy as onp

import parametricmatrixmodels as pmm
import parametricmatrixmodels.modules as M
from parametricmatrixmodels import NonSequentialModel as NS
from vlib import gen as G
from vlib.core import Registry
from vlib.probes import Combine, Tag, Tally, Weights

R = Registry()
RULE = (
    "Random models (pipelines, graphs with tree inputs and outputs) and sample"
    " counts; the same data is evaluated whole, one sample at a time, permuted,"
    " and with random maximum batch sizes (dividing, not dividing, larger than,"
    " equal to the data) with and without recompilation avoidance, in random call"
    " order on one model object, for predictions, input and parameter gradients."
)


def rand_model(rng):
    if rng.rand() < 0.6:
        p = int(rng.randint(1, 4))
        mods, w = G.rand_pipe(rng, p, rng.randint(1, 4))
        mods = mods + [Tag(0.9, 0.2)]  # at least one parameter
        m = pmm.SequentialModel(mods, rng=0)
        shape = (p,)
        m.compile(int(rng.randint(1000)), shape)
        desc = G.names(mods)
    else:
        d = int(rng.randint(1, 3))
        shape = G.rand_shape_tree(rng, 1, shapef=lambda: (d,), leaf_p=0.1)
        kinds = [G.pick(rng, ["arr", "dict", "list", "deep"]) for _ in range(2)]
        m = NS(
            {"a": Combine(0.8, 0.2, kinds[0]), "b": Combine(0.6, -0.3, kinds[1]), "t": Tag(1.1, 0.4)},
            {"input": ["a", "t"], "a": "b.0", "t": "b.1", "b": "output"},
            rng=0,
        )
        m.compile(0, shape)
        desc = ["graph"] + kinds
    G.jitter_params(rng, m)
    return m, shape, desc


def count(rng, small):
    """mostly few samples, sometimes many"""
    return int(rng.randint(1, small)) if rng.rand() < 0.85 else int(rng.randint(30, 75))


def take(X, i):
    return jax.tree.map(lambda x: x[i], X)


def batch_opts(rng, n):
    out = [
        dict(max_batch_size=int(rng.randint(1, n + 2)), avoid_recompilation=bool(rng.randint(2)))
        for _ in range(2)
    ]
    out.append(dict(max_batch_size=G.pick(rng, [1, n, n + 3, max(1, n - 1), max(1, n // 2)])))
    out.append(dict(max_batch_size=max(1, n // 2), avoid_recompilation=True))
    return [out[i] for i in rng.permutation(len(out))]


@R.scenario(quick=24, thorough=240)
def predict(rng, mon):
    m, shape, desc = rand_model(rng)
    n = count(rng, 10)
    X = G.data_for(rng, shape, n)
    mon.sig(desc, shape, n)
    full = m(X)
    for leaf in jax.tree.leaves(full):
        mon.equal(leaf.shape[0], n, "count", "one result per sample")
    for o in batch_opts(rng, n):
        y = m(X, **o)
        mon.tree_close(y, full, "batched", f"predict with {o} vs whole", rtol=1e-3, atol=1e-4)
        mon.event("batchings")
    # a different amount of data with the same options must not reuse anything
    n2 = int(rng.randint(1, 10))
    X2 = G.data_for(rng, shape, n2)
    y2 = m(X2, **o)
    mon.tree_close(m(X, **o), full, "batched", f"predict again with {o} vs whole", rtol=1e-3, atol=1e-4)
    singles = [m(take(X2, slice(i, i + 1))) for i in range(n2)]
    ref = jax.tree.map(lambda *v: np.concatenate(v), *singles)
    mon.tree_close(y2, ref, "single", "predict vs one sample at a time", rtol=1e-3, atol=1e-4)
    perm = rng.permutation(n)
    mon.tree_close(
        m(take(X, perm)), take(full, perm), "permuted", "reordered samples", rtol=1e-3, atol=1e-4
    )
    # replacing one sample leaves the other results alone
    if n > 1:
        i = int(rng.randint(n))
        Xm = jax.tree.map(lambda x: x.at[i].set(7.7), X)
        keep = onp.delete(onp.arange(n), i)
        mon.tree_close(
            take(m(Xm, **o), keep), take(full, keep), "independent",
            "a result changed with another sample", rtol=1e-3, atol=1e-4,
        )


@R.scenario(quick=12, thorough=120)
def conservation(rng, mon):
    """Instruments inside the model see every sample exactly once, whatever
    the batching, and the final state is that after all samples."""
    n = count(rng, 12)
    shape = G.rand_shape_tree(rng, 1)
    X = G.data_for(rng, shape, n)
    m = pmm.SequentialModel([Weights(1.0, 0.0), Tally(), Tag(0.7, 0.1)], rng=0)
    m.compile(0, shape)
    s0 = np.asarray([0.0, float(rng.randint(3))], dtype=np.float32)
    m.set_state([(), s0, ()])
    total = float(sum(onp.asarray(x, dtype="f8").sum() for x in jax.tree.leaves(X)))
    for o in batch_opts(rng, n) + [{}]:
        which = G.pick(rng, ["predict", "predict", "predict", "grad_params", "grad_input"])
        f = m if which == "predict" else getattr(m, which)
        _, st = f(X, return_state=True, **o)
        mon.event(which)
        st = onp.asarray(jax.tree.leaves(st)[0])
        mon.equal(float(st[0]), float(n), "seen-count", f"samples seen with {o}")
        mon.close(st[1], float(s0[1]) + total, "seen-sum", f"sum of data seen with {o}", rtol=1e-3, atol=1e-2)
        mon.tree_same(m.get_state()[1], s0, "state-kept", "prediction changed the stored state")
    mon.sig(n, shape)


@R.scenario(quick=14, thorough=140)
def gradients(rng, mon):
    m, shape, desc = rand_model(rng)
    n = int(rng.randint(2, 7))
    X = G.data_for(rng, shape, n)
    which = G.pick(rng, ["grad_input", "grad_params"])
    f = getattr(m, which)
    mon.sig(which, desc, shape, n)
    full = f(X)
    for leaf in jax.tree.leaves(full):
        mon.equal(leaf.shape[0], n, "grad-count", "one gradient per sample")
    tol = dict(rtol=5e-3, atol=1e-3)
    for o in batch_opts(rng, n)[:3]:
        mon.tree_close(f(X, **o), full, "grad-batched", f"{which} with {o} vs whole", **tol)
        mon.event("batchings")
    i = int(rng.randint(n))
    mon.tree_close(f(take(X, slice(i, i + 1))), take(full, slice(i, i + 1)), "grad-single", which, **tol)
    perm = rng.permutation(n)
    mon.tree_close(f(take(X, perm)), take(full, perm), "grad-permuted", which, **tol)


@R.scenario(quick=10, thorough=100)
def scalar_leaves(rng, mon):
    """Leaves without feature axes beside ones with, all batchings."""
    d = int(rng.randint(1, 4))
    shape = {"a": (d,), "b": (), "c": [(2, d), ()]}
    m = pmm.SequentialModel([Tag(0.8, 0.3), Tally(), M.Tanh()], rng=0)
    m.compile(0, shape)
    n = count(rng, 9)
    X = jax.tree.map(
        lambda s: np.asarray(rng.randn(n, *s), dtype=np.float32), shape,
        is_leaf=lambda s: isinstance(s, tuple),
    )
    mon.sig(d, n)
    ref = jax.tree.map(lambda x: onp.tanh(onp.sin(float(onp.float32(0.8)) * G.n64(x) + float(onp.float32(0.3)))), X)
    for o in [{}] + batch_opts(rng, n):
        m.set_state([(), np.zeros(2, dtype=np.float32), ()])
        b = o.get("max_batch_size", n)
        y, st = m(X, return_state=True, **o)
        mon.equal(float(jax.tree.leaves(st)[0][0]), float(n), "scalar-count", f"{o}")
        if b >= n:  # the counter shifts the data only after the first batch
            mon.tree_close(y, ref, "scalar-leaf", f"{o}", rtol=1e-3, atol=1e-4)
        else:
            mon.tree_close(
                take(y, slice(0, b)), take(ref, slice(0, b)), "scalar-leaf", f"{o}", rtol=1e-3, atol=1e-4
            )
            for leaf in jax.tree.leaves(y):
                mon.equal(leaf.shape[0], n, "count", f"one result per sample {o}")


@R.scenario(quick=10, thorough=80)
def option_history(rng, mon):
    """Any sequence of calls with different options on one model object."""
    m, shape, desc = rand_model(rng)
    fresh = m.copy()
    ops = []
    for _ in range(6):
        n = int(rng.randint(1, 7))
        X = G.data_for(rng, shape, n)
        o = G.pick(rng, batch_opts(rng, n) + [{}])
        if rng.rand() < 0.2:
            o = dict(o, verbose=True)
        y = m(X, **o)
        ops.append((n, tuple(o.items())))
        if rng.rand() < 0.3:
            m.grad_input(X, **{k: v for k, v in o.items() if k != "verbose"})
        mon.tree_close(y, fresh(X), "history", f"after {ops}", rtol=1e-3, atol=1e-4)
    mon.sig(desc, ops)
