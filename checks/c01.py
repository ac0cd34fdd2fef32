"""C01: a sequential model is the composition of its modules, in order."""
import jax
import jax.numpy as np
import numpy as onp

import parametricmatrixmodels as pmm
import parametricmatrixmodels.modules as M
from vlib import gen as G
from vlib.core import Registry
from vlib.probes import ModeFlag, Noise, Tag, Tally, Weights

R = Registry()
RULE = (
    "Random module lists (list, tuple, nested) over random input widths and batch"
    " sizes, with every parameter randomized; the oracle folds the input through"
    " the modules one at a time, or evaluates a closed NumPy formula."
)


def fold(modules, x):
    states = []
    for m in modules:
        if isinstance(m, pmm.SequentialModel):
            x, s = fold(jax.tree.leaves(m.modules), x)
        else:
            x, s = m(x, state=m.get_state(), rng=jax.random.key(0))
        states.append(s)
    return x, states


def nest(rng, mods):
    """Random nesting of the list that keeps the flattened order."""
    k = rng.randint(4)
    if k == 0 or len(mods) < 2:
        return list(mods), "list"
    if k == 1:
        return tuple(mods), "tuple"
    i = rng.randint(1, len(mods))
    a, b = list(mods[:i]), tuple(mods[i:])
    return ([a, b], "nested") if k == 2 else ((a, [b]), "nested2")


@R.scenario(quick=52, thorough=260)
def pipe(rng, mon):
    p = int(rng.randint(1, 5))
    mods, w = G.rand_pipe(rng, p, rng.randint(1, 6), stateful=True)
    tree, kind = nest(rng, mods)
    n = int(rng.randint(1, 7))
    mon.sig(kind, G.names(mods), p, w, n)
    m = pmm.SequentialModel(tree, rng=int(rng.randint(1000)))
    m.compile(int(rng.randint(1000)), (p,))
    G.jitter_params(rng, m)
    X = G.fa(rng, n, p)
    y, st = m(X, return_state=True)
    ref, rst = fold(mods, X)
    mon.close(y, ref, "compose", "output differs from folding the modules", rtol=1e-3)
    mon.equal(
        jax.tree.structure(st), jax.tree.structure(m.get_state()), "state-struct"
    )
    for a, b in zip(jax.tree.leaves(st), jax.tree.leaves(rst)):
        mon.close(a, b, "state", "returned state", rtol=1e-3)
    mon.event("modules_run", len(mods))


@R.scenario(quick=40, thorough=200)
def closed_form(rng, mon):
    """Only instruments: independent NumPy evaluation, tree data."""
    shape = G.rand_shape_tree(rng, 2)
    n = int(rng.randint(1, 6))
    X = G.data_for(rng, shape, n)
    mods, refs = [], []
    for _ in range(rng.randint(2, 8)):
        k = rng.randint(4)
        if k <= 1:
            a, b = float(rng.uniform(0.5, 2)), float(rng.randn())
            mods.append(Tag(a, b))
            refs.append(("tag", onp.float32(a), onp.float32(b)))
        elif k == 2:
            a, b = float(rng.uniform(0.5, 2)), float(rng.randn())
            mods.append(Weights(a, b))
            refs.append(("w", onp.float32(a), onp.float32(b)))
        else:
            t = Tally()
            t.set_state(np.asarray([float(rng.randint(5)), 0.5], dtype=np.float32))
            mods.append(t)
            refs.append(("t", float(t.s[0]), 0))
    tree, kind = nest(rng, mods)
    mon.sig(kind, [r[0] for r in refs], jax.tree.structure(X), n)
    m = pmm.SequentialModel(tree, rng=0)
    m.compile(0, shape)
    y, st = m(X, return_state=True)
    ref = G.t64(X)
    st_ref = []
    for kind_, a, b in refs:
        if kind_ == "tag":
            ref = jax.tree.map(lambda x: onp.sin(a * x + b), ref)
        elif kind_ == "w":
            ref = jax.tree.map(lambda x: a * x + b, ref)
        else:
            st_ref.append([a + n, 0.5 + sum(x.sum() for x in jax.tree.leaves(ref))])
            ref = jax.tree.map(lambda x: x + 0.1 * a, ref)
    mon.tree_close(y, ref, "closed-form", "model output vs closed form", rtol=2e-3, atol=1e-3)
    got = [onp.asarray(s) for s in jax.tree.leaves(st)]
    mon.equal(len(got), len(st_ref), "state-count")
    for a, b in zip(got, st_ref):
        mon.close(a, onp.array(b), "tally", "state of instrument", rtol=1e-3, atol=1e-2)
    mon.event("modules_run", len(mods))


@R.scenario(quick=20, thorough=100)
def nested_models(rng, mon):
    """A model used as a module acts as the list of its modules."""
    p = int(rng.randint(1, 4))
    a, w = G.rand_pipe(rng, p, rng.randint(1, 4))
    b, w2 = G.rand_pipe(rng, w, rng.randint(1, 4))
    c, w3 = G.rand_pipe(rng, w2, rng.randint(0, 3))
    inner = pmm.SequentialModel(list(b) + [Tally()], rng=1)
    if rng.randint(2):
        inner = pmm.SequentialModel([inner], rng=2)
    m = pmm.SequentialModel(list(a) + [inner] + list(c), rng=3)
    m.compile(int(rng.randint(1000)), (p,))
    G.jitter_params(rng, m)
    n = int(rng.randint(1, 6))
    X = G.fa(rng, n, p)
    mon.sig(G.names(a), G.names(b), G.names(c), p, n)
    y, st = m(X, return_state=True)
    h, _ = fold(a, X)
    h, _ = fold(b, h)
    tally = onp.array([n, float(np.sum(h))])
    ref, _ = fold(c, h)
    mon.close(y, ref, "nested", "nested model vs flat fold", rtol=1e-3)
    s = [onp.asarray(x) for x in jax.tree.leaves(st)]
    mon.equal(len(s), 1, "nested-state-count")
    mon.close(s[0], tally, "nested-state", rtol=1e-3, atol=1e-2)


@R.scenario(quick=6, thorough=60)
def own_parameters(rng, mon):
    """set_params gives each module its own parameters and get_params returns
    them in module order."""
    k = int(rng.randint(2, 6))
    vals = rng.uniform(0.5, 2, size=(k, 2)).astype("float32")
    mods = [Tag() if i % 2 else Weights() for i in range(k)]
    tree, kind = nest(rng, mods)
    m = pmm.SequentialModel(tree, rng=0)
    m.compile(0, (2,))
    m.set_params(
        jax.tree.unflatten(
            jax.tree.structure(tree),
            [
                np.asarray(v) if i % 2 else {"w": np.asarray(v[0]), "c": (np.asarray(v[1:2]),)}
                for i, v in enumerate(vals)
            ],
        )
    )
    X = G.fa(rng, 3, 2)
    mon.sig(kind, k, vals[:, 0].tolist())
    y = m(X)
    ref = G.n64(X)
    for i, (a, b) in enumerate(vals.astype(float)):
        ref = onp.sin(a * ref + b) if i % 2 else a * ref + b
    mon.close(y, ref, "own-params", rtol=1e-3, atol=1e-3)
    flat = [onp.asarray(x).ravel() for x in jax.tree.leaves(m.get_params())]
    want = []
    for i, v in enumerate(vals):
        want += [v] if i % 2 else [v[1:2], v[:1]]
    mon.equal(len(flat), len(want), "params-count")
    for a, b in zip(flat, want):
        mon.close(a, b, "params-order", atol=0, rtol=0)


@R.scenario(quick=28, thorough=140)
def modes_and_keys(rng, mon):
    """Prediction runs modules in inference mode; random modules get keys
    derived from the given key only, and different modules get different
    ones."""
    X = G.fa(rng, 4, 2)
    k = int(rng.randint(2, 6))
    seed = int(rng.randint(2**31))

    def model(ps):
        r = onp.random.RandomState(seed)
        form = r.randint(4)
        if form == 0:
            tree, kind = list(ps), "flat"
        elif form == 1:
            tree, kind = nest(r, list(ps))
        elif form == 2:  # everything in one nested container
            tree, kind = [list(ps[: k // 2]) + [tuple(ps[k // 2 :])]], "deep"
        else:  # a model inside the model
            c = r.randint(0, k - 1)
            inner = pmm.SequentialModel(list(ps[c:]), rng=6)
            tree, kind = list(ps[:c]) + [inner], "model"
        m = pmm.SequentialModel([tree, ModeFlag()], rng=5)
        m.compile(0, (2,))
        return m, kind

    m, kind = model([Noise() for _ in range(k)])
    s = int(rng.randint(10000))
    mon.sig(k, s, kind)
    a, b = m(X, rng=s), m(X, rng=jax.random.key(s))
    mon.tree_same(a, b, "seed-vs-key")
    mon.tree_same(m(X, rng=s), a, "repeat")
    mon.check(
        float(np.abs(m(X, rng=s + 1) - a).max()) > 1e-6, "key-used", "key has no effect"
    )
    # the noise of each module alone: sum over i of z_i, all different
    z = []
    for i in range(k):
        mods = [M.Comment("x") for _ in range(k)]
        mods[i] = Noise()
        z.append(float((model(mods)[0](X, rng=s) - X)[0, 0]))
    mon.check(len({round(v, 5) for v in z}) == k, "keys-distinct", z=z, kind=kind)
    mon.close(a, X + sum(z), "mode", "noise sum / inference mode", rtol=1e-3, atol=1e-3)
