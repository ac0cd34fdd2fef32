"""C11: gradients against finite differences of the model's own predictions."""
import jax
import jax.numpy as np
import numpy as onp

import parametricmatrixmodels as pmm
import parametricmatrixmodels.modules as M
from vlib import gen as G, snap as S
from vlib.core import Registry, Skip
from vlib.probes import Combine, Gain, Tag, Weights

R = Registry()
RULE = (
    "Gradients of random models in double precision are compared element by element"
    " (inputs) and along single-element and random directions (parameters, Hermitian"
    " where required) with central differences of the model's predictions, for all"
    " modes, batchings and call sequences; the model is snapshotted around each call."
)
ASSUMPTIONS = [
    "Points where two finite-difference step sizes disagree (kinks, nearly degenerate"
    " eigenvalues) are not decided."
]


def f64(t):
    return jax.tree.map(lambda v: np.asarray(onp.asarray(v), np.float64), t)


def tree_model(rng):
    """models with trees in and trees out"""
    k = G.pick(rng, ["combine", "acts", "graph"])
    s = (int(rng.randint(1, 3)),) if rng.randint(2) else (2, int(rng.randint(1, 3)))
    if k == "combine":
        shape = {"a": s, "b": [s, s]} if rng.randint(2) else (s, s)
        mods = [Combine(0.7, 0.2, G.pick(rng, ["dict", "list", "deep", "arr"])), Tag(1.1, 0.3)]
        if rng.randint(2):
            mods.append(M.Bias(init_magnitude=0.5))
        return pmm.SequentialModel(mods, rng=1), shape, k
    if k == "acts":
        shape = G.rand_shape_tree(rng, 2)
        mods = [G.act(rng), M.Bias(init_magnitude=0.5), Weights(1.2, 0.1), G.act(rng)]
        return pmm.SequentialModel([mods[i] for i in rng.permutation(4)], rng=1), shape, k
    p = int(rng.randint(1, 3))
    a, wa = G.rand_pipe(rng, p, 2)
    mods = {"z": pmm.SequentialModel(a, rng=1), "t": Tag(0.8, 0.4), "w": Weights(1.3, 0.2)}
    conns = {"input.x": ["z", "t"], "input.y": "w", "z": "output.o1", "t": "output.o2.q", "w": "output.o2.r"}
    return pmm.NonSequentialModel(mods, conns, rng=1), {"x": (p,), "y": (2, 2)}, k


def build(rng, params=False):
    if rng.rand() < 0.4:
        m, shape, kind = tree_model(rng)
    else:
        m, shape, w, kind = G.rand_model(rng, depth=int(rng.randint(1, 4)))
        if isinstance(m, pmm.SequentialModel) and isinstance(m.modules, list) and rng.rand() < 0.4:
            m.modules.insert(int(rng.randint(len(m.modules) + 1)), Gain(float(rng.uniform(0.5, 2))))
    m.compile(int(rng.randint(1000)), shape)
    if params and not jax.tree.leaves(m.get_params()):
        raise Skip()
    G.jitter_params(rng, m)
    m.set_precision(64)
    return m, shape, kind


def pred(m, X):
    return [onp.asarray(v) for v in jax.tree.leaves(m(X))]


def central(f, h=1e-4):
    """derivative at 0 of a function of t, by Richardson extrapolation, and an
    estimate of its error"""
    d1 = [(a - b) / (2 * h) for a, b in zip(f(h), f(-h))]
    d2 = [(a - b) / (4 * h) for a, b in zip(f(2 * h), f(-2 * h))]
    best = [(4 * a - b) / 3 for a, b in zip(d1, d2)]
    err = max([float(onp.max(onp.abs(a - b), initial=0)) for a, b in zip(d1, d2)] + [0.0])
    big = max([float(onp.max(onp.abs(a), initial=0)) for a in d1] + [0.0])
    if not onp.isfinite(err) or err > 1e-4 * (1 + big):
        raise Skip()
    return best


def modes(rng, m):
    """options of one call"""
    o = {}
    fwd = G.pick(rng, [None, True, False])
    if fwd is not None:
        o["fwd"] = fwd
    if rng.randint(2):
        o["max_batch_size"] = int(rng.randint(1, 6))
    if rng.randint(2):
        o["avoid_recompilation"] = bool(rng.randint(2))
    return o


def check_input(mon, m, X, g, what):
    """g: output structure over input structure, (n, out..., in...)"""
    out = m(X)
    so, si = jax.tree.structure(out), jax.tree.structure(X)
    mon.equal(jax.tree.structure(g), so.compose(si), "input-layout", what)
    G_ = jax.tree.leaves(g)
    xs = [onp.asarray(x) for x in jax.tree.leaves(X)]
    n = xs[0].shape[0]
    k = 0
    outs = [onp.asarray(o) for o in jax.tree.leaves(out)]
    for o in outs:
        for x in xs:
            mon.equal(tuple(G_[k].shape), (n,) + o.shape[1:] + x.shape[1:], "input-shape", what)
            k += 1
    for i, x in enumerate(xs):
        for j in range(int(onp.prod(x.shape[1:]))):
            def f(t):
                y = x.copy().reshape(n, -1)
                y[:, j] += t
                L = list(xs)
                L[i] = y.reshape(x.shape)
                return pred(m, jax.tree.unflatten(si, [np.asarray(v) for v in L]))

            want = central(f)
            for q, w in enumerate(want):
                got = onp.asarray(G_[q * len(xs) + i]).reshape(w.shape + (-1,))[..., j]
                mon.close(got, w, "input-gradient", f"{what}: output {q}, input leaf {i}, element {j}", rtol=1e-5, atol=2e-6)


def direction(rng, leaves, only=None):
    """random tangent of the parameters; Hermitian for Hermitian arrays"""
    d = []
    for j, p in enumerate(leaves):
        if only is not None and only != j:
            d.append(onp.zeros_like(p))
            continue
        v = onp.asarray(rng.randn(*p.shape))
        if rng.rand() < 0.5 and p.size > 1:  # a single element
            v = v * (onp.arange(p.size).reshape(p.shape) == rng.randint(p.size))
        if onp.iscomplexobj(p):
            v = v + 1j * v * rng.randn()
            if p.ndim > 1 and p.shape[-1] == p.shape[-2]:
                v = 0.5 * (v + onp.conj(onp.swapaxes(v, -1, -2)))
        d.append(onp.asarray(v).astype(p.dtype))
    return d


def check_params(rng, mon, m, X, g, what):
    P = m.get_params()
    sp = jax.tree.structure(P)
    L = [onp.asarray(p) for p in jax.tree.leaves(P)]
    out = m(X)
    so = jax.tree.structure(out)
    outs = [onp.asarray(o) for o in jax.tree.leaves(out)]
    mon.equal(jax.tree.structure(g), so.compose(sp), "param-layout", what)
    G_ = [onp.asarray(v) for v in jax.tree.leaves(g)]
    k = 0
    for o in outs:
        for p in L:
            mon.equal(tuple(G_[k].shape), o.shape + p.shape, "param-shape", what)
            k += 1

    def at(d):
        def f(t):
            m.set_params(jax.tree.unflatten(sp, [np.asarray(p + t * v) for p, v in zip(L, d)]))
            r = pred(m, X)
            m.set_params(P)
            return r

        return f

    for only in list(range(len(L))) + [None]:
        d = direction(rng, L, only)
        try:
            want = central(at(d))
        finally:
            m.set_params(P)
        for q, w in enumerate(want):
            got = onp.zeros(w.shape)
            for j, v in enumerate(d):
                a = G_[q * len(L) + j].reshape(w.shape + (-1,))
                got = got + (a * v.reshape(-1)).sum(-1).real
            mon.close(got, w, "param-gradient", f"{what}: output {q}, parameter {only}", rtol=1e-5, atol=2e-6)


def unchanged(mon, m, before):
    S.same(mon, S.snap(m), before, "nothing-changed", "gradient call")


@R.scenario(quick=56, thorough=480, x64=True)
def inputs(rng, mon):
    m, shape, kind = build(rng)
    gain = any(isinstance(x, Gain) for x in jax.tree.leaves(m.modules))
    mon.sig(kind, shape, G.names(m.modules))
    for c in range(2):
        n = int(rng.randint(1, 6))
        X = f64(G.data_for(rng, shape, n))
        o = modes(rng, m)
        if gain:
            o.pop("max_batch_size", None)
        mon.sig(n, o)
        before = S.snap(m)
        g = m.grad_input(X, **o)
        unchanged(mon, m, before)
        check_input(mon, m, X, g, str(o))
        mon.event("gradient calls")
        if rng.randint(2):
            G.jitter_params(rng, m)
            if gain:
                m.set_state(jax.tree.map(lambda s: s * 1.5, m.get_state()))
            mon.sig("changed")


@R.scenario(quick=56, thorough=480, x64=True)
def params(rng, mon):
    m, shape, kind = build(rng, params=True)
    gain = any(isinstance(x, Gain) for x in jax.tree.leaves(m.modules))
    mon.sig(kind, shape, G.names(m.modules))
    for c in range(2):
        n = int(rng.randint(1, 6))
        X = f64(G.data_for(rng, shape, n))
        o = modes(rng, m)
        if G.complexes(m):
            mon.event("complex parameters")
            if o.get("fwd"):  # not supported by jax
                o.pop("fwd")
        mon.sig(n, o)
        before = S.snap(m)
        g = m.grad_params(X, **o)
        unchanged(mon, m, before)
        check_params(rng, mon, m, X, g, str(o))
        mon.event("gradient calls")
        if rng.randint(2):
            G.jitter_params(rng, m)
            if gain:
                m.set_state(jax.tree.map(lambda s: s * 1.5, m.get_state()))
            mon.sig("changed")


@R.scenario(quick=22, thorough=180)
def single_precision(rng, mon):
    """Default precision: all modes and batchings agree with each other."""
    m, shape, w, kind = G.rand_model(rng, depth=2)
    m.compile(int(rng.randint(1000)), shape)
    G.jitter_params(rng, m)
    n = int(rng.randint(1, 6))
    X = G.data_for(rng, shape, n)
    mon.sig(kind, G.names(m.modules), n)
    which = "grad_params" if jax.tree.leaves(m.get_params()) and rng.randint(2) else "grad_input"
    ref = None
    for _ in range(3):
        o = modes(rng, m)
        if which == "grad_params" and G.complexes(m):
            o.pop("fwd", None)
        mon.sig(which, o)
        g = getattr(m, which)(X, **o)
        if ref is None:
            ref = g
        else:
            big = max([float(onp.abs(onp.asarray(x)).max(initial=0)) for x in jax.tree.leaves(ref)])
            if big > 1e3:
                raise Skip()
            mon.tree_close(g, ref, "modes-agree", str(o), rtol=5e-3, atol=5e-4, scale=1 + big)
