"""C21: seeds and precision."""
import os
import pickle
import subprocess
import sys
import tempfile
import warnings

import jax
import jax.numpy as np
import numpy as onp

import parametricmatrixmodels as pmm
import parametricmatrixmodels.modules as M
from vlib import catalog as C, gen as G, snap as S
from vlib.core import Registry, Skip
from vlib.probes import Tally

R = Registry()
RULE = (
    "Random models are built, compiled, trained and evaluated twice from the same seeds"
    " (as integers or keys, in this and in another process with other hash seeds) and"
    " compared bit by bit; initial parameter values are compared between modules and"
    " seeds; precision changes are compared with NumPy conversions of every leaf."
)


def seen(m):
    return [m.get_params(), m.get_state(), jax.random.key_data(m.get_rng())]


def life(spec, keys=False):
    """build, compile, predict, train, predict: everything from seeds"""
    r = onp.random.RandomState(spec)
    k = (lambda s: jax.random.key(s)) if keys else (lambda s: s)
    m, shape, w, kind = G.rand_model(r, depth=int(r.randint(1, 4)), stateful=True, noise=True)
    m.set_rng(k(int(r.randint(1000))))
    out = []
    n = int(r.randint(2, 6))
    X, Y = G.data_for(r, shape, n), G.fa(r, n, w)
    late = r.rand() < 0.3
    seed = int(r.randint(1 << 20))
    if not late:
        m.compile(k(seed), shape)
        out += [seen(m), m(X), m(X, rng=k(5))]
    tk = dict(epochs=int(r.randint(1, 4)), batch_size=int(r.randint(1, n + 1)), lr=0.01, batch_rng=k(int(r.randint(100))), verbose=False)
    if r.randint(2):
        tk.update(X_val=G.data_for(r, shape, 3), Y_val=G.fa(r, 3, w))
    if late:
        tk["initialization_seed"] = k(seed)
    try:
        m.train(X, Y, **tk)
    except ValueError:
        if late or any(jax.tree.leaves(m.get_trainable_modules())):
            if any(jax.tree.leaves(m.get_trainable_modules())):
                raise
    else:
        out += [seen(m), m(X), m.grad_params(X, rng=k(3)) if jax.tree.leaves(m.get_params()) else None]
    out = jax.tree.map(lambda x: onp.asarray(x) if isinstance(x, jax.Array) else x, out)
    return out, kind, G.names(m.modules)


def same(mon, a, b, key):
    mon.equal(len(a), len(b), key)
    for x, y in zip(a, b):
        mon.tree_same(x, y, key)


@R.scenario(quick=20, thorough=300)
def repeat(rng, mon):
    spec = int(rng.randint(1 << 30))
    a, kind, names = life(spec)
    mon.sig(kind, names)
    # unrelated work in between, and other global random states
    onp.random.seed(int(rng.randint(1000)))
    import random

    random.seed(int(rng.randint(1000)))
    m, shape, w, _ = G.rand_model(rng, depth=1)
    m.compile(3, shape)
    b, _, _ = life(spec)
    same(mon, b, a, "repeated")
    c, _, _ = life(spec, keys=True)
    same(mon, c, a, "seed-as-key")


def child(path):
    jobs = pickle.load(open(path, "rb"))
    pickle.dump([life(s)[0] for s in jobs], open(path + ".out", "wb"))


@R.scenario(quick=6, thorough=40, timeout=500)
def processes(rng, mon):
    jobs = [int(rng.randint(1 << 30)) for _ in range(2)]
    want = []
    for j in jobs:
        o, kind, names = life(j)
        want.append(o)
        mon.sig(kind, names)
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, "jobs")
        pickle.dump(jobs, open(f, "wb"))
        env = dict(os.environ, PYTHONHASHSEED=str(int(rng.randint(1, 1 << 30))))
        code = "import sys; sys.path[:0] = [%r]; from checks import c21; c21.child(%r)" % (root, f)
        p = subprocess.run([sys.executable, "-c", code], env=env, capture_output=True, text=True, timeout=450, cwd=d)
        mon.check(p.returncode == 0, "runs-in-another-process", stderr=p.stderr[-1500:])
        got = pickle.load(open(f + ".out", "rb"))
    for g, w in zip(got, want):
        same(mon, g, w, "other-process")
        mon.event("models repeated in another process")


CAT = ["matmul", "einsum", "affine_tensor", "affine_herm", "lowrank", "observable"]


def vectors(m):
    """random initial values, one vector per parameter, part and matrix"""
    out = []
    for i, p in enumerate(jax.tree.leaves(m.get_params())):
        p = onp.asarray(p)
        mats = [p] if p.ndim < 3 else list(p)
        for j, q in enumerate(mats):
            for part in ("re", "im") if onp.iscomplexobj(q) else ("re",):
                v = getattr(q, dict(re="real", im="imag")[part])
                v = v[onp.triu_indices(len(v), 1)] if part == "im" and v.ndim == 2 and v.shape[0] == v.shape[1] else v.ravel()
                if v.size > 1 and v.std() > 0:
                    out.append(((i, j, part), v.astype(onp.float64)))
    return out


def related(a, b):
    k = min(a.size, b.size)
    if k < 2:
        return False
    a, b = a[:k], b[:k]
    if k == 2:
        return onp.array_equal(a, b)
    if (b == 0).any() or (a == 0).any():
        return onp.array_equal(a, b)
    r = a / b
    return bool(onp.all(onp.abs(r - r[0]) <= 1e-5 * abs(r[0])))


def initial(rng):
    """models with many random modules of equal shapes"""
    p = int(rng.randint(2, 4))

    def one():
        k = rng.randint(6)
        if k == 0:
            return M.MatMul(output_shape=p, trainable=True, init_magnitude=0.5)
        if k == 1:
            return M.Bias(init_magnitude=0.5)
        if k == 2:
            return M.LinearNN(p, bias=True, init_magnitude=0.5)
        if k == 3:
            return M.AEPMM(matrix_size=p + 1, num_eig=p, which="SA", init_magnitude=0.5)
        if k == 4:
            return M.AOPMM(matrix_size=p + 1, num_eig=2, which="SA", output_size=p, num_secondaries=2, init_magnitude=0.5)
        return pmm.SequentialModel([M.MatMul(output_shape=p, trainable=True, init_magnitude=0.5), M.Bias(init_magnitude=0.5)])

    mods = [one() for _ in range(int(rng.randint(2, 5)))]
    kind = G.pick(rng, ["flat", "nested", "graph"])
    if kind == "graph":
        names = ["m%d" % i for i in rng.permutation(len(mods))]
        conns = {"input": list(names)}
        for i, n in enumerate(names):
            conns[n] = "output.o%d" % i
        return pmm.NonSequentialModel(dict(zip(names, mods)), conns), (p,), kind, mods
    return pmm.SequentialModel(G.nest(rng, mods) if kind == "nested" else mods), (p,), kind, mods


@R.scenario(quick=50, thorough=800)
def initialization(rng, mon):
    st = rng.get_state()
    ms = []
    seeds = [int(rng.randint(1 << 20)), int(rng.randint(1 << 20))]
    for s in (seeds[0], seeds[0], seeds[1]):
        r = onp.random.RandomState(0)
        r.set_state(st)
        m, shape, kind, mods = initial(r)
        m.compile(s, shape)
        ms.append(m)
    mon.sig(kind, G.names(mods), shape)
    mon.tree_same(ms[1].get_params(), ms[0].get_params(), "same-seed")
    V = vectors(ms[0])
    mon.event("random vectors", len(V))
    for i, (ka, a) in enumerate(V):
        for kb, b in V[:i]:
            mon.check(not related(a, b), "own-random-values", f"{kind} {G.names(mods)}", first=ka, second=kb, a=a, b=b)
    W = dict(vectors(ms[2]))
    for k, a in V:
        for k2, b in W.items():
            mon.check(not related(a, b), "other-seed-other-values", f"{kind} {G.names(mods)}", first=k, second=k2)
    # no seed: a random one each time
    r = onp.random.RandomState(0)
    r.set_state(st)
    m, shape, kind, mods = initial(r)
    m.compile(None, shape)
    r.set_state(st)
    m2, _, _, _ = initial(r)
    m2.compile(None, shape)
    W = dict(vectors(m2))
    for k, a in vectors(m):
        mon.check(not related(a, W[k]), "no-seed-differs")


@R.scenario(quick=60, thorough=800)
def modules_alone(rng, mon):
    """single modules of the catalogue"""
    st = rng.get_state()
    s1, s2 = int(rng.randint(1 << 20)), int(rng.randint(1 << 20))
    ms = []
    for s in (s1, s1, s2):
        r = onp.random.RandomState(0)
        r.set_state(st)
        e = getattr(C, G.pick(r, CAT))(r)
        e["module"].compile(jax.random.key(s), e["shape"])
        ms.append(e["module"])
    mon.sig(e["name"], e["shape"])
    mon.event("module:" + type(ms[0]).__name__)
    mon.tree_same(ms[1].get_params(), ms[0].get_params(), "same-seed", e["name"])
    V, W = vectors(ms[0]), vectors(ms[2])
    for i, (ka, a) in enumerate(V):
        for kb, b in V[:i]:
            mon.check(not related(a, b), "own-random-values", e["name"], first=ka, second=kb, a=a, b=b)
    if any(not onp.array_equal(a, b) for (_, a), (_, b) in zip(V, W)):
        for (k, a), (_, b) in zip(V, W):
            mon.check(not related(a, b), "other-seed-other-values", e["name"], which=k)


@R.scenario(quick=20, thorough=200)
def addition(rng, mon):
    """models extended with + keep the key they were given"""
    s = int(rng.randint(1 << 20))
    m = pmm.SequentialModel([M.Bias(init_magnitude=0.5)], rng=s)
    n = m + M.MatMul(output_shape=2, trainable=True, init_magnitude=0.5)
    mon.sig(s)
    mon.tree_same(jax.random.key_data(n.get_rng()), jax.random.key_data(jax.random.key(s)), "key-kept")


NAMES = {
    32: [np.float32, np.complex64, "float32", "complex64", "single", "f32", "c64", 32],
    64: [np.float64, np.complex128, "float64", "complex128", "double", "f64", "c128", 64],
}


def prec_model(rng):
    if rng.rand() < 0.3:
        m, shape, kind, mods = initial(rng)
        return m, shape, G.names(mods)
    m, shape, w, kind = G.rand_model(rng, depth=int(rng.randint(1, 4)), stateful=True)
    return m, shape, G.names(m.modules)


@R.scenario(quick=40, thorough=600, x64=True)
def precision(rng, mon):
    m, shape, names = prec_model(rng)
    m.compile(int(rng.randint(1000)), shape)
    G.jitter_params(rng, m)
    mon.sig(names)
    if isinstance(m, pmm.SequentialModel) and rng.randint(2):
        m.append(Tally())
        m.compile(0, shape)
    X = G.data_for(rng, shape, 3)
    y0 = m(X)
    m.set_state(jax.tree.map(lambda s: s + 1.5, m.get_state()))
    for _ in range(int(rng.randint(1, 5))):
        bits = G.pick(rng, [32, 64])
        name = G.pick(rng, NAMES[bits])
        how = G.pick(rng, ["set", "astype", "module"])
        before = [onp.asarray(x) for x in jax.tree.leaves((m.get_params(), m.get_state()))]
        struct = jax.tree.structure((m.get_params(), m.get_state()))
        mods = jax.tree.leaves(m.modules)
        rest = None
        if how == "set":
            m.set_precision(name)
        elif how == "astype":
            mon.check(m.astype(name) is m, "astype-returns-self")
        else:
            x = G.pick(rng, mods)
            rest = [(q, S.snap(q)) for q in mods if q is not x]
            mon.check(x.astype(name) is x, "astype-returns-self")
        mon.sig(how, str(name))
        mon.event("conversions")
        mon.equal(jax.tree.structure((m.get_params(), m.get_state())), struct, "structure-kept")
        for b, a in zip(before, jax.tree.leaves((m.get_params(), m.get_state()))):
            want = dict([((False, 32), "float32"), ((False, 64), "float64"), ((True, 32), "complex64"), ((True, 64), "complex128")])[(onp.iscomplexobj(b), bits)]
            if how != "module":
                mon.equal(str(a.dtype), want, "dtype", name=str(name))
            mon.check(onp.iscomplexobj(a) == onp.iscomplexobj(b), "complex-kept")
            mon.check(onp.array_equal(onp.asarray(a), b.astype(a.dtype)), "values-kept", before=b, after=a)
        for q, s in rest or []:
            S.same(mon, S.snap(q), s, "others-untouched")
        if how == "module":
            L = jax.tree.leaves((x.get_params(), x.get_state()))
            for a in L:
                mon.check(str(a.dtype) in (("float32", "complex64") if bits == 32 else ("float64", "complex128")), "dtype", name=str(name))
    for bad in ("half", 16, "f16", 128, "int32"):
        s = S.snap(m)
        mon.raises(lambda: m.set_precision(bad), "unknown-precision", exc=ValueError)
        S.same(mon, S.snap(m), s, "refused-unchanged")
    del y0


@R.scenario(quick=20, thorough=200)
def single_only(rng, mon):
    """without double precision, asking for it is refused"""
    m, shape, names = prec_model(rng)
    mon.sig(names)
    mon.raises(lambda: m.set_precision(32), "not-compiled", exc=RuntimeError)
    m.compile(0, shape)
    s = S.snap(m)
    for name in NAMES[64]:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            mon.raises(lambda: m.set_precision(name), "double-refused", str(name), exc=ValueError)
            x = G.pick(rng, jax.tree.leaves(m.modules))
            mon.raises(lambda: x.set_precision(name), "double-refused", str(name), exc=ValueError)
        S.same(mon, S.snap(m), s, "refused-unchanged")
    for name in NAMES[32]:
        m.set_precision(name)
        S.same(mon, S.snap(m), s, "single-stays")
