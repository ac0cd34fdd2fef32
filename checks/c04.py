"""C04: announced shapes are the real ones; wrong inputs are refused."""
import jax
import jax.numpy as np
import numpy as onp

import parametricmatrixmodels as pmm
import parametricmatrixmodels.modules as M
from vlib import catalog as C
from vlib import gen as G
from vlib.core import Registry, Skip
from vlib.probes import Combine, Tag

R = Registry()
RULE = (
    "Every catalogue module with random hyperparameters and input trees, and random"
    " sequential and graph models, asked for their output shape before and after"
    " compiling and evaluated with several numbers of samples; deviations from the"
    " compiled shape are generated by mutating one leaf or the structure."
)


def apply(m, X):
    if isinstance(m, pmm.Model):
        return m(X)
    return m(X, state=m.get_state(), rng=jax.random.key(0))[0]


def same_shape(mon, announced, Y, key, what="", n=None):
    got = jax.tree.map(lambda y: tuple(y.shape[1:]), Y)
    mon.equal(
        jax.tree.structure(announced, is_leaf=G.is_shape), jax.tree.structure(Y),
        key + "-structure", what,
    )
    a = [tuple(int(i) for i in s) for s in jax.tree.leaves(announced, is_leaf=G.is_shape)]
    g = jax.tree.leaves(got, is_leaf=G.is_shape)
    mon.equal(a, [tuple(s) for s in g], key, what)
    if n is not None:
        mon.check(all(y.shape[0] == n for y in jax.tree.leaves(Y)), key + "-samples", what, Y=Y, n=n)


@R.scenario(quick=110, thorough=2500)
def modules(rng, mon):
    e = G.cycle(rng, C.ALL)(rng)
    m = e["module"]
    mon.sig(e["name"], e["shape"])
    mon.event("module:" + type(m).__name__)
    before = None
    if rng.randint(2):
        try:
            before = m.get_output_shape(e["shape"])
        except Exception:  # some modules only know after compiling
            mon.event("shape unknown before compile")
    m.compile(jax.random.key(int(rng.randint(1000))), e["shape"])
    after = m.get_output_shape(e["shape"])
    for n in sorted(set(rng.randint(1, 6, 2).tolist())):
        Y = apply(m, e["x"](rng, int(n)))
        same_shape(mon, after, Y, "module-shape", e["name"], int(n))
        if before is not None:
            same_shape(mon, before, Y, "module-shape-before", e["name"], int(n))


HERMITIAN = (M.AffineHermitianMatrix, M.ExpectationValueSum, M.TransitionAmplitudeSum)


def reals(m):
    """independent real numbers in the parameters of a module"""
    k = 0
    for p in jax.tree.leaves(m.get_params()):
        p = onp.asarray(p)
        # n x n Hermitian matrices have n^2 real degrees of freedom
        k += p.size * (2 if onp.iscomplexobj(p) and not isinstance(m, HERMITIAN) else 1)
    return k


@R.scenario(quick=45, thorough=700)
def counts(rng, mon):
    """the announced number of trainable floats"""
    e = G.cycle(rng, C.ALL)(rng)
    m = e["module"]
    mon.sig(e["name"], e["shape"])
    if not m.is_ready() and not isinstance(m, pmm.Model):
        mon.check(m.get_num_trainable_floats() is None, "count-before-compile", e["name"])
    m.compile(jax.random.key(int(rng.randint(1000))), e["shape"])
    leaf = [m]
    if isinstance(m, pmm.Model):
        leaf = jax.tree.leaves(m.modules)
    mon.equal(m.get_num_trainable_floats(), sum(reals(x) for x in leaf), "count", e["name"])
    mon.event("counts")
    mods, _ = G.rand_pipe(rng, 2, int(rng.randint(1, 4)))
    s = pmm.SequentialModel([pmm.SequentialModel(mods, rng=0)] if rng.randint(2) else mods, rng=0)
    s.compile(0, (2,))

    def flat(x):
        return [y for z in jax.tree.leaves(x.modules) for y in flat(z)] if isinstance(x, pmm.Model) else [x]

    mon.equal(s.get_num_trainable_floats(), sum(reals(x) for x in flat(s)), "model-count", G.names(mods))


@R.scenario(quick=40, thorough=600)
def sequential(rng, mon):
    p = int(rng.randint(1, 5))
    mods, w = G.rand_pipe(rng, p, int(rng.randint(1, 6)), stateful=True, noise=True)
    shape = (p,)
    if rng.rand() < 0.4:  # a module in front that makes a vector of a tree
        t = {"a": (p,), "b": [(int(rng.randint(1, 3)),)]}
        q = p + t["b"][0][0]
        mods2, w = G.rand_pipe(rng, q, int(rng.randint(1, 5)))
        mods, shape = [M.ConcatenateLeaves()] + mods2, t
    m = pmm.SequentialModel(mods, rng=0)
    mon.sig(G.names(mods), shape)
    m.compile(int(rng.randint(100)), shape)
    n = int(rng.randint(1, 5))
    X = G.data_for(rng, shape, n)
    Y = m(X)
    same_shape(mon, m.get_output_shape(shape), Y, "model-shape", n=n)
    same_shape(mon, m.output_shape, Y, "model-output-shape", n=n)
    mon.equal(Y.shape, (n, w), "model-width")
    mon.equal(
        jax.tree.leaves(m.input_shape, is_leaf=G.is_shape), jax.tree.leaves(shape, is_leaf=G.is_shape), "input-shape"
    )


@R.scenario(quick=24, thorough=300)
def graph(rng, mon):
    s = G.rand_shape(rng, (1, 2))
    kinds = [G.pick(rng, ["arr", "dict", "list", "deep"]) for _ in range(3)]
    mods = {f"m{i}": Combine(1.0 + i, 0.1, k) for i, k in enumerate(kinds)}
    conns = {"input": "m0", "m0": "m1", "m1": ["m2.x", "output.whole"], "m2": "output.last"}
    if rng.randint(2):
        conns = {"input": ["m0", "m2.raw"], "m0": "m1", "m1": "m2.x", "m2": "output"}
    m = pmm.NonSequentialModel(mods, conns, rng=0)
    shape = G.rand_shape_tree(rng, 2, shapef=lambda: s)
    mon.sig(kinds, shape, sorted(conns))
    m.compile(int(rng.randint(100)), shape)
    n = int(rng.randint(1, 5))
    X = G.data_for(rng, shape, n)
    Y = m(X)
    same_shape(mon, m.get_output_shape(shape), Y, "graph-shape", n=n)
    same_shape(mon, m.output_shape, Y, "graph-output-shape", n=n)


# ------------------------------------------------------------------ refusals
def mutate(rng, shape):
    """a different shape tree (structure or a leaf shape), and what changed"""
    leaves, td = jax.tree.flatten(shape, is_leaf=G.is_shape)
    k = rng.randint(6)
    i = int(rng.randint(len(leaves)))
    L = list(leaves)
    if k == 0:
        j = int(rng.randint(len(L[i])))
        L[i] = L[i][:j] + (L[i][j] + 1,) + L[i][j + 1:]
        return jax.tree.unflatten(td, L), "feature size"
    if k == 1:
        L[i] = L[i] + (1,)
        return jax.tree.unflatten(td, L), "extra axis"
    if k == 2:
        if len(L[i]) > 1:
            L[i] = L[i][1:]
            return jax.tree.unflatten(td, L), "missing axis"
        L[i] = (L[i][0] + 2,)
        return jax.tree.unflatten(td, L), "feature size"
    if k == 3:
        if L[i] != L[i][::-1]:
            L[i] = L[i][::-1]
            return jax.tree.unflatten(td, L), "transposed"
        return [shape], "wrapped in a list"
    if k == 4:
        if isinstance(shape, dict):
            key = sorted(shape)[0]
            d = dict(shape)
            d[key + "_"] = d.pop(key)
            return d, "renamed key"
        if isinstance(shape, list):
            return shape + [shape[-1]], "extra entry"
        return {"x": shape}, "wrapped in a dict"
    if isinstance(shape, dict):
        return {**shape, "zz": (1,)}, "extra key"
    if isinstance(shape, list) and len(shape) > 1:
        return shape[:-1], "missing entry"
    return (shape, (1,)) if not isinstance(shape, tuple) else [shape, (1,)], "extra leaf"


def flex_model(rng, shape):
    """a model that could evaluate many shapes, so only the check refuses"""
    kind = rng.randint(4)
    if kind == 0:
        m = pmm.SequentialModel([Tag(1.1, 0.3), M.Tanh()], rng=0)
    elif kind == 1:
        m = pmm.SequentialModel([Tag(1.1, 0.3), pmm.SequentialModel([M.Sin()])], rng=0)
    elif kind == 2:
        m = pmm.NonSequentialModel({"a": Tag(1.0, 0.2), "b": M.Tanh()}, {"input": "a", "a": "b", "b": "output"}, rng=0)
    else:
        m = pmm.SequentialModel([M.Bias(init_magnitude=0.5, scalar=True), M.Sigmoid()], rng=0)
    return kind, m


@R.scenario(quick=60, thorough=900)
def refuses_data(rng, mon):
    shape = G.rand_shape_tree(rng, 2)
    kind, m = flex_model(rng, shape)
    m.compile(0, shape)
    bad, how = mutate(rng, shape)
    if jax.tree.leaves(bad, is_leaf=G.is_shape) == jax.tree.leaves(shape, is_leaf=G.is_shape) and jax.tree.structure(
        bad, is_leaf=G.is_shape
    ) == jax.tree.structure(shape, is_leaf=G.is_shape):
        raise Skip()
    n = int(rng.randint(1, 4))
    good, B = G.data_for(rng, shape, n), G.data_for(rng, bad, n)
    mon.sig(kind, shape, bad, how)
    mon.event("mutation:" + how)
    op = G.pick(rng, ["call", "call_batched", "grad_input", "grad_params", "train", "train_val"])
    mon.sig(op)
    if rng.randint(2):
        m(good)  # a successful call before does not matter
    p0 = jax.tree.map(onp.asarray, m.get_params())
    f = {
        "call": lambda: m(B),
        "call_batched": lambda: m(B, max_batch_size=1),
        "grad_input": lambda: m.grad_input(B),
        "grad_params": lambda: m.grad_params(B),
        "train": lambda: m.train(B, B, epochs=1, batch_size=1, verbose=False),
        "train_val": lambda: m.train(good, good, X_val=B, Y_val=B, epochs=1, batch_size=1, verbose=False),
    }[op]
    mon.raises(f, "refuse-" + op, f"{how}: compiled {shape}, given {bad}")
    mon.tree_same(m.get_params(), p0, "refuse-unchanged", op)
    same_shape(mon, shape, m(good), "still-works", n=n)


@R.scenario(quick=24, thorough=200)
def refuses_uncompiled(rng, mon):
    """Never compiled, or edited since: no value."""
    kind = rng.randint(5)
    X = G.fa(rng, 2, 3)
    if kind == 0:
        m = pmm.SequentialModel([M.LinearNN(2)], rng=0)
    elif kind == 1:
        m = pmm.NonSequentialModel({"a": M.LinearNN(2)}, {"input": "a", "a": "output"}, rng=0)
    elif kind == 2:
        m = G.pick(rng, [lambda: M.LinearNN(2), lambda: M.AEPMM(matrix_size=2), lambda: M.AOPMM(matrix_size=2, num_eig=1, output_size=2)])()
    elif kind == 3:
        m = pmm.SequentialModel([M.LinearNN(4)], rng=0)
        m.compile(0, (3,))
        m.append_module(M.LinearNN(2))
    else:
        m = pmm.SequentialModel([M.LinearNN(4), M.LinearNN(2)], rng=0)
        m.compile(0, (3,))
        m.reset()
    op = G.pick(rng, ["call", "grad_input", "grad_params"])  # train compiles
    mon.sig(kind, op, type(m).__name__)
    f = {
        "call": lambda: m(X),
        "grad_input": lambda: m.grad_input(X),
        "grad_params": lambda: m.grad_params(X),
    }[op]
    if kind == 4:
        # reset drops the compiled functions only; the modules keep their
        # parameters, so an answer has to be the right one
        if m.is_ready():
            f()
            mon.event("ready after reset")
            return
    mon.check(not m.is_ready(), "unready", kind=kind)
    mon.raises(f, "refuse-uncompiled", op)


@R.scenario(quick=20, thorough=200)
def refuses_compile(rng, mon):
    """Shapes a module cannot take are refused when compiling."""
    cases = [
        (lambda: M.LinearNN(2), {"a": (2,), "b": (2,)}),
        (lambda: M.AffineHermitianMatrix(matrix_size=2), (2, 2)),
        (lambda: M.AffineHermitianMatrix(matrix_size=2), {"a": (2,), "b": (2,)}),
        (lambda: M.LowRankAffineHermitianMatrix(matrix_size=3, rank=1), [(2,), (3,)]),
        (lambda: M.AffineHermitianMatrix(Ms=G.herm(rng, 3, 2, 2)), (3,)),
        (lambda: M.AffineHermitianMatrix(Ms=G.herm(rng, 3, 2, 2), bias_term=False), (2,)),
        (lambda: M.ExpectationValueSum(1, 1), (3,)),
        (lambda: M.TransitionAmplitudeSum(1, 1), [(3, 2), (3, 2)]),
        (lambda: M.Eigenvalues(2), (3, 2)),
        (lambda: M.Eigenvalues(4), (3, 3)),
        (lambda: M.Eigensystem(1), (3,)),
        (lambda: M.Reshape((2, 2)), (5,)),
        (lambda: M.Reshape((-1, 3)), (5,)),
        (lambda: M.ConcatenateLeaves(axis=-1), {"a": (2, 3), "b": (3, 2)}),
        (lambda: M.TreeKey("nope"), {"a": (2,)}),
        (lambda: M.AEPMM(matrix_size=2, num_eig=3), (2,)),
    ]
    i = int(rng.randint(len(cases)))
    mk, shape = cases[i]
    mon.sig(i)

    def direct():
        m = mk()
        m.compile(jax.random.key(0), shape)
        return apply(m, G.data_for(rng, shape, 2))

    def inside():
        m = pmm.SequentialModel([mk()], rng=0)
        m.compile(0, shape)
        return m(G.data_for(rng, shape, 2))

    mon.raises(direct, "refuse-compile", f"case {i}: {shape}")
    mon.raises(inside, "refuse-compile-model", f"case {i}: {shape}")


@R.scenario(quick=16, thorough=200)
def recompiled(rng, mon):
    """After compiling for another shape the new one is announced, accepted
    and returned, the old one refused."""
    a, b = rng.choice(6, 2, replace=False) + 1
    q = int(rng.randint(1, 4))
    # shape-independent modules in between
    m = G.pick(
        rng,
        [
            lambda: pmm.SequentialModel([Tag(1.2, 0.1), M.Tanh()], rng=0),
            lambda: pmm.SequentialModel([M.Flatten(), M.Sin()], rng=0),
            lambda: M.LinearNN(q),
        ],
    )()
    sa, sb = (int(a),), (int(b),)
    m.compile(0, sa)
    xa, xb = G.fa(rng, 3, *sa), G.fa(rng, 3, *sb)
    same_shape(mon, m.output_shape, m(xa), "recompile-first", n=3)
    m.compile(0, sb)
    mon.sig(type(m).__name__, a, b, q)
    same_shape(mon, m.output_shape, m(xb), "recompile-shape", n=3)
    same_shape(mon, m.get_output_shape(sb), m(xb), "recompile-shape", n=3)
    mon.raises(lambda: m(xa), "recompile-refuses-old")
