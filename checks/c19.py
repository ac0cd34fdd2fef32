"""C19: no history dependence, no side effects."""
import contextlib
import copy
import io
import os
import pickle
import signal
import subprocess
import sys
import tempfile
import warnings

import jax
import jax.numpy as np
import numpy as onp

import parametricmatrixmodels as pmm
import parametricmatrixmodels.modules as M
from vlib import gen as G, snap as S
from vlib.core import Registry, Skip
from vlib.probes import Gain, Tag, Weights

R = Registry()
RULE = (
    "One model object goes through a random sequence of public operations. Before each"
    " one a fresh model with the same modules, parameters, state, key, flags and shape is"
    " built; both perform the operation, and results and complete snapshots are compared."
    " Inputs, and the model around read-only operations, are fingerprinted; process-wide"
    " settings are compared before and after."
)


def leaf_modules(m):
    out = []
    for s in jax.tree.leaves(m.modules):
        out += leaf_modules(s) if isinstance(s, pmm.Model) else [s]
    return out


def copy_content(a, b):
    b.set_params(jax.tree.map(lambda x: np.array(x), a.get_params()))
    b.set_state(jax.tree.map(lambda x: np.array(x), a.get_state()))
    b.set_rng(a.get_rng())
    for x, y in zip(leaf_modules(a), leaf_modules(b)):
        if x.get_params() is not None and len(jax.tree.leaves(x.get_params())):
            y.trainable = x.trainable


def inner_keys(a, b):
    """keys of nested models"""
    for x, y in zip(jax.tree.leaves(a.modules), jax.tree.leaves(b.modules)):
        if isinstance(x, pmm.Model):
            y.set_rng(x.get_rng())
            inner_keys(x, y)


def settings():
    return dict(
        sig={s: signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGHUP)},
        x64=bool(jax.config.jax_enable_x64),
        nans=bool(jax.config.jax_debug_nans),
        nojit=bool(jax.config.jax_disable_jit),
        err=onp.geterr(),
        nprand=str(onp.random.get_state()[1][:4]) + str(onp.random.get_state()[2]),
        cwd=os.getcwd(),
        env=dict(os.environ),
        po=onp.get_printoptions(),
    )


def fingerprint(t):
    L, d = jax.tree.flatten(t)
    return str(d), [(id(x), S.arr(x)) for x in L]


def light(m):
    """snapshot without the optimizer's memory, which only resuming uses"""
    s = S.snap(m)

    def strip(d):
        if isinstance(d, dict):
            return {k: strip(v) for k, v in d.items() if k != "_optimizer_state"}
        return [strip(v) for v in d] if isinstance(d, list) else d

    return strip(s)


def compare(mon, got, want, key, **kw):
    mon.tree_close(got, want, key, rtol=kw.pop("rtol", 1e-5), atol=1e-6, **kw)


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        yield


OPS = [
    "predict", "predict", "grad_input", "grad_params", "train", "set_params", "set_state", "set_rng",
    "flags", "edit", "recompile", "copy", "serialize", "predict_state", "bad",
]


def run(rng, mon, precision=False):
    spec = int(rng.randint(1 << 30))
    kind = G.pick(rng, ["flat", "nested", "model", "graph", "graph_tree", "tree"])
    depth = int(rng.randint(1, 4))
    edits = []

    def build():
        m, shape, w, _ = G.rand_model(onp.random.RandomState(spec), depth=depth, kind=kind, stateful=True, noise=True)
        for e in edits:
            e(m)
        return m, shape, w

    A, shape, w = build()
    with quiet():
        A.compile(int(rng.randint(1000)), shape)
    if any(onp.iscomplexobj(x) for x in jax.tree.leaves(A.get_params())):
        mon.event("complex models")
    G.jitter_params(rng, A)
    mon.sig(kind, G.names(A.modules), shape)
    editable = kind in ("flat", "model") and isinstance(A.modules, list)
    for step in range(int(rng.randint(3, 7))):
        op = G.pick(rng, OPS)
        if precision and rng.rand() < 0.35:
            op = "precision"
        # a fresh model of the same content
        B, _, _ = build()
        with quiet():
            B.compile(int(rng.randint(1000)), shape)
            if precision:
                for x, y in zip(leaf_modules(A), leaf_modules(B)):
                    L = jax.tree.leaves((x.get_params(), x.get_state()))
                    if L and str(L[0].dtype) in ("float64", "complex128"):
                        y.set_precision(64)
        copy_content(A, B)
        inner_keys(A, B)
        S.same(mon, light(A), light(B), "same-content", f"before {op}")
        n = int(rng.randint(1, 7))
        X = G.data_for(rng, shape, n)
        fx = fingerprint(X)
        fp = S.tree(A.get_params()), S.tree(A.get_state())
        before, env = light(A), settings()
        kw = {}
        if rng.randint(2):
            kw["max_batch_size"] = int(rng.randint(1, 5))
            kw["avoid_recompilation"] = bool(rng.randint(2))
        if rng.randint(2):
            kw["rng"] = int(rng.randint(1000))
        if precision and rng.randint(2):
            kw["dtype"] = np.float32
        verbose = bool(rng.randint(2))
        mon.sig(op, sorted(kw), verbose)
        mon.event("op:" + op)
        pure = True
        with quiet():
            if op == "predict":
                compare(mon, A(X, verbose=verbose, **kw), B(X, **kw), "predict")
                if verbose:
                    compare(mon, A.predict(X, **kw), B(X, **kw), "predict")
            elif op == "predict_state":
                a, sa = A(X, return_state=True, **kw)
                b, sb = B(X, return_state=True, **kw)
                compare(mon, a, b, "predict")
                compare(mon, sa, sb, "new-state")
                if rng.randint(2):
                    pure = False
                    A(X, update_state=True, **kw)
                    compare(mon, A.get_state(), sb, "updated-state")
            elif op in ("grad_input", "grad_params"):
                if op == "grad_params" and not jax.tree.leaves(A.get_params()):
                    continue
                fwd = G.pick(rng, [None, False])
                a = getattr(A, op)(X, fwd=fwd, verbose=verbose, **kw)
                b, sb = getattr(B, op)(X, fwd=fwd, return_state=True, **kw)
                compare(mon, a, b, op, rtol=1e-4)
                if rng.rand() < 0.3:
                    pure = False
                    getattr(A, op)(X, fwd=fwd, update_state=True, **kw)
                    compare(mon, A.get_state(), sb, "updated-state")
            elif op == "train":
                flags = jax.tree.leaves(A.get_trainable_modules())
                if not any(flags):
                    continue
                Y = G.fa(rng, n, w)
                fy = fingerprint(Y)
                tk = dict(epochs=int(rng.randint(1, 4)), batch_size=int(rng.randint(1, n + 1)), lr=0.01, batch_rng=int(rng.randint(100)))
                if rng.randint(2):
                    tk.update(X_val=G.data_for(rng, shape, 3), Y_val=G.fa(rng, 3, w))
                A.train(X, Y, verbose=verbose, **tk)
                B.train(X, Y, verbose=False, **tk)
                pure = False
                compare(mon, A.get_params(), B.get_params(), "trained-params", rtol=1e-4)
                compare(mon, A.get_state(), B.get_state(), "trained-state", rtol=1e-4)
                mon.tree_same(jax.random.key_data(A.get_rng()), jax.random.key_data(B.get_rng()), "trained-key")
                mon.equal(fingerprint(Y), fy, "targets-unchanged")
                if not all(onp.isfinite(onp.asarray(x)).all() for x in jax.tree.leaves(A.get_params())):
                    return
            elif op == "set_params":
                pure = False
                G.jitter_params(rng, A)
                B.set_params(A.get_params())
                compare(mon, A(X, **kw), B(X, **kw), "predict")
            elif op == "set_state":
                pure = False
                st = jax.tree.map(lambda x: np.asarray(onp.asarray(x) + rng.randint(1, 4), x.dtype), A.get_state())
                A.set_state(st)
                B.set_state(st)
                compare(mon, A(X, **kw), B(X, **kw), "predict")
            elif op == "set_rng":
                pure = False
                k = int(rng.randint(1000))
                A.set_rng(k)
                B.set_rng(jax.random.key(k))
                compare(mon, A(X), B(X), "predict")
            elif op == "flags":
                pure = False
                for m in leaf_modules(A):
                    if jax.tree.leaves(m.get_params()):
                        m.trainable = bool(rng.randint(2))
            elif op == "edit":
                if not editable:
                    continue
                pure = False
                how = rng.randint(3)
                i = int(rng.randint(len(A.modules) + 1))
                a, b = float(rng.uniform(0.5, 2)), float(rng.randn())
                if how == 0:
                    edits.append(lambda m, i=i, a=a, b=b: m.insert_module(i, Tag(a, b)))
                elif how == 1:
                    edits.append(lambda m, a=a: m.append(Gain(a)))
                else:
                    tags = [j for j, m in enumerate(A.modules) if isinstance(m, (Tag, Gain))]
                    if not tags:
                        continue
                    j = G.pick(rng, tags)
                    if rng.randint(2) and len(A.modules) > 1:
                        edits.append(lambda m, j=j: m.pop_module_by_index(j))
                    else:
                        edits.append(lambda m, j=j, a=a, b=b: m.__setitem__(j, Weights(a, b)))
                edits[-1](A)
                mon.check(not A.is_ready(), "edit-needs-compile")
                mon.raises(lambda: A(X), "edit-needs-compile")
                A.compile(int(rng.randint(1000)), shape)
                C, _, _ = build()
                C.compile(int(rng.randint(1000)), shape)
                copy_content(A, C)
                inner_keys(A, C)
                compare(mon, A(X, **kw), C(X, **kw), "predict-after-edit")
            elif op == "recompile":
                # compiling again for the same shape keeps a compiled model usable
                pure = False
                A.compile(int(rng.randint(1000)), shape, verbose=verbose)
                copy_content(A, B)
                compare(mon, A(X, **kw), B(X, **kw), "predict-after-compile")
            elif op == "copy":
                C = copy.deepcopy(A)
                compare(mon, C(X, **kw), B(X, **kw), "predict-copy")
                G.jitter_params(rng, C)
                C(X)
            elif op == "serialize":
                A.serialize()
                repr(A)
                A.get_hyperparameters()
                A.get_num_trainable_floats()
            elif op == "precision":
                pure = False
                p = G.pick(rng, [32, 64])
                A.set_precision(p)
                B.set_precision(p)
                compare(mon, A(X, **kw), B(X, **kw), "predict", rtol=1e-5)
            elif op == "bad":
                # refused calls leave everything as it was
                bad = jax.tree.map(lambda x: np.concatenate([np.asarray(x)] * 2, axis=-1), X)
                mon.raises(lambda: A(bad), "refused")
                mon.raises(lambda: A.grad_params(bad), "refused")
                mon.raises(lambda: A.train(bad, G.fa(rng, n, w), verbose=verbose), "refused")
                mon.raises(lambda: A.train(X, G.fa(rng, n, w), loss_fn="no such loss", verbose=verbose), "refused")
        mon.equal(fingerprint(X), fx, "input-unchanged", op=op)
        if pure:
            S.same(mon, light(A), before, "read-only", op)
            mon.equal((S.tree(A.get_params()), S.tree(A.get_state())), fp, "read-only", op)
        mon.equal(settings(), env, "process-settings", op)
    # at the end it still agrees with a fresh model
    C, _, _ = build()
    with quiet():
        C.compile(0, shape)
        if precision:
            for x, y in zip(leaf_modules(A), leaf_modules(C)):
                L = jax.tree.leaves((x.get_params(), x.get_state()))
                if L and str(L[0].dtype) in ("float64", "complex128"):
                    y.set_precision(64)
    copy_content(A, C)
    inner_keys(A, C)
    X = G.data_for(rng, shape, 3)
    compare(mon, A(X), C(X), "finally")


@R.scenario(quick=26, thorough=500)
def history(rng, mon):
    run(rng, mon)


@R.scenario(quick=10, thorough=200, x64=True)
def history64(rng, mon):
    run(rng, mon, precision=True)


def agnostic(rng):
    """modules that work for any shape"""
    k = rng.randint(8)
    if k == 0:
        return lambda: M.Flatten()
    if k == 1:
        return lambda: M.Reshape((-1, 1))
    if k == 2:
        a, b = float(rng.uniform(0.5, 2)), float(rng.randn())
        return lambda: Tag(a, b)
    if k == 3:
        a = float(rng.uniform(0.5, 2))
        return lambda: Gain(a)
    if k == 4:
        nm = G.pick(rng, G.ACTS)
        return lambda: getattr(M, nm)()
    if k == 5:
        return lambda: M.Bias(scalar=True, init_magnitude=0.5)
    if k == 6:
        return lambda: M.Softmax()
    return lambda: M.Standardize()


@R.scenario(quick=20, thorough=400)
def other_shapes(rng, mon):
    """one model compiled for a series of shapes"""
    fs = [agnostic(rng) for _ in range(int(rng.randint(1, 5)))]

    def build():
        return pmm.SequentialModel([f() for f in fs], rng=3)

    A = build()
    mon.sig(G.names(A.modules))
    for step in range(int(rng.randint(2, 5))):
        shape = G.rand_shape(rng, (1, 3))
        B = build()
        with quiet():
            A.compile(step, shape, verbose=bool(rng.randint(2)))
            B.compile(step, shape)
        mon.equal(A.output_shape, B.output_shape, "output-shape", step=step)
        copy_content(A, B)
        n = int(rng.randint(1, 5))
        X = G.fa(rng, n, *shape)
        kw = dict(max_batch_size=2) if rng.randint(2) else {}
        mon.sig(shape, sorted(kw))
        compare(mon, A(X, **kw), B(X, **kw), "predict", shape=shape)
        if rng.randint(2) and not jax.tree.leaves(A.get_state()):
            compare(mon, A.grad_input(X, **kw), B.grad_input(X, **kw), "grad-input", shape=shape)
        if rng.randint(2) and jax.tree.leaves(A.get_params()):
            compare(mon, A.grad_params(X, **kw), B.grad_params(X, **kw), "grad-params", shape=shape)
        if any(jax.tree.leaves(A.get_trainable_modules())) and rng.rand() < 0.4:
            Y = G.fa(rng, n, *A.output_shape)
            for m in (A, B):
                m.train(X, Y, epochs=2, batch_size=n, lr=0.01, verbose=False, batch_rng=1)
            compare(mon, A.get_params(), B.get_params(), "trained", rtol=1e-4)
        mon.event("shapes")


class Boom(Exception):
    pass


@R.scenario(quick=8, thorough=100)
def settings_restored(rng, mon):
    """training that ends in any way leaves the process as it was"""
    m, shape, w, _ = G.rand_model(rng, depth=2, kind="flat")
    m.compile(0, shape)
    if not any(jax.tree.leaves(m.get_trainable_modules())):
        raise Skip()
    how = G.pick(rng, ["ends", "raises", "target", "nan", "kill"])
    mine = lambda *a: None
    old = {s: signal.signal(s, G.pick(rng, [mine, signal.SIG_IGN, signal.default_int_handler])) for s in (signal.SIGINT, signal.SIGTERM)}
    mon.sig(how, G.names(m.modules))
    try:
        env = settings()
        X, Y = G.data_for(rng, shape, 5), G.fa(rng, 5, w)
        kw = dict(epochs=3, batch_size=2, lr=0.01, verbose=True, batch_rng=1)
        if how == "target":
            kw["target_loss"] = 1e6
        if how == "nan":
            kw["early_stopping_patience"] = 1
        if how == "raises":
            def cb(*a):
                raise Boom()
            kw["callback"] = cb
        with quiet():
            if how == "raises":
                try:
                    m.train(X, Y, **kw)
                except Exception:  # noqa: BLE001
                    mon.event("interrupted")
            elif how == "kill":
                kw["callback"] = lambda *a: os.kill(os.getpid(), signal.SIGTERM)
                kw["epochs"] = 1
                try:
                    m.train(X, Y, **kw)
                except (KeyboardInterrupt, Exception):  # noqa: BLE001
                    mon.event("interrupted")
            else:
                m.train(X, Y, **kw)
        mon.equal(settings(), env, "settings-restored", how=how)
    finally:
        for s, h in old.items():
            signal.signal(s, h)


@R.scenario(quick=12, thorough=300)
def verbosity(rng, mon):
    """verbose output never changes a result"""
    spec, depth = int(rng.randint(1 << 30)), int(rng.randint(1, 4))
    kind = G.pick(rng, ["flat", "nested", "model", "graph", "tree"])
    res = []
    n = int(rng.randint(2, 8))
    ks = dict(epochs=int(rng.randint(1, 5)), batch_size=int(rng.randint(1, n + 1)), lr=0.02, batch_rng=5)
    if rng.randint(2):
        ks["early_stopping_patience"] = int(rng.randint(1, 3))
        ks["early_stopping_min_delta"] = 0.01
    val = bool(rng.randint(2))
    data = int(rng.randint(1 << 30))
    for v in (True, False):
        r = onp.random.RandomState(data)
        m, shape, w, _ = G.rand_model(onp.random.RandomState(spec), depth=depth, kind=kind, stateful=True, noise=True)
        with quiet():
            m.compile(7, shape, verbose=v)
            if not any(jax.tree.leaves(m.get_trainable_modules())):
                raise Skip()
            X, Y = G.data_for(r, shape, n), G.fa(r, n, w)
            vk = dict(X_val=G.data_for(r, shape, 3), Y_val=G.fa(r, 3, w)) if val else {}
            out = [m.get_params(), m(X, verbose=v, max_batch_size=2), m.grad_params(X, verbose=v, max_batch_size=2)]
            m.train(X, Y, verbose=v, **ks, **vk)
            out += [m.get_params(), m.get_state(), jax.random.key_data(m.get_rng()), m(X, verbose=v, extra_info="x", newline=False)]
        res.append(out)
    mon.sig(kind, G.names(m.modules), sorted(ks), val)
    for i, (a, b) in enumerate(zip(*res)):
        mon.tree_close(a, b, "verbose-same", str(i), rtol=1e-5, atol=1e-6)


def part(rng):
    """a module that keeps the shape, and how to make it again"""
    k = rng.randint(5)
    a, b = float(rng.uniform(0.5, 2)), float(rng.randn())
    if k == 0:
        return lambda: Tag(a, b)
    if k == 1:
        return lambda: Gain(a)
    if k == 2:
        return lambda: Weights(a, b)
    if k == 3:
        nm = G.pick(rng, G.ACTS)
        return lambda: getattr(M, nm)()
    return lambda: M.Bias(init_magnitude=0.5)


@R.scenario(quick=14, thorough=300)
def nested_edits(rng, mon):
    """a model inside another one is edited between calls of the outer one"""
    inner = [part(rng) for _ in range(int(rng.randint(1, 4)))]
    around = [part(rng) for _ in range(int(rng.randint(0, 3)))]
    at = int(rng.randint(len(around) + 1))
    form = G.pick(rng, ["list", "tuple", "dict", "graph", "twice"])
    shape = G.rand_shape(rng, (1, 3))

    def build():
        i = pmm.SequentialModel([f() for f in inner], rng=1)
        mods = [f() for f in around]
        mods.insert(at, pmm.SequentialModel([M.Comment("x"), i], rng=1) if form == "twice" else i)
        if form == "graph":
            names = [f"n{j}" for j in range(len(mods))]
            o = pmm.NonSequentialModel(dict(zip(names, mods)), dict(zip(["input"] + names, names + ["output"])), rng=2)
        elif form == "dict":
            o = pmm.SequentialModel({f"n{j}": m for j, m in enumerate(mods)}, rng=2)
        else:
            o = pmm.SequentialModel(tuple(mods) if form == "tuple" else mods, rng=2)
        return o, i

    A, inn = build()
    mon.sig(form, shape, G.names(A.modules), G.names(inn.modules))
    with quiet():
        A.compile(3, shape)
        for step in range(int(rng.randint(2, 4))):
            n = int(rng.randint(1, 5))
            X = G.fa(rng, n, *shape)
            kw = dict(max_batch_size=2) if rng.randint(2) else {}
            B, _ = build()
            B.compile(4, shape)
            copy_content(A, B)
            what = f"{form} step {step}"
            compare(mon, A(X, **kw), B(X, **kw), "predict-after-nested-edit", detail=what)
            has = bool(jax.tree.leaves(A.get_params()))
            if rng.randint(2):
                compare(mon, A.grad_input(X, **kw), B.grad_input(X, **kw), "grad-input-after-nested-edit", detail=what)
            if has and rng.randint(2):
                compare(mon, A.grad_params(X, **kw), B.grad_params(X, **kw), "grad-params-after-nested-edit", detail=what)
            if has and rng.rand() < 0.4:
                for m in (A, B):
                    m.train(X, X, epochs=2, batch_size=n, lr=0.01, verbose=False, batch_rng=1)
                compare(mon, A.get_params(), B.get_params(), "train-after-nested-edit", rtol=1e-4, detail=what)
            mon.event("calls after nested edits")
            # edit the inner model
            f = part(rng)
            how = G.pick(rng, ["set", "insert", "append", "pop"])
            if how == "pop" and len(inner) < 2:
                how = "set"
            j = int(rng.randint(len(inner)))
            if how == "set":
                inner[j] = f
                inn[j] = f()
            elif how == "insert":
                inner.insert(j, f)
                inn.insert_module(j, f())
            elif how == "append":
                inner.append(f)
                inn.append_module(f())
            else:
                inner.pop(j)
                inn.pop_module_by_index(j)
            mon.check(not A.is_ready(), "nested-edit-needs-compile", what)
            mon.raises(lambda: A(X), "nested-edit-needs-compile", what)
            who = G.pick(rng, ["outer", "outer", "inner"])
            mon.sig(how, who)
            (A if who == "outer" else inn).compile(int(rng.randint(1000)), shape)
        B, _ = build()
        B.compile(4, shape)
        copy_content(A, B)
        X = G.fa(rng, 3, *shape)
        compare(mon, A(X), B(X), "predict-after-nested-edit", detail=form)


@R.scenario(quick=12, thorough=300)
def refused_compile(rng, mon):
    """compiling for a shape some module refuses changes nothing: a compiled model
    stays as it was, one that was not ready does not become so"""
    w = int(rng.randint(2, 4))
    fs = [part(rng) for _ in range(int(rng.randint(0, 3)))]
    at = int(rng.randint(len(fs) + 1))
    fs.insert(at, G.pick(rng, [lambda: M.Bias(init_magnitude=0.5), lambda: M.PReLU(single_parameter=False), lambda: M.MatMul(output_shape=w, init_magnitude=0.4)]))
    form = G.pick(rng, ["list", "dict", "graph", "inner", "inner graph"])

    def chain(mods):
        names = [f"n{j}" for j in range(len(mods))]
        return dict(zip(names, mods)), dict(zip(["input"] + names, names + ["output"]))

    def build():
        mods = [f() for f in fs]
        if form in ("graph", "inner graph"):
            i = pmm.NonSequentialModel(*chain(mods), rng=1)
        else:
            i = pmm.SequentialModel({f"n{j}": m for j, m in enumerate(mods)} if form == "dict" else mods, rng=1)
        return pmm.SequentialModel([Tag(0.9, 0.1), i], rng=2) if form.startswith("inner") else i

    A = build()
    mon.sig(form, w, G.names(A.modules))
    with quiet():
        A.compile(3, (w,))
        X = G.fa(rng, 3, w)
        y = A(X)
        before = light(A)
        edited = not form.startswith("inner") and bool(rng.randint(2))
        if edited:
            k = int(rng.randint(len(fs)))
            key = f"n{k}" if form in ("graph", "dict") else k
            A[key] = A[key]
            mon.check(not A.is_ready(), "edit-needs-compile")
        for _ in range(int(rng.randint(1, 3))):
            other = G.pick(rng, [(1,), (w + 1,), (w, 2), {"a": (w,)}])
            mon.sig(edited, str(other))
            try:
                A.compile(int(rng.randint(1000)), other)
            except Exception:  # noqa: BLE001
                mon.event("refused compilations")
            else:
                raise Skip()
            Z = G.data_for(rng, other, 3)
            mon.raises(lambda: A(Z), "refused-shape-not-evaluated", str(other))
            mon.raises(lambda: A.grad_input(Z), "refused-shape-not-evaluated", str(other))
            if edited:
                mon.check(not A.is_ready(), "not-ready-after-refusal", str(other))
            else:
                mon.check(A.is_ready(), "still-ready", str(other))
                mon.equal(A.input_shape, (w,), "shape-kept", str(other))
                mon.tree_same(A(X), y, "refused-compile-changes-nothing", str(other))
                S.same(mon, light(A), before, "refused-compile-changes-nothing", str(other)) if not form.startswith("inner") else None
        if edited:
            A.compile(5, (w,))
            mon.tree_close(A(X), y, "usable-after-refusal", rtol=1e-6, atol=1e-6)


@R.scenario(quick=14, thorough=300)
def after_edit(rng, mon):
    """everything is evaluated, a module of the model itself is exchanged, and
    everything is evaluated again with the same options"""
    fs = [part(rng) for _ in range(int(rng.randint(1, 4)))]
    form = G.pick(rng, ["list", "tuple", "dict", "graph"])
    shape = G.rand_shape(rng, (1, 3))

    def build():
        mods = [f() for f in fs]
        names = [f"n{j}" for j in range(len(mods))]
        if form == "graph":
            return pmm.NonSequentialModel(dict(zip(names, mods)), dict(zip(["input"] + names, names + ["output"])), rng=2)
        if form == "dict":
            return pmm.SequentialModel(dict(zip(names, mods)), rng=2)
        return pmm.SequentialModel(tuple(mods) if form == "tuple" else mods, rng=2)

    A = build()
    n = int(rng.randint(1, 5))
    X = G.fa(rng, n, *shape)
    kws = [{}, dict(max_batch_size=2, avoid_recompilation=bool(rng.randint(2)))]
    fwd = bool(rng.randint(2))
    mon.sig(form, shape, n, fwd, G.names(A.modules))

    def everything(A, B, what):
        for kw in kws:
            compare(mon, A(X, **kw), B(X, **kw), "predict-after-edit", detail=what)
            compare(mon, A.grad_input(X, fwd=fwd, **kw), B.grad_input(X, fwd=fwd, **kw), "grad-input-after-edit", detail=what)
            if jax.tree.leaves(A.get_params()):
                compare(mon, A.grad_params(X, fwd=fwd, **kw), B.grad_params(X, fwd=fwd, **kw), "grad-params-after-edit", detail=what)
            mon.event("evaluations around edits")
        if jax.tree.leaves(A.get_params()):
            for m in (A, B):
                m.train(X, X, epochs=2, batch_size=n, lr=0.01, verbose=False, batch_rng=1)
            compare(mon, A.get_params(), B.get_params(), "train-after-edit", rtol=1e-4, detail=what)

    with quiet():
        A.compile(3, shape)
        for step in range(3):
            B = build()
            B.compile(4, shape)
            copy_content(A, B)
            everything(A, B, f"{form} step {step}")
            if step == 2:
                break
            j = int(rng.randint(len(fs)))
            f = part(rng)
            how = "set" if form != "list" else G.pick(rng, ["set", "set", "insert", "pop"] if len(fs) > 1 else ["set", "set", "insert"])
            if how == "insert":
                fs.insert(j, f)
                A.insert_module(j, f())
            elif how == "pop":
                fs.pop(j)
                A.pop_module_by_index(j)
            else:
                fs[j] = f
                A[f"n{j}" if form in ("dict", "graph") else j] = f()
            mon.sig(how, j)
            A.compile(int(rng.randint(1000)), shape)


def first_calls(seed, verbose):
    """calls of small models, some of which do not depend on their input"""
    rng = onp.random.RandomState(seed)
    kinds = ["constant", "bias", "gain", "tag"]
    out = []
    with quiet():
        for i in rng.permutation(4):
            k = kinds[i]
            make = {
                "constant": lambda: M.Constant(np.array([1.0, 2.0])), "bias": lambda: M.Bias(init_magnitude=0.5),
                "gain": lambda: Gain(1.5), "tag": lambda: Tag(0.7, 0.2),
            }[k]
            m = pmm.SequentialModel([make()], rng=0)
            m.compile(0, (2,))
            X = G.fa(rng, int(rng.randint(3, 7)), 2)
            kw = dict(max_batch_size=2, avoid_recompilation=bool(rng.rand() < 0.3), verbose=verbose)
            for f in ("grad_input", "__call__") if rng.randint(2) else ("__call__", "grad_input"):
                out.append(jax.tree.map(onp.asarray, getattr(m, f)(X, **kw)))
            if k == "bias":
                out.append(jax.tree.map(onp.asarray, m.grad_params(X, **kw)))
    return out


def child(path):
    pickle.dump([first_calls(s, True) for s in pickle.load(open(path, "rb"))], open(path + ".out", "wb"))


@R.scenario(quick=3, thorough=30, timeout=500)
def first_verbose(rng, mon):
    """the first verbose calls of a process"""
    jobs = [int(rng.randint(1 << 30))]
    mon.sig(jobs)
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, "jobs")
        pickle.dump(jobs, open(f, "wb"))
        code = "import sys; sys.path[:0] = [%r]; from checks import c19; c19.child(%r)" % (root, f)
        p = subprocess.run([sys.executable, "-c", code], capture_output=True, text=True, timeout=450, cwd=d)
        mon.check(p.returncode == 0, "verbose-runs", stderr=p.stderr[-1500:])
        got = pickle.load(open(f + ".out", "rb"))
    want = [first_calls(s, False) for s in jobs]
    mon.tree_close(got, want, "verbose-same", rtol=1e-6, atol=1e-7)
    mon.event("first verbose calls", len(want[0]))
