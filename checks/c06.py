"""C06: frozen modules."""
import jax
import jax.numpy as np
import numpy as onp

import parametricmatrixmodels as pmm
import parametricmatrixmodels.modules as M
from vlib import gen as G
from vlib.adam import RefAdam, flags, grad_of, leaf_modules
from vlib.core import Registry, Skip
from vlib.probes import Weights
from vlib.trace import Recorder, mse, tmean

from checks.c09 import batches, compare, dbl, last_kept, leaves, loss, options

R = Registry()
RULE = (
    "Random modules and nested models are frozen; after every epoch the parameters seen"
    " by the callback are compared bit by bit (frozen) and with a reference Adam that"
    " holds the frozen ones constant (trainable), over several runs in between which"
    " flags change."
)


def holders(model):
    """all modules and nested models of a model"""
    out = []
    for m in jax.tree.leaves(model.modules):
        out.append(m)
        if hasattr(m, "modules"):
            out += holders(m)
    return out


def inner(m):
    return leaf_modules(m) if hasattr(m, "modules") else [m]


def switch(rng, h, v):
    """set the flag in one of the public ways"""
    if rng.randint(2):
        h.trainable = v
    else:
        assert (h.unfreeze if v else h.freeze)() is h


def refreeze(rng, mon, model, frozen):
    """change some flags through the public setter; returns the frozen ids"""
    hs = holders(model)
    for _ in range(int(rng.randint(1, 4))):
        h = G.pick(rng, hs)
        v = bool(rng.rand() < 0.35)
        switch(rng, h, v)
        for m in inner(h):
            (frozen.discard if v else frozen.add)(id(m))
        mon.sig(type(h).__name__, v)
    # the flags read back
    for h in hs:
        mon.equal(h.trainable, any(id(m) not in frozen for m in inner(h)), "flag-reads-back", type(h).__name__)
    return frozen


def make(rng, **kw):
    m, shape, w, kind = G.rand_model(rng, depth=int(rng.randint(2, 4)), **kw)
    m.compile(int(rng.randint(1000)), shape)
    if len(jax.tree.leaves(m.get_params())) < 2:
        raise Skip()
    G.jitter_params(rng, m)
    return m, shape, w, kind


@R.scenario(quick=22, thorough=420, x64=True)
def flags_and_runs(rng, mon):
    m, shape, w, kind = make(rng)
    m.set_precision(64)
    n = int(rng.randint(1, 6))
    mon.sig(kind, G.names(m.modules), n)
    frozen = set()
    ref = RefAdam(leaves(m), 0.1)
    g = grad_of(m, loss)
    s = m.get_state()
    trained = False
    for r in range(int(rng.randint(1, 4))):
        frozen = refreeze(rng, mon, m, frozen)
        mask = flags(m, frozen)
        if not any(mask):
            mon.event("everything frozen")
            continue
        E, bs = int(rng.randint(2, 4)), int(rng.randint(1, n + 1))
        X, Y = dbl(G.data_for(rng, shape, n)), dbl(G.fa(rng, n, w, scale=2.0))
        o, kl = options(rng)
        resume = bool(trained and rng.rand() < 0.6)
        mon.sig(E, bs, kl, resume, mask)
        if not resume:
            ref.fresh()
        ref.set(**({"lr": 1e-3} | o))
        before = leaves(m)
        rec = Recorder()
        m.train(
            X, Y, X_val=X, Y_val=Y, loss_fn=rec.loss(loss, "t"), val_loss_fn=last_kept, epochs=E, batch_size=bs,
            batch_rng=r, verbose=False, callback=rec.callback, resume=resume, **o,
        )
        rec.done()
        trained = True
        for e, got in rec.epochs:
            for j, on in enumerate(mask):
                if not on:
                    mon.tree_same(got[j], before[j], "frozen-each-epoch", f"run {r} epoch {e} parameter {j}")
        after = leaves(m)
        for j, on in enumerate(mask):
            if not on:
                mon.tree_same(after[j], before[j], "frozen", f"run {r} parameter {j}")
        mon.event("frozen arrays", sum(not x for x in mask))
        mon.event("trainable arrays", sum(mask))
        s = compare(mon, rec, ref, mask, g, s, shape, E, "trainable-updates")


@R.scenario(quick=20, thorough=260)
def single_precision(rng, mon):
    """Default precision, named losses, early stopping, several batches: frozen
    parameters keep every bit, others move, and nothing else about the model
    decides it (order of flags, freezing before compilation, copies)."""
    kind0 = G.pick(rng, ["flat", "nested", "model", "graph", "graph_tree", "tree"])
    m, shape, w, kind = G.rand_model(rng, depth=3, kind=kind0)
    frozen = set()
    early = bool(rng.randint(2))
    mon.sig(kind, G.names(m.modules), early)
    if early:
        # freezing before compilation; ready-made models build their modules
        # only then, and a MatMul frozen before has no parameters at all
        top = jax.tree.leaves(m.modules)
        which = [bool(rng.randint(2)) for _ in top]
        keep = []
        for h, f in zip(top, which):
            if f and not any(isinstance(x, M.MatMul) for x in inner(h)):
                switch(rng, h, False)
                keep.append(h)
        m.compile(int(rng.randint(1000)), shape)
        frozen = {id(x) for h in keep for x in inner(h)}
        for h in keep:
            mon.check(not h.trainable, "frozen-before-compiling", type(h).__name__)
            mon.event("frozen before compiling")
    else:
        m.compile(int(rng.randint(1000)), shape)
        frozen = refreeze(rng, mon, m, frozen)
    mask = flags(m, frozen)
    if not any(mask) or len(mask) < 2:
        raise Skip()
    act = G.pick(rng, ["none", "copy"])
    if act == "copy":
        m = m.copy()
    n = int(rng.randint(2, 8))
    X, Y = G.data_for(rng, shape, n), G.fa(rng, n, w, scale=2.0)
    before = leaves(m)
    mon.sig(act, mask, n)
    m.train(
        X, Y, loss_fn=G.pick(rng, ["mse", "mae", "pseudo_huber"]), epochs=int(rng.randint(1, 6)),
        batch_size=int(rng.randint(1, n + 1)), lr=float(G.pick(rng, [1e-3, 0.1])), verbose=False,
        early_stopping_patience=int(rng.randint(1, 4)), early_stopping_min_delta=0.0,
        fwd=bool(rng.rand() < 0.15) and not G.complexes(m),
    )
    for j, (a, b, on) in enumerate(zip(leaves(m), before, mask)):
        if not on:
            mon.tree_same(a, b, "frozen", f"parameter {j}")
        else:
            mon.event("trainable arrays")
    mon.check(True, "ran")


@R.scenario(quick=10, thorough=90)
def frozen_before_compiling(rng, mon):
    """Ready-made models that are frozen before they have any parameters, alone
    in a chain or below further models, are not trained; unfrozen they are."""
    p = int(rng.randint(1, 4))
    kind = G.pick(rng, ["eig", "obs", "lin"])
    h = {
        "eig": lambda: M.AffineEigenvaluePMM(matrix_size=3, num_eig=2),
        "obs": lambda: M.AffineObservablePMM(matrix_size=3, num_eig=2, output_size=2),
        "lin": lambda: M.LinearNN(out_features=2, activation=G.pick(rng, [None, M.Tanh(), M.PReLU()])),
    }[kind]()
    switch(rng, h, False)
    mon.check(not h.trainable, "flag-before-compiling", kind)
    x = h
    depth = int(rng.randint(0, 3))
    for _ in range(depth):
        x = pmm.SequentialModel([x, M.Tanh()], rng=0)
    pre = int(rng.randint(2))
    m = pmm.SequentialModel([M.Bias()] * pre + [x, M.Bias()], rng=1)
    m.compile(int(rng.randint(1000)), (p,))
    if rng.randint(2):
        # compiled again, for the same or another number of features
        q = int(rng.randint(1, 4))
        if not pre or q == p:
            m.compile(int(rng.randint(1000)), (q,))
            p = q
            mon.event("compiled again")
    mon.sig(kind, depth, pre, p)
    mon.check(not h.trainable, "frozen-before-compiling", kind)
    n = int(rng.randint(2, 6))
    X, Y = G.fa(rng, n, p), G.fa(rng, n, 2)
    before = leaves_of(h.get_params())
    mon.check(len(before) > 0, "has-parameters")
    rec = Recorder()
    m.train(X, Y, epochs=2, lr=0.1, verbose=False, batch_size=int(rng.randint(1, n + 1)), callback=rec.callback)
    rec.done()
    for a, b in zip(leaves_of(h.get_params()), before):
        mon.tree_same(a, b, "frozen", kind)
    # the parameters of the whole model after the last epoch
    last = jax.tree.unflatten(jax.tree.structure(m.get_params()), rec.epochs[-1][1])
    sub = last[pre]
    for _ in range(depth):
        sub = sub[0]
    for a, b in zip(leaves_of(sub), before):
        mon.tree_same(a, b, "frozen-last-epoch", kind)
    mon.event("frozen arrays", len(before))
    switch(rng, h, True)
    mon.check(h.trainable, "unfrozen", kind)
    rec = Recorder()
    m.train(X, Y, epochs=2, lr=0.1, verbose=False, callback=rec.callback)
    rec.done()
    last = jax.tree.unflatten(jax.tree.structure(m.get_params()), rec.epochs[-1][1])
    sub = last[pre]
    for _ in range(depth):
        sub = sub[0]
    mon.check(any(not onp.array_equal(a, b) for a, b in zip(leaves_of(sub), before)), "unfrozen-trains", kind)


@R.scenario(quick=10, thorough=80)
def all_frozen(rng, mon):
    """With everything frozen nothing changes (whether or not training agrees
    to run)."""
    m, shape, w, kind = make(rng)
    mon.sig(kind, G.names(m.modules))
    if rng.randint(2):
        switch(rng, m, False)
    else:
        for h in jax.tree.leaves(m.modules):
            switch(rng, h, False)
    mon.check(not m.trainable, "model-flag")
    X, Y = G.data_for(rng, shape, 4), G.fa(rng, 4, w)
    before = m.get_params()
    try:
        m.train(X, Y, epochs=2, verbose=False, lr=0.1)
    except ValueError:
        mon.event("training refused")
    mon.tree_same(m.get_params(), before, "all-frozen")
    # unfrozen again it trains
    switch(rng, m, True)
    rec = Recorder()
    m.train(X, Y, epochs=2, verbose=False, lr=0.1, callback=rec.callback)
    rec.done()
    moved = [not onp.array_equal(a, b) for a, b in zip(rec.epochs[-1][1], leaves_of(before))]
    mon.check(any(moved), "unfrozen-trains")


def leaves_of(t):
    return [onp.array(x) for x in jax.tree.leaves(t)]


@R.scenario(quick=28, thorough=400)
def levels(rng, mon):
    """Flags set at every level of deeply nested models, the model itself
    included, in any order: exactly the modules last set to frozen are."""

    def build(depth):
        mods = [
            build(depth - 1) if depth and rng.rand() < 0.6 else
            G.pick(rng, [lambda: M.Bias(init_magnitude=0.3), lambda: Weights(float(rng.uniform(0.5, 1.5)), 0.1)])()
            for _ in range(int(rng.randint(1, 4)))
        ]
        names = [f"n{i}" for i in range(len(mods))]
        k = rng.randint(4)
        if k == 0:
            return pmm.NonSequentialModel(dict(zip(names, mods)), dict(zip(["input"] + names, names + ["output"])), rng=0)
        if k == 1:
            return pmm.SequentialModel(dict(zip(names, mods)), rng=0)
        return pmm.SequentialModel(tuple(mods) if k == 2 else mods, rng=0)

    m = build(3)
    m.compile(int(rng.randint(1000)), (2,))
    hs = holders(m) + [m]
    ml = leaf_modules(m)
    mon.sig(G.names(m.modules), len(ml))
    frozen = set()
    X, Y = G.fa(rng, 4, 2), 5 + G.fa(rng, 4, 2)
    trained = False
    for r in range(2):
        for _ in range(int(rng.randint(2, 8))):
            # whole models more often
            h = G.pick(rng, [h for h in hs if hasattr(h, "modules")] if rng.rand() < 0.6 else hs)
            v = bool(rng.randint(2))
            switch(rng, h, v)
            for x in inner(h):
                (frozen.discard if v else frozen.add)(id(x))
            mon.sig(hs.index(h), v)
            for x in ml:
                mon.equal(x.trainable, id(x) not in frozen, "leaf-flag", type(x).__name__)
            for h in hs:
                mon.equal(h.trainable, any(id(x) not in frozen for x in inner(h)), "flag-reads-back", type(h).__name__)
        mask = flags(m, frozen)
        if not any(mask):
            continue
        before = leaves(m)
        rec = Recorder()
        m.train(X, Y, epochs=1, lr=0.1, verbose=False, batch_size=4, callback=rec.callback, resume=bool(trained and rng.randint(2)))
        trained = True
        rec.done()
        for j, (a, b, on) in enumerate(zip(rec.epochs[-1][1], before, mask)):
            if on:
                mon.check(not onp.array_equal(a, b), "trainable-moves", f"parameter {j}")
            else:
                mon.tree_same(a, b, "frozen", f"parameter {j}")
        for j, (a, b, on) in enumerate(zip(leaves(m), before, mask)):
            if not on:
                mon.tree_same(a, b, "frozen", f"parameter {j}")
        mon.event("frozen arrays", sum(not x for x in mask))
        mon.event("trainable arrays", sum(mask))
