"""C22: state, randomness and mode during training."""
import jax
import jax.numpy as np
import numpy as onp

import parametricmatrixmodels as pmm
import parametricmatrixmodels.modules as M
from vlib import gen as G
from vlib.core import Registry
from vlib.probes import ModeFlag, Noise, Scale, Tally
from vlib.trace import Recorder, tmean

R = Registry()
RULE = (
    "Instrument modules (counting and summing state, one random number per call, mode"
    " flag) are placed in sequential, nested and graph models; what they did in every"
    " batch is read off the predictions logged by the loss functions and the state the"
    " model is left with, and compared with the batch-by-batch sequential meaning."
)


def wrap(rng, mods):
    """The modules in order as flat, nested, model-in-model or chain graph."""
    kind = G.pick(rng, ["flat", "nested", "model", "graph", "graph_model"])
    if kind == "flat":
        return pmm.SequentialModel(mods, rng=int(rng.randint(1 << 20))), kind
    if kind == "nested":
        return pmm.SequentialModel(G.nest(rng, mods), rng=int(rng.randint(1 << 20))), kind
    if kind == "model":
        k = int(rng.randint(0, len(mods)))
        return pmm.SequentialModel(mods[:k] + [pmm.SequentialModel(mods[k:], rng=1)], rng=int(rng.randint(1 << 20))), kind
    if kind == "graph":
        names = [f"m{i}" for i in range(len(mods))]
    else:
        k = int(rng.randint(1, len(mods)))
        mods = [pmm.SequentialModel(mods[:k], rng=1), pmm.SequentialModel(mods[k:], rng=2)]
        names = ["m0", "m1"]
    chain = ["input"] + names + ["output"]
    order = rng.permutation(len(names))
    g = pmm.NonSequentialModel(
        {names[i]: mods[i] for i in order},
        {a: b for a, b in zip(chain[:-1], chain[1:])}, rng=int(rng.randint(1 << 20)),
    )
    return g, kind


def fit(rng, mon, model, X, Xv, E, bs, vbs=0, f=None, **kw):
    rec = Recorder()
    f = f or (lambda e, x, y, p: tmean(p))
    kw.setdefault("lr", 1e-3)
    kw.setdefault("verbose", False)
    model.train(
        X, X, X_val=Xv, Y_val=Xv, loss_fn=rec.loss(f, "t"), val_loss_fn=rec.loss(kw.pop("vf", f), "v"),
        epochs=E, batch_size=bs, val_batch_size=vbs, callback=rec.callback, **kw,
    )
    return rec.done()


def split(rec, kind, bs, n):
    """logged (epoch, X, pred) of the batches in order"""
    return [(e, p[0], p[2]) for _, e, p in rec.of(kind)]


@R.scenario(quick=22, thorough=420)
def mode(rng, mon):
    mods = [Scale(float(rng.uniform(0.5, 2)))] + [ModeFlag() for _ in range(rng.randint(1, 4))]
    nf = len(mods) - 1
    m, kind = wrap(rng, mods)
    p = int(rng.randint(1, 4))
    m.compile(0, (p,))
    n, nv, E = int(rng.randint(1, 8)), int(rng.randint(1, 8)), int(rng.randint(1, 4))
    bs, vbs = int(rng.randint(1, 9)), int(rng.randint(0, 9))
    mon.sig(kind, nf, p, n, nv, E, bs, vbs)
    a0 = float(jax.tree.leaves(m.get_params())[0])
    X, Xv = G.fa(rng, n, p), G.fa(rng, nv, p)
    rec = fit(rng, mon, m, X, Xv, E, bs, vbs, lr=0.0, fwd=bool(rng.rand() < 0.2), verbose=bool(rng.rand() < 0.15))
    for e, x, y in split(rec, "t", bs, n):
        mon.close(y, G.n64(x) * a0 + nf, "training-mode", f"training batch in epoch {e}")
    for e, x, y in split(rec, "v", vbs, nv):
        mon.close(y, G.n64(x) * a0, "validation-mode", f"validation batch in epoch {e}")
    mon.event("training batches", len(rec.of("t")))
    mon.event("validation batches", len(rec.of("v")))
    mon.close(m(X, dtype=np.float32), G.n64(X) * a0, "prediction-mode", "prediction after training")


@R.scenario(quick=28, thorough=560)
def state(rng, mon):
    """The state is threaded through all batches of all epochs of several runs;
    validation sees it and leaves it alone; the kept state is that of the kept
    parameters."""
    mods = []
    for _ in range(rng.randint(1, 3)):
        mods.append(Tally())
        if rng.randint(2):
            mods.append(ModeFlag())
    mods.insert(int(rng.randint(len(mods) + 1)), Scale(1.0))
    m, kind = wrap(rng, mods)
    p = int(rng.randint(1, 3))
    m.compile(0, (p,))
    n, nv = int(rng.randint(1, 7)), int(rng.randint(1, 7))
    bs, vbs = int(rng.randint(1, 8)), int(rng.randint(0, 8))
    mon.sig(kind, G.names(mods), p, n, nv, bs, vbs)
    X, Xv = G.fa(rng, n, p), G.fa(rng, nv, p)
    ref = [onp.zeros(2) for x in mods if isinstance(x, Tally)]

    def run(x, train, st):
        """reference pass; returns output and new states"""
        x, new, i = G.n64(x), [s.copy() for s in st], 0
        for k in mods:
            if isinstance(k, Tally):
                new[i] = st[i] + [x.shape[0], x.sum()]
                x = x + 0.1 * st[i][0]
                i += 1
            elif isinstance(k, ModeFlag):
                x = x + (1.0 if train else 0.0)
        return x, new

    for r in range(int(rng.randint(1, 3))):
        E = int(rng.randint(1, 4))
        best = G.pick(rng, ["last", "first", "mid"])
        mid = int(rng.randint(E))
        # the validation loss decides which epoch is kept
        vf = {
            "last": lambda e, x, y, q: -1.0 * e - np.sum(q) * 0,
            "first": lambda e, x, y, q: 1.0 * e + np.sum(q) * 0,
            "mid": lambda e, x, y, q: np.abs(1.0 * e - mid) + np.sum(q) * 0,
        }[best]
        # the initial loss is evaluated with epoch 0, as is the one of epoch 0
        keep = {"last": E if E > 1 else 0, "first": 0, "mid": mid + 1 if mid else 0}[best]
        mon.sig(E, best, mid)
        rec = fit(rng, mon, m, X, Xv, E, bs, vbs, lr=0.0, vf=vf, batch_rng=int(rng.randint(1000)), resume=bool(r and rng.randint(2)))
        tr, va = split(rec, "t", bs, n), split(rec, "v", vbs, nv)
        hist = [ref]
        for e in range(E):
            st = hist[-1]
            for _, x, y in [t for t in tr if t[0] == e]:
                want, new = run(x, True, st)
                mon.close(y, want, "state-threaded", f"run {r} epoch {e}", rtol=1e-4, atol=1e-4)
                st = new
            hist.append(st)
        # validation events: one evaluation before, one after every epoch
        seen = {}
        for e, x, y in va:
            w = [run(x, False, hist[k])[0] for k in ([0, 1] if e == 0 else [e + 1])]
            k = int(onp.argmin([onp.abs(y - v).max() for v in w]))
            mon.close(y, w[k], "validation-state", f"run {r} validation of epoch {e}", rtol=1e-4, atol=1e-4)
            if e == 0:
                seen[k] = seen.get(k, 0) + len(x)
        mon.equal(seen, {0: nv, 1: nv}, "validation-states-seen")
        mon.event("validation batches", len(va))
        mon.event("training batches", len(tr))
        ref = hist[keep]
        # order of the states: that of the modules
        got = [onp.asarray(s) for s in jax.tree.leaves(m.get_state())]
        mon.equal(len(got), len(ref), "state-count")
        if kind.startswith("graph"):
            got.sort(key=lambda s: (float(s[0]), round(float(s[1]), 3)))
            want = sorted(ref, key=lambda s: (float(s[0]), round(float(s[1]), 3)))
        else:
            want = ref
        for g, w in zip(got, want):
            mon.close(g, w, "kept-state", f"run {r}, kept {best}", rtol=1e-4, atol=1e-3)


@R.scenario(quick=22, thorough=460)
def randomness(rng, mon):
    k = int(rng.randint(1, 4))
    mods = [Scale(1.0)] + [Noise() for _ in range(k)]
    m, kind = wrap(rng, mods)
    m.compile(int(rng.randint(100)), (2,))
    n, nv, E = int(rng.randint(2, 8)), int(rng.randint(1, 6)), int(rng.randint(2, 5))
    bs, vbs = int(rng.randint(1, n + 1)), int(rng.randint(0, 6))
    mon.sig(kind, k, n, nv, E, bs, vbs)
    X, Xv = G.fa(rng, n, 2), G.fa(rng, nv, 2)
    seed = int(rng.randint(1 << 20))
    vf = lambda e, x, y, p: -1.0 * e + np.sum(p) * 0  # keep the last epoch

    def zs(model, **kw):
        rec = fit(rng, mon, model, X, Xv, E, bs, vbs, lr=0.0, vf=vf, batch_rng=4, **kw)
        t, v = [], []
        for kind_, out in (("t", t), ("v", v)):
            for e, x, y in split(rec, kind_, bs, n):
                d = G.n64(y) - G.n64(x)
                mon.close(d, onp.full(d.shape, d.flat[0]), "one-draw-per-batch", atol=1e-4)
                out.append((e, round(float(d.flat[0]), 4)))
        return t, v

    m.set_rng(seed)
    key0 = m.get_rng()
    t1, v1 = zs(m)
    vals = [z for _, z in t1]
    mon.check(len(set(vals)) == len(vals), "fresh-key-per-batch", "two training batches drew the same number", draws=t1)
    mon.event("random draws observed", len(t1) + len(v1))
    # the key advances
    key1 = m.get_rng()
    mon.check(not onp.array_equal(jax.random.key_data(key0), jax.random.key_data(key1)), "key-advances")
    t2, _ = zs(m, resume=bool(rng.randint(2)))
    mon.check(not (set(vals) & {z for _, z in t2}), "second-run-differs", "a second run repeated random numbers", first=t1, second=t2)
    # derived from the model's key alone
    m.set_rng(seed if rng.randint(2) else jax.random.key(seed))
    t3, v3 = zs(m)
    mon.equal(t3, t1, "by-model-key")
    mon.equal(sorted(v3), sorted(v1), "by-model-key")
    m.set_rng(seed + 1)
    t4, _ = zs(m)
    mon.check(t4 != t1, "other-key-other-draws")


@R.scenario(quick=10, thorough=160)
def initial_kept(rng, mon):
    """When no epoch improves, parameters and state are the initial ones and the
    key still advances."""
    mods = [Scale(1.0), Tally(), Noise()]
    m, kind = wrap(rng, mods)
    m.compile(0, (1,))
    s0 = jax.tree.map(lambda s: np.asarray([3.0, 0.5], np.float32), m.get_state())
    m.set_state(s0)
    m.set_rng(5)
    k0 = jax.random.key_data(m.get_rng())
    n = int(rng.randint(1, 6))
    mon.sig(kind, n)
    X = G.fa(rng, n, 1)
    p0 = m.get_params()
    fit(rng, mon, m, X, X, 3, 2, vf=lambda e, x, y, p: 1.0 + 0 * np.sum(p), lr=0.1)
    mon.tree_same(m.get_params(), p0, "initial-params-kept")
    mon.tree_same(m.get_state(), s0, "initial-state-kept")
    mon.check(not onp.array_equal(k0, jax.random.key_data(m.get_rng())), "key-advances", "run that kept the initial parameters")
