"""C09: the Adam trajectory."""
import jax
import jax.numpy as np
import numpy as onp

import parametricmatrixmodels as pmm
import parametricmatrixmodels.modules as M
from vlib import gen as G
from vlib.adam import RefAdam, flags, grad_of
from vlib.core import Registry, Skip
from vlib.trace import Recorder, mse, tmean

R = Registry()
RULE = (
    "Parameters after every epoch, recorded through the callback in double precision,"
    " are compared with an independent NumPy Adam fed with the gradients of the batches"
    " that the loss-event log shows were used, for random models, options, schedules,"
    " complex parameters and splits of the epochs into (resumed) runs."
)
ASSUMPTIONS = [
    "The gradient of a batch loss is taken by jax.grad of the model's own callable"
    " (checked against finite differences by C11)."
]

LR = {
    "const": lambda rng: float(G.pick(rng, [1e-3, 0.01, 0.1])),
    "decay": lambda rng: (lambda i: 0.05 / (1.0 + i)),
    "exp": lambda rng: (lambda i: 0.1 * 0.7**i),
    "switch": lambda rng: (lambda i: np.where(i < 2, 0.1, 0.003)),
}


def options(rng):
    kind = G.pick(rng, list(LR))
    o = dict(lr=LR[kind](rng))
    if rng.randint(2):
        o["b1"] = float(G.pick(rng, [0.0, 0.5, 0.8, 0.95]))
    if rng.randint(2):
        o["b2"] = float(G.pick(rng, [0.5, 0.9, 0.99]))
    if rng.randint(2):
        o["eps"] = float(G.pick(rng, [1e-8, 1e-4, 0.1]))
    if rng.randint(2):
        o["clip"] = float(G.pick(rng, [1e-3, 0.05, 0.3, 5.0]))
    return o, kind


def loss(epoch, X, *a):
    """squared error with an epoch dependence, so that the epoch given to the
    loss shows"""
    return mse(a[-1], a[0]) * (1 + 0.3 * epoch)


def dbl(x):
    return jax.tree.map(lambda v: np.asarray(onp.asarray(v), np.float64), x)


def setup(rng, depth=2, **kw):
    m, shape, w, kind = G.rand_model(rng, depth=depth, **kw)
    m.compile(int(rng.randint(1000)), shape)
    if not jax.tree.leaves(m.get_params()):
        raise Skip()
    G.jitter_params(rng, m)
    m.set_precision(64)
    return m, shape, w, kind


def leaves(m):
    return [onp.array(x) for x in jax.tree.leaves(m.get_params())]


def batches(rec, e, nx):
    """logged batches of one epoch as (X leaves, Y)"""
    return [p for _, k, p in rec.of("t") if k == e]


def compare(mon, rec, ref, mask, grad, state, shape, E, key):
    """replay the logged batches through the reference"""
    struct = jax.tree.structure(shape, is_leaf=G.is_shape)
    nx = struct.num_leaves
    mon.equal([e for e, _ in rec.epochs], list(range(E)), "epochs")
    for e, got in rec.epochs:
        for p in batches(rec, e, nx):
            X = jax.tree.unflatten(struct, [np.asarray(x) for x in p[:nx]])
            g, state = grad(ref.x, state, e, X, np.asarray(p[nx]))
            ref.step(g, mask)
            mon.event("updates replayed")
        ref.end_epoch(mask)
        for j, (a, b) in enumerate(zip(got, ref.x)):
            mon.close(a, b, key, f"parameter {j} after epoch {e}", rtol=2e-6, atol=2e-6)
    return state


@R.scenario(quick=26, thorough=440, x64=True)
def trajectory(rng, mon):
    m, shape, w, kind = setup(rng, stateful=True)
    n, E = int(rng.randint(1, 7)), int(rng.randint(2, 6))
    bs = int(rng.randint(1, n + 2))
    X, Y = dbl(G.data_for(rng, shape, n)), dbl(G.fa(rng, n, w, scale=2.0))
    o, kl = options(rng)
    mon.sig(kind, G.names(m.modules), n, bs, E, kl, {k: v for k, v in o.items() if k != "lr"})
    ref = RefAdam(leaves(m), **o)
    rec = Recorder()
    g = grad_of(m, loss)
    s0 = m.get_state()
    kw = dict(fwd=True) if rng.rand() < 0.1 and not G.complexes(m) else {}
    if rng.rand() < 0.1:
        kw["unroll"] = 2
    m.train(
        X, Y, X_val=X, Y_val=Y, loss_fn=rec.loss(loss, "t"), val_loss_fn="mse", epochs=E, batch_size=bs,
        batch_rng=int(rng.randint(1000)), verbose=False, callback=rec.callback, **o, **kw,
    )
    rec.done()
    if G.complexes(m):
        mon.event("complex parameters")
    compare(mon, rec, ref, flags(m), g, s0, shape, E, "adam")


NAMED = {
    "mse": lambda p, y: np.mean((p - y) ** 2),
    "mae": lambda p, y: np.mean(np.abs(p - y)),
    "pseudo_huber:0.7": lambda p, y: np.mean(0.49 * (np.sqrt(1 + ((p - y) / 0.7) ** 2) - 1)),
}


@R.scenario(quick=14, thorough=260, x64=True)
def named_loss(rng, mon):
    """Named losses with the full batch; a default call uses the documented
    default options."""
    m, shape, w, kind = setup(rng, pmms=bool(rng.randint(2)))
    n, E = int(rng.randint(1, 6)), int(rng.randint(1, 5))
    X, Y = dbl(G.data_for(rng, shape, n)), dbl(G.fa(rng, n, w, scale=2.0))
    name = G.pick(rng, list(NAMED))
    o, kl = options(rng) if rng.randint(2) else ({}, "defaults")
    mon.sig(kind, G.names(m.modules), n, E, name, kl, {k: v for k, v in o.items() if k != "lr"})
    ref = RefAdam(leaves(m), **({"lr": 1e-3} | o))
    rec = Recorder()
    g = grad_of(m, lambda e, x, y, p: NAMED[name](p, y))
    s = m.get_state()
    m.train(X, Y, loss_fn=name, epochs=E, verbose=False, callback=rec.callback, **o)
    rec.done()
    mask = flags(m)
    for e, got in rec.epochs:
        d, s = g(ref.x, s, e, X, Y)
        ref.step(d, mask)
        ref.end_epoch(mask)
        for j, (a, b) in enumerate(zip(got, ref.x)):
            mon.close(a, b, "adam-named", f"parameter {j} after epoch {e}", rtol=2e-6, atol=2e-6)
    mon.equal(len(rec.epochs), E, "epochs")


def last_kept(epoch, *a):
    return -1.0 * epoch + 0 * tmean(a[-1])


@R.scenario(quick=18, thorough=330, x64=True)
def runs(rng, mon):
    """Several runs, resumed or not, with other options; a resumed run goes on
    with the moments and counters, any other starts afresh."""
    m, shape, w, kind = setup(rng)
    n = int(rng.randint(1, 6))
    ref = RefAdam(leaves(m), 0.1)
    g = grad_of(m, loss)
    mask = flags(m)
    mon.sig(kind, G.names(m.modules), n)
    s = m.get_state()
    for r in range(int(rng.randint(2, 4))):
        E, bs = int(rng.randint(2, 5)), int(rng.randint(1, n + 1))
        X, Y = dbl(G.data_for(rng, shape, n)), dbl(G.fa(rng, n, w, scale=2.0))
        o, kl = options(rng)
        resume = bool(r and rng.rand() < 0.65)
        act = G.pick(rng, ["none", "predict", "copy", "set_params"]) if r else "none"
        mon.sig(E, bs, kl, resume, act)
        if act == "predict":
            m(X)
        elif act == "copy":
            m = m.copy()
        elif act == "set_params":
            G.jitter_params(rng, m, 0.1)
            ref.x = leaves(m)
        if not resume:
            ref.fresh()
        ref.set(**({"lr": 1e-3} | o))
        rec = Recorder()
        m.train(
            X, Y, X_val=X, Y_val=Y, loss_fn=rec.loss(loss, "t"), val_loss_fn=last_kept, epochs=E, batch_size=bs,
            batch_rng=r, verbose=False, callback=rec.callback, resume=resume, **o,
        )
        rec.done()
        s = compare(mon, rec, ref, mask, g, s, shape, E, "adam-resumed" if resume else "adam-afresh")
        for a, b in zip(leaves(m), ref.x):
            mon.close(a, b, "kept-last", rtol=2e-6, atol=2e-6)
        mon.event("resumed runs" if resume else "fresh runs")


@R.scenario(quick=10, thorough=220)
def split_epochs(rng, mon):
    """n epochs and then m resumed equal n + m, in single precision, with the
    full batch (the order of samples does not matter then)."""
    m, shape, w, kind = G.rand_model(rng, depth=2)
    m.compile(int(rng.randint(1000)), shape)
    if not jax.tree.leaves(m.get_params()):
        raise Skip()
    n = int(rng.randint(1, 6))
    X, Y = G.data_for(rng, shape, n), G.fa(rng, n, w)
    a, b = int(rng.randint(2, 6)), int(rng.randint(2, 6))
    o, kl = options(rng)
    o["eps"] = 1e-3  # keeps rounding of tiny gradients from being amplified
    o.pop("clip", None)
    mon.sig(kind, G.names(m.modules), n, a, b, kl)
    kw = dict(X_val=X, Y_val=Y, val_loss_fn=last_kept, verbose=False, batch_size=n, loss_fn="mse", **o)
    one, two = m.copy(), m.copy()
    one.train(X, Y, epochs=a + b, **kw)
    two.train(X, Y, epochs=a, **kw)
    two.train(X, Y, epochs=b, resume=True, **kw)
    for x, y in zip(leaves(two), leaves(one)):
        mon.close(x, y, "split-equals-whole", rtol=2e-3, atol=2e-3)
