"""C07: best-validation parameters and stopping rules."""
import jax
import jax.numpy as np
import numpy as onp

import parametricmatrixmodels as pmm
import parametricmatrixmodels.modules as M
from vlib import gen as G
from vlib.core import Registry, Skip
from vlib.probes import Dial, Tally
from vlib.trace import Recorder, mse, tmean

R = Registry()
RULE = (
    "Scripted validation-loss curves (ties, NaN, infinities, plateaus, initial value"
    " best, target hit at any epoch) are played to the real training loop through a"
    " module whose parameter counts the epochs; callback and loss events are compared"
    " with a simulation of the documented stopping rules. Real models: the parameters"
    " kept are compared with those of all epochs recorded by the callback."
)


def simulate(curve, epochs, target, patience, delta):
    """curve[k]: validation loss after k epochs.  -> (epochs run, best index)"""
    f = onp.float32
    best, bi, left, k = f(curve[0]), 0, patience, 0
    with onp.errstate(invalid="ignore"):
        while k < epochs and best > f(target) and left > 0:
            k += 1
            v = f(curve[k])
            left = patience if v <= best - f(delta) else left - 1
            if v < best:
                best, bi = v, k
    return k, bi


def curve(rng, n):
    kind = rng.randint(6)
    if kind == 0:  # descending with noise
        c = onp.linspace(n, 1, n + 1) + rng.randint(-3, 4, n + 1)
    elif kind == 1:  # U shape
        c = onp.abs(onp.arange(n + 1) - rng.randint(n + 1)).astype(float)
    elif kind == 2:  # plateaus and ties
        c = rng.randint(0, 3, n + 1).astype(float)
    elif kind == 3:  # rising: the initial parameters are best
        c = onp.arange(n + 1).astype(float)
    elif kind == 4:  # small steps, each below the required improvement
        c = 40 - onp.arange(n + 1).astype(float)
    else:
        c = rng.randint(-8, 9, n + 1).astype(float)
    c = c * 0.25
    for v in (onp.nan, onp.inf):
        if rng.rand() < 0.25:
            c[1 + rng.randint(n, size=rng.randint(1, 3))] = v
    if rng.rand() < 0.1:
        c[0] = onp.inf
    if rng.rand() < 0.1:  # everything is lost after some epoch
        c[rng.randint(1, n + 1):] = onp.nan
    return c


@R.scenario(quick=72, thorough=1600)
def scripted(rng, mon):
    n = int(rng.randint(1, 14))  # length of the curve
    c = curve(rng, n)
    epochs = n if rng.rand() < 0.8 else int(rng.randint(0, n + 1))
    target = -onp.inf if rng.randint(2) else float(0.25 * rng.randint(-4, 8) + 0.1)
    mode = rng.randint(3)
    patience = int(rng.randint(1, 6)) if mode else 100
    delta = [-onp.inf, 0.1, float(G.pick(rng, [0.1, 0.3, 0.6, -0.1, -0.3]))][mode]
    c0 = float(rng.randint(-5, 6))
    nt, nv = int(rng.randint(1, 5)), int(rng.randint(1, 8))
    vbs = int(rng.randint(0, nv + 2))
    nvb = 1 if vbs == 0 else -(-nv // min(vbs, nv))
    if nvb in (1, 2, 4) and rng.rand() < 0.6:
        # all values are exact then: improvements and targets that are met
        # exactly count as met
        if target != -onp.inf:
            target -= 0.1
        if mode:
            delta = float(G.pick(rng, [0.0, 0.25, 0.5, -0.25]))
        mon.event("exact ties")
    model = pmm.SequentialModel([Tally(), Dial(c0)], rng=0)
    if rng.randint(2):
        model = pmm.SequentialModel([pmm.SequentialModel([Tally(), Dial(c0)], rng=1)], rng=0)
    model.compile(0, (2,))
    tab = np.asarray(c.astype("float32"))
    rec = Recorder()

    def vloss(epoch, X, Y, pred):
        k = np.rint(c0 - np.mean(pred)).astype(int)
        return np.take(tab, np.clip(k, 0, n))

    X, Y = G.fa(rng, nt, 2), G.fa(rng, nt, 2)
    Xv, Yv = G.fa(rng, nv, 2), G.fa(rng, nv, 2)
    kw = {}
    if delta != -onp.inf or rng.randint(2):
        kw.update(early_stopping_min_delta=delta)
    if patience != 100:
        kw.update(early_stopping_patience=patience)
    if target != -onp.inf:
        kw.update(target_loss=target)
    if rng.rand() < 0.2:
        kw.update(verbose=True)
    else:
        kw.update(verbose=False)
    mon.sig(c.tolist(), epochs, target, patience, delta, nt, nv, vbs)
    model.train(
        X, Y, X_val=Xv, Y_val=Yv, loss_fn=lambda e, x, y, p: tmean(p),
        val_loss_fn=rec.loss(vloss, "v"), epochs=epochs, lr=1.0, batch_size=nt + int(rng.randint(2)),
        val_batch_size=vbs, batch_rng=1, callback=rec.callback, **kw,
    )
    rec.done()
    k, bi = simulate(c, epochs, target, patience, delta)
    mon.event("epochs observed", len(rec.epochs))
    mon.event("stopped early" if k < epochs else "ran to the end")
    mon.event("initial kept" if bi == 0 else "epoch kept")
    mon.equal([e for e, _ in rec.epochs], list(range(k)), "epochs-run", "callback epochs against the stopping rules", curve=c, options=(epochs, target, patience, delta))
    for e, p in rec.epochs:
        mon.close(p[0], c0 - (e + 1), "callback-params", "parameters after the epoch", atol=1e-2)
    mon.equal(len(rec.of("v")), (k + 1) * nvb, "validations-run")
    got = float(jax.tree.leaves(model.get_params())[0])
    mon.close(got, c0 - bi, "best-params", "kept parameters", atol=1e-2, curve=c, options=(epochs, target, patience, delta))
    st = jax.tree.leaves(model.get_state())[0]
    mon.equal(int(st[0]), bi * nt, "best-state", "state belongs to the kept parameters", curve=c)
    # a resumed run continues from the kept parameters
    if rng.rand() < 0.3:
        again = Recorder()
        model.train(
            X, Y, X_val=Xv, Y_val=Yv, loss_fn=lambda e, x, y, p: tmean(p), lr=1.0,
            val_loss_fn=lambda e, x, y, p: tmean(p), epochs=2, batch_size=nt, verbose=False,
            callback=again.callback,
        )
        again.done()
        mon.close(again.epochs[0][1][0], c0 - bi - 1, "next-run-start", "next run starts from the kept parameters", atol=1e-2)


LOSSES = {
    "mse": lambda p, y: onp.mean((p - y) ** 2),
    "mae": lambda p, y: onp.mean(onp.abs(p - y)),
    "pseudo_huber:0.5": lambda p, y: onp.mean(0.25 * (onp.sqrt(1 + ((p - y) / 0.5) ** 2) - 1)),
}


@R.scenario(quick=26, thorough=420)
def real_models(rng, mon):
    """Noisy training of real models with named losses: the kept parameters are,
    bit for bit, one of the recorded sets, and no recorded set validates better."""
    m, shape, w, kind = G.rand_model(rng, depth=2)
    m.compile(int(rng.randint(1000)), shape)
    if not jax.tree.leaves(m.get_params()):
        raise Skip()
    n, nv = int(rng.randint(2, 8)), int(rng.randint(1, 8))
    X, Y = G.data_for(rng, shape, n), G.fa(rng, n, w)
    Xv, Yv = G.data_for(rng, shape, nv), G.fa(rng, nv, w)
    loss = G.pick(rng, ["mse", "mae"])
    vl = G.pick(rng, [None] + list(LOSSES))
    E = int(rng.randint(3, 12))
    noval = rng.rand() < 0.2
    divs = [d for d in range(1, nv + 1) if nv % d == 0]
    kw = dict(X_val=Xv, Y_val=Yv, val_batch_size=G.pick(rng, divs))
    if noval:
        kw, vl, Xv, Yv = {}, None, X, Y
    if vl is not None:
        kw["val_loss_fn"] = vl
    mon.sig(kind, G.names(m.modules), n, nv, loss, vl, E, noval)
    init = [onp.array(x) for x in jax.tree.leaves(m.get_params())]
    struct = jax.tree.structure(m.get_params())
    rec = Recorder()
    ref = m.copy()
    m.train(
        X, Y, loss_fn=loss, epochs=E, batch_size=int(rng.randint(1, n + 1)), lr=float(G.pick(rng, [0.02, 0.3, 1.0])),
        verbose=False, batch_rng=int(rng.randint(1000)), callback=rec.callback, **kw,
    )
    rec.done()
    mon.equal([e for e, _ in rec.epochs], list(range(E)), "all-epochs")
    sets = [init] + [p for _, p in rec.epochs]
    vals = []
    for s in sets:
        ref.set_params(jax.tree.unflatten(struct, [np.asarray(x) for x in s]))
        p = ref(Xv, dtype=np.float32)
        vals.append(float(LOSSES[vl or loss](G.n64(p), G.n64(Yv))))
    got = [onp.array(x) for x in jax.tree.leaves(m.get_params())]
    idx = [i for i, s in enumerate(sets) if all(onp.array_equal(a, b, equal_nan=True) for a, b in zip(s, got))]
    mon.check(idx, "kept-is-recorded", "the parameters kept are not those of any epoch", vals=vals)
    best = onp.nanmin(vals)
    mon.event("kept initial" if 0 in idx else "kept an epoch")
    mon.check(
        min(vals[i] for i in idx) <= best + 1e-5 + 2e-4 * abs(best),
        "kept-is-best", "a recorded set validates better", kept=idx, vals=vals,
    )


@R.scenario(quick=16, thorough=160)
def nan_recovery(rng, mon):
    """Training that blows up to NaN/inf at some epoch never returns such
    parameters."""
    m = pmm.SequentialModel([M.LinearNN(1, init_magnitude=0.3)], rng=0)
    m.compile(int(rng.randint(100)), (2,))
    n, E = int(rng.randint(2, 6)), int(rng.randint(3, 9))
    bad = int(rng.randint(0, E))
    X = G.fa(rng, n, 2)
    Y = G.fa(rng, n, 1)
    what = G.pick(rng, [onp.nan, onp.inf])
    mon.sig(n, E, bad, what)

    def lossf(epoch, x, y, p):
        return np.mean((p - y) ** 2) * np.where(epoch == bad, what, 1.0)

    rec = Recorder()
    init = [onp.array(x) for x in jax.tree.leaves(m.get_params())]
    m.train(X, Y, X_val=X, Y_val=Y, loss_fn=lossf, val_loss_fn="mse", epochs=E, batch_size=n, lr=0.05, verbose=False,
            callback=rec.callback, batch_rng=3)
    rec.done()
    got = [onp.array(x) for x in jax.tree.leaves(m.get_params())]
    mon.check(all(onp.isfinite(x).all() for x in got), "finite-kept", params=got)
    sets = [init] + [p for _, p in rec.epochs[:bad]]

    def val(s):
        W = next(x for x in s if x.ndim == 2)
        b = next(x for x in s if x.ndim != 2)
        return float(onp.mean((G.n64(X) @ (G.n64(W) if W.shape == (2, 1) else G.n64(W).T) + G.n64(b).reshape(-1) - G.n64(Y)) ** 2))

    vals = [val(s) for s in sets]
    mon.check(val(got) <= min(vals) * (1 + 1e-5) + 1e-7, "best-before-nan", got=val(got), vals=vals)
