"""C10: loss formulas, custom losses, refusals."""
import jax
import jax.numpy as np
import numpy as onp

import parametricmatrixmodels as pmm
import parametricmatrixmodels.modules as M
from vlib import gen as G
from vlib.core import Registry
from vlib.probes import Tag, Weights
from vlib.trace import Recorder, tmean

R = Registry()
RULE = (
    "Values of named losses are observed from outside: the validation loss by bracketing"
    " it with the target that stops training, the training loss by the parameter step it"
    " causes with an optimizer set up to take (almost) plain gradient steps, and both"
    " directly from the loss constructor; each is compared with a NumPy formula over all"
    " leaves. Custom losses log their arguments."
)


def mean(L):
    return sum(onp.sum(x) for x in L) / sum(x.size for x in L)


def formula(name, xp):
    """name -> f(pred, y, unc) on one leaf"""
    if name.startswith("pseudo_huber"):
        d = float(name.split(":")[1]) if ":" in name else 1.0
        return lambda p, y, u: d * d * (xp.sqrt(1 + xp.abs((p - y) / d) ** 2) - 1)
    base = name.replace("_unsupervised", "").replace("_unc", "")
    f = {
        "mse": lambda p, y: xp.abs(p - y) ** 2,
        "mae": lambda p, y: xp.abs(p - y),
        "mre": lambda p, y: xp.abs((p - y) / (y + 1e-4)),
        "mrd": lambda p, y: xp.abs((p - y) / ((y + p) * 2.0 + 1e-4)),
    }[base]
    if name.endswith("_unc"):
        k = 2 if base == "mse" else 1
        return lambda p, y, u: f(p, y) / xp.abs(u) ** k
    return lambda p, y, u: f(p, y)


SUP = ["mse", "mae", "mre", "mrd", "pseudo_huber"]
UNC = ["mse_unc", "mae_unc", "mre_unc", "mrd_unc"]
UNS = ["mse_unsupervised", "mae_unsupervised", "mre_unsupervised"]


def draw_name(rng):
    n = G.pick(rng, SUP + UNC + UNS)
    if n == "pseudo_huber" and rng.rand() < 0.7:
        n += ":" + G.pick(rng, ["0.3", "2", "1.5", "0.05", "1e1"])
    return n


def tree_like(rng, shape, n, cplx=False, pos=False):
    def one(s):
        x = onp.abs(rng.randn(n, *s)) + 0.5 if pos else rng.randn(n, *s) + 3.0 * rng.randint(2)
        if cplx:
            x = x + 1j * rng.randn(n, *s)
        return x

    return jax.tree.map(one, shape, is_leaf=G.is_shape)


def dev(t):
    return jax.tree.map(np.asarray, t)


def expected(name, P, Y, U):
    f = formula(name, onp)
    L = [jax.tree.leaves(t) for t in (P, Y, U)]
    return mean([f(onp.asarray(p), onp.asarray(y), onp.asarray(u)) for p, y, u in zip(*L)])


@R.scenario(quick=120, thorough=2500, x64=True)
def constructor(rng, mon):
    from parametricmatrixmodels.training import make_loss_fn

    name = draw_name(rng)
    shape = G.rand_shape_tree(rng, 2)
    n = int(rng.randint(1, 6))
    cplx = bool(rng.rand() < 0.4)
    P, Y = tree_like(rng, shape, n, cplx), tree_like(rng, shape, n, cplx)
    U = tree_like(rng, shape, n, pos=True)
    mon.sig(name, shape, n, cplx)
    seen = []

    def model(X, params, training, state, rg):
        seen.append((X, params, training, state))
        return params, {"s": state["s"] + 1}

    loss = make_loss_fn(name, model)
    X = dev(Y)
    args = [X] if name in UNS else [np.zeros((n, 2)), dev(Y)]
    if name in UNC:
        args.append(dev(U))
    st = {"s": np.asarray(2.0)}
    v, s = loss(3, *args, dev(P), True, st, jax.random.key(0))
    mon.equal(np.ndim(v), 0, "scalar")
    mon.close(v, expected(name, P, Y, U), "value", name, rtol=1e-9, atol=1e-10)
    mon.check(onp.isrealobj(onp.asarray(v)), "real-valued")
    mon.equal(float(s["s"]), 3.0, "state-passed", "the new state comes back with the loss")
    mon.check(len(seen) == 1 and seen[0][2] is True, "one-evaluation")


def net(rng):
    """A cheap model with several parameters on a random tree; output tree has
    the structure of the input."""
    shape = G.rand_shape_tree(rng, 2)
    m = pmm.SequentialModel([Weights(float(rng.uniform(0.5, 1.5)), float(rng.randn())), Tag(0.9, float(rng.randn()))], rng=0)
    m.compile(0, shape)
    m.set_precision(64)
    return m, shape


def ref_out(leaves, X, xp=onp):
    """leaves of the parameters: c, w of Weights, then [a, b] of Tag"""
    c, w, ab = leaves
    return jax.tree.map(lambda x: xp.sin(ab[0] * (x * w + c[0]) + ab[1]), X)


def data_args(name, X, Y, U, Xv=None, Yv=None, Uv=None):
    a, k = [X], {}
    if name not in UNS:
        a.append(Y)
    if name in UNC:
        k["Y_unc"] = U
    if Xv is not None:
        k["X_val"] = Xv
        if name not in UNS:
            k["Y_val"] = Yv
        if name in UNC:
            k["Y_val_unc"] = Uv
    return a, k


@R.scenario(quick=18, thorough=340, x64=True)
def training_step(rng, mon):
    """lr = eps = 1e6: the first Adam step is the gradient of the loss."""
    name = draw_name(rng)
    m, shape = net(rng)
    n = int(rng.randint(1, 6))
    mon.sig(name, shape, n)
    X, Y, U = tree_like(rng, shape, n), tree_like(rng, shape, n), tree_like(rng, shape, n, pos=True)
    if name in UNS:
        Y = X
    leaves = [onp.asarray(x) for x in jax.tree.leaves(m.get_params())]
    a, k = data_args(name, dev(X), dev(Y), dev(U))
    rec = Recorder()
    m.train(*a, **k, loss_fn=name, epochs=1, lr=1e6, eps=1e6, batch_size=n, verbose=False, callback=rec.callback, clip=1e9)
    rec.done()
    f = formula(name, np)

    def L(ls):
        P = ref_out(ls, X, np)
        t = [f(p, y, u) for p, y, u in zip(*[jax.tree.leaves(z) for z in (P, Y, U)])]
        return sum(np.sum(x) for x in t) / sum(x.size for x in t)

    g = jax.grad(L)([np.asarray(x) for x in leaves])
    for j, (p0, p1, d) in enumerate(zip(leaves, rec.epochs[0][1], g)):
        d = onp.asarray(d)
        if onp.abs(d).max() > 1e3:
            continue
        mon.close(p0 - p1, d / (1 + onp.abs(d) / 1e6), "training-loss-gradient", f"{name} parameter {j}", rtol=1e-5, atol=1e-6)
    mon.event("steps observed")


@R.scenario(quick=18, thorough=340, x64=True)
def validation_value(rng, mon):
    """Training stops at once iff the initial validation loss is at most the
    target: brackets the value of the (differently named) validation loss."""
    name = draw_name(rng)
    fam = SUP if name in SUP or ":" in name else (UNC if name in UNC else UNS)
    vname = G.pick(rng, fam + [None])
    m, shape = net(rng)
    n, nv = int(rng.randint(1, 6)), int(rng.randint(1, 6))
    X, Y, U = tree_like(rng, shape, n), tree_like(rng, shape, n), tree_like(rng, shape, n, pos=True)
    Xv, Yv, Uv = tree_like(rng, shape, nv), tree_like(rng, shape, nv), tree_like(rng, shape, nv, pos=True)
    noval = bool(rng.rand() < 0.2) and vname is None
    if name in UNS:
        Y, Yv = X, Xv
    leaves = [onp.asarray(x) for x in jax.tree.leaves(m.get_params())]
    mon.sig(name, vname, shape, n, nv, noval)
    if noval:
        want = expected(name, ref_out(leaves, X), Y, U)
        a, k = data_args(name, dev(X), dev(Y), dev(U))
    else:
        want = expected(vname or name, ref_out(leaves, Xv), Yv, Uv)
        a, k = data_args(name, dev(X), dev(Y), dev(U), dev(Xv), dev(Yv), dev(Uv))
    if vname:
        k["val_loss_fn"] = vname
    for target, ran in ((want * (1 + 2e-5) + 1e-7, 0), (want * (1 - 2e-5) - 1e-7, 1)):
        rec = Recorder()
        m.train(*a, **k, loss_fn=name, epochs=1, lr=0.0, batch_size=n, verbose=False, callback=rec.callback, target_loss=float(target))
        rec.done()
        mon.equal(len(rec.epochs), ran, "validation-loss", f"validation {vname or name}: value {want}, target {target}")


@R.scenario(quick=14, thorough=260)
def custom(rng, mon):
    """Custom losses receive epoch, inputs, targets, uncertainties and the
    predictions of the same batch in this order."""
    shape = G.rand_shape_tree(rng, 1)
    m = pmm.SequentialModel([Weights(1.3, 0.2)], rng=0)
    m.compile(0, shape)
    n, E, bs = int(rng.randint(1, 7)), int(rng.randint(1, 4)), int(rng.randint(1, 5))
    kind = int(rng.randint(3))
    X = jax.tree.map(lambda s: G.fa(rng, n, *s), shape, is_leaf=G.is_shape)
    Y = jax.tree.map(lambda x: 10 + 2 * x, X)
    U = jax.tree.map(lambda x: 100 + 3 * x, X)
    mon.sig(shape, n, E, bs, kind)
    rec = Recorder()
    a, k = [X], dict(X_val=X)
    if kind >= 1:
        a.append(Y)
        k["Y_val"] = Y
    if kind == 2:
        k.update(Y_unc=U, Y_val_unc=U)
    f = lambda epoch, *args: tmean(args[-1]) + 0.5 * epoch
    m.train(
        *a, **k, loss_fn=rec.loss(f, "t"), val_loss_fn=rec.loss(f, "v"), epochs=E, batch_size=bs, lr=0.0,
        verbose=False, callback=rec.callback,
    )
    rec.done()
    nx = jax.tree.structure(shape, is_leaf=G.is_shape).num_leaves
    mon.equal(len(rec.epochs), E, "epochs")
    for _, e, p in rec.events:
        mon.equal(len(p), nx * (kind + 2) + 1, "argument-count")
        for j in range(nx):
            x = p[j]
            if kind >= 1:
                mon.close(p[nx + j], 10 + 2 * x, "targets-of-batch", atol=1e-4)
            if kind == 2:
                mon.close(p[2 * nx + j], 100 + 3 * x, "uncertainties-of-batch", atol=1e-3)
            mon.close(p[(kind + 1) * nx + j], 1.3 * x + 0.2, "predictions-of-batch", atol=1e-4)
        mon.check(0 <= e < E, "epoch-number")
    got = sorted(e for _, e, _ in rec.of("t"))
    nb = -(-n // min(bs, n))
    mon.equal(got, sorted(list(range(E)) * nb), "epochs-passed")


@R.scenario(quick=14, thorough=200)
def refusals(rng, mon):
    m = pmm.SequentialModel([M.LinearNN(2)], rng=0)
    m.compile(0, (3,))
    n = int(rng.randint(2, 6))
    X, Y, U = G.fa(rng, n, 3), G.fa(rng, n, 2), np.abs(G.fa(rng, n, 2)) + 1
    k = dict(epochs=1, verbose=False)
    p0 = m.get_params()
    cases = {
        "unknown name": lambda: m.train(X, Y, loss_fn=G.pick(rng, ["rmse", "", "MSE", "mse2", "unc", "mean"]), **k),
        "unknown validation name": lambda: m.train(X, Y, loss_fn="mse", val_loss_fn="nope", **k),
        "uncertainty missing": lambda: m.train(X, Y, loss_fn=G.pick(rng, UNC), **k),
        "targets missing": lambda: m.train(X, loss_fn=G.pick(rng, SUP), **k),
        "samples differ": lambda: m.train(X, Y[:-1], **k),
        "uncertainty samples differ": lambda: m.train(X, Y, Y_unc=U[:-1], loss_fn="mse_unc", **k),
        "uncertainty shape differs": lambda: m.train(X, Y, Y_unc=U[:, :1], loss_fn="mse_unc", **k),
        "validation targets missing": lambda: m.train(X, Y, X_val=X, **k),
        "validation samples differ": lambda: m.train(X, Y, X_val=X, Y_val=Y[:-1], **k),
        "validation uncertainty missing": lambda: m.train(X, Y, Y_unc=U, X_val=X, Y_val=Y, loss_fn="mse_unc", **k),
        "validation features differ": lambda: m.train(X, Y, X_val=X[:, :2], Y_val=Y, **k),
        "uncertainty without targets": lambda: m.train(X, Y_unc=U, loss_fn="mse_unc", **k),
        "target structure differs": lambda: m.train(X, [Y, Y], loss_fn=G.pick(rng, ["mse", "mae"]), **k),
        "bad delta": lambda: m.train(X, Y, loss_fn="pseudo_huber:x", **k),
    }
    name = list(cases)[int(rng.randint(len(cases)))]
    mon.sig(name, n)
    mon.raises(cases[name], "refused", name)
    mon.tree_same(m.get_params(), p0, "params-after-refusal", name)
