"""C08: exactly-once use of training samples, pairing, validation isolation."""
import jax
import jax.numpy as np
import numpy as onp

import parametricmatrixmodels as pmm
import parametricmatrixmodels.modules as M
from vlib import gen as G
from vlib.core import Registry, Skip
from vlib.probes import Tally
from vlib.trace import Recorder, mse, tmean

R = Registry()
RULE = (
    "Every sample carries its identity in all leaves of its inputs, targets and"
    " uncertainties; every loss evaluation inside the compiled training loop emits an"
    " event with what it was given. Checked offline per epoch: each identity exactly"
    " once, batch sizes, pairing, fresh permutations, dependence on the seed only."
)


def ids_tree(rng, ids, shape):
    """data tree whose every element encodes the sample identity"""
    return jax.tree.map(
        lambda s: np.asarray(
            (ids.reshape((-1,) + (1,) * len(s)) + onp.arange(int(onp.prod(s))).reshape(s) / 64.0).astype("float32")
        ),
        shape, is_leaf=G.is_shape,
    )


def ident(leaf, off=0.0):
    """identities of the samples in one logged leaf; None if inconsistent"""
    n = leaf.shape[0]
    flat = leaf.reshape(n, -1) - off
    base = flat - onp.arange(flat.shape[1]) / 64.0
    r = onp.rint(base[:, 0])
    ok = onp.allclose(base, r[:, None], atol=1e-3)
    return r.astype(int) if ok else None


class Setup:
    def __init__(self, rng, n=None):
        self.n = int(rng.randint(1, 14)) if n is None else n
        self.nv = int(rng.randint(1, 10))
        self.shape = G.rand_shape_tree(rng, 2, shapef=lambda: G.rand_shape(rng, (1, 2), (1, 3)))
        leaves = jax.tree.leaves(self.shape, is_leaf=G.is_shape)
        p = sum(int(onp.prod(s)) for s in leaves)
        self.q = int(rng.randint(1, 3))
        self.kind = G.pick(rng, ["none", "y", "unc"])  # targets given
        self.yshape = {"y": (self.q,), "z": [(1,)]} if rng.randint(2) else (self.q,)
        self.model = pmm.SequentialModel(
            [M.ConcatenateLeaves(), M.LinearNN(self.q, init_magnitude=0.01)], rng=0
        )
        if G.is_shape(self.shape):
            self.model = pmm.SequentialModel([M.LinearNN(self.q, init_magnitude=0.01)], rng=0)
        self.model.compile(int(rng.randint(1000)), self.shape)
        self.X = ids_tree(rng, onp.arange(self.n), self.shape)
        self.Y = ids_tree(rng, onp.arange(self.n) + 1000.0, self.yshape)
        self.U = ids_tree(rng, onp.arange(self.n) + 2000.0, self.yshape)
        self.Xv = ids_tree(rng, onp.arange(self.nv) + 300.0, self.shape)
        self.Yv = ids_tree(rng, onp.arange(self.nv) + 1300.0, self.yshape)
        self.Uv = ids_tree(rng, onp.arange(self.nv) + 2300.0, self.yshape)
        self.nx = len(leaves)
        self.ny = len(jax.tree.leaves(self.yshape, is_leaf=G.is_shape))

    def loss(self, rec, kind):
        return rec.loss(lambda epoch, *a: tmean(a[-1]) * 0.01, kind)

    def args(self, val=True):
        a, k = [self.X], {}
        if self.kind != "none":
            a.append(self.Y)
        if self.kind == "unc":
            k["Y_unc"] = self.U
        if val:
            k["X_val"] = self.Xv
            if self.kind != "none":
                k["Y_val"] = self.Yv
            if self.kind == "unc":
                k["Y_val_unc"] = self.Uv
        return a, k

    def decode(self, mon, payload, base, key):
        """identities of one event, checking that everything stays together"""
        k = self.nx
        X = payload[:k]
        ref = ident(X[0], base)
        mon.check(ref is not None, key + "-features", X=X[0])
        for x in X[1:]:
            r = ident(x, base)
            mon.check(r is not None and onp.array_equal(r, ref), key + "-pairing-inputs", got=x, want=ref)
        for j, off in ((1, 1000.0), (2, 2000.0)):
            if {"none": 0, "y": 1, "unc": 2}[self.kind] >= j:
                for y in payload[k: k + self.ny]:
                    r = ident(y, off + base)
                    mon.check(
                        r is not None and onp.array_equal(r, ref),
                        key + ("-pairing-targets" if j == 1 else "-pairing-uncertainty"), got=y, want=ref,
                    )
                k += self.ny
        return ref.tolist()


def run(rng, s, val, epochs, bs, vbs=0, seed=1, **kw):
    rec = Recorder()
    a, k = s.args(True)
    # val=False: validate on the training data itself
    if not val:
        for name, v in (("X_val", s.X), ("Y_val", s.Y), ("Y_val_unc", s.U)):
            if name in k:
                k[name] = v
    k.update(loss_fn=s.loss(rec, "t"), val_loss_fn=s.loss(rec, "v"))
    s.model.train(
        *a, **k, epochs=epochs, batch_size=bs, val_batch_size=vbs, verbose=False,
        batch_rng=seed, lr=1e-4, callback=rec.callback, **kw,
    )
    return rec.done()


@R.scenario(quick=56, thorough=700)
def exactly_once(rng, mon):
    s = Setup(rng)
    epochs = int(rng.randint(1, 6))
    bs = int(rng.randint(1, s.n + 4))
    vbs = int(rng.randint(0, s.nv + 3))
    kw = {}
    if rng.rand() < 0.2:
        kw["unroll"] = int(rng.randint(1, 4))
    if rng.rand() < 0.15:
        kw["fwd"] = True
    seed = int(rng.randint(1000))
    rec = run(rng, s, True, epochs, bs, vbs, jax.random.key(seed) if rng.randint(2) else seed, **kw)
    mon.sig(s.n, s.nv, s.shape, s.kind, epochs, bs, vbs, kw)
    bs_ = min(bs, s.n)
    vbs_ = s.nv if vbs == 0 else min(vbs, s.nv)
    tr, va = rec.of("t"), rec.of("v")
    mon.event("training batches observed", len(tr))
    mon.event("validation batches observed", len(va))
    full, rem = divmod(s.n, bs_)
    for e in range(epochs):
        ev = [s.decode(mon, p, 0.0, "train") for _, k, p in tr if k == e]
        mon.equal(sorted(i for b in ev for i in b), list(range(s.n)), "each-once", f"epoch {e}")
        mon.equal(sorted(map(len, ev)), sorted([bs_] * full + [rem] * (rem > 0)), "batch-sizes", f"epoch {e}")
        mon.equal([len(b) for b in ev][:full], [bs_] * full, "remainder-last", f"epoch {e}")
    mon.equal(len(tr), epochs * (full + (rem > 0)), "no-other-updates")
    # validation: once before training and once after every epoch
    vf, vr = divmod(s.nv, vbs_)
    for e in range(epochs):
        ev = [s.decode(mon, p, 300.0, "val") for _, k, p in va if k == e]
        times = 2 if e == 0 else 1
        mon.equal(sorted(i for b in ev for i in b), sorted(list(range(s.nv)) * times), "validation-each-once", f"epoch {e}")
        mon.equal(sorted(map(len, ev)), sorted(([vbs_] * vf + [vr] * (vr > 0)) * times), "validation-batch-sizes")
    mon.equal(len(va), (epochs + 1) * (vf + (vr > 0)), "no-other-validation")


def orders(s, mon, rec, epochs):
    return [
        [i for _, k, p in rec.of("t") if k == e for i in s.decode(mon, p, 0.0, "train")]
        for e in range(epochs)
    ]


@R.scenario(quick=14, thorough=150)
def permutations(rng, mon):
    """Fresh permutation per epoch, decided by the batch seed alone."""
    n = int(rng.randint(9, 16))
    s = Setup(rng, n)
    E = 4
    bs = int(rng.randint(1, n + 1))
    seed = int(rng.randint(10000))
    mon.sig(n, s.shape, s.kind, bs, seed)
    val = bool(rng.randint(2))
    a = orders(s, mon, run(rng, s, val, E, bs, seed=seed), E)
    if bs == n:  # order within the only batch is still visible
        mon.event("full batch")
    mon.equal(len({tuple(o) for o in a}), E, "fresh-permutation", "two epochs used the same order", orders=a)
    mon.check(any(o != sorted(o) for o in a), "shuffled", orders=a)
    # another model, other options, same seed: same order
    s2 = Setup(rng, n)
    s2.model.compile(int(rng.randint(1000)), s2.shape)
    b = orders(s2, mon, run(rng, s2, bool(rng.randint(2)), E, int(rng.randint(1, n + 1)), seed=jax.random.key(seed)), E)
    mon.equal(b, a, "order-by-seed-only")
    c = orders(s2, mon, run(rng, s2, val, E, bs, seed=seed + 1), E)
    mon.check(c != a, "other-seed-other-order")


@R.scenario(quick=12, thorough=150)
def unseeded(rng, mon):
    """Without a seed the order differs from run to run, still exactly once."""
    n = int(rng.randint(9, 14))
    s = Setup(rng, n)
    mon.sig(n, s.shape, s.kind)
    o = [orders(s, mon, run(rng, s, False, 2, 4, seed=None), 2) for _ in range(2)]
    for r in o:
        for e in r:
            mon.equal(sorted(e), list(range(n)), "unseeded-each-once")
    mon.check(o[0] != o[1], "unseeded-differs")


@R.scenario(quick=20, thorough=250)
def validation_never_updates(rng, mon):
    """Same seeds, other validation data (or none): the same parameters after
    every epoch; a copy of the data is used for validation when none is given."""
    m0, shape, w, kind = G.rand_model(rng, depth=2, stateful=True, pmms=False)
    m0.compile(int(rng.randint(1000)), shape)
    n, E, bs = int(rng.randint(2, 9)), int(rng.randint(1, 5)), int(rng.randint(1, 6))
    X, Y = G.data_for(rng, shape, n), G.fa(rng, n, w)
    mon.sig(kind, G.names(m0.modules), n, E, bs)
    if not any(jax.tree.leaves(jax.tree.broadcast(m0.get_trainable_modules(), m0.get_params()))):
        raise Skip()
    ref = None
    for k in range(3):
        m = m0.copy()
        rec = Recorder()
        kw = {}
        if k:
            nv = int(rng.randint(1, 7))
            kw = dict(X_val=G.data_for(rng, shape, nv, scale=3.0), Y_val=G.fa(rng, nv, w), val_batch_size=int(rng.randint(0, 5)))
        m.train(X, Y, epochs=E, batch_size=bs, verbose=False, batch_rng=5, lr=0.02, callback=rec.callback, **kw)
        rec.done()
        mon.equal([e for e, _ in rec.epochs], list(range(E)), "epochs")
        if ref is None:
            ref = rec.epochs
        else:
            for (e, p), (_, q) in zip(rec.epochs, ref):
                mon.tree_close(p, q, "validation-isolated", f"epoch {e}", rtol=1e-6, atol=1e-6)


@R.scenario(quick=10, thorough=120)
def continued_runs(rng, mon):
    """Several runs on one model, data sets of other sizes in between."""
    s = Setup(rng)
    mon.sig(s.n, s.shape, s.kind)
    for r in range(3):
        n = int(rng.randint(1, 12))
        s.n = n
        s.X = ids_tree(rng, onp.arange(n), s.shape)
        s.Y = ids_tree(rng, onp.arange(n) + 1000.0, s.yshape)
        s.U = ids_tree(rng, onp.arange(n) + 2000.0, s.yshape)
        bs = int(rng.randint(1, 9))
        mon.sig(n, bs)
        rec = run(rng, s, True, 2, bs, resume=bool(r and rng.randint(2)))
        for e, o in enumerate(orders(s, mon, rec, 2)):
            mon.equal(sorted(o), list(range(n)), "continued-each-once", f"run {r} epoch {e}")
