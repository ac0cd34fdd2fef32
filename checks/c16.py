"""C16: scalers and one-hot encoding."""
import io
import os
import pathlib
import tempfile

import jax
import jax.numpy as np
import numpy as onp

from parametricmatrixmodels.preprocessing import (
    MinMaxScaler,
    MixedScaler,
    OneHot,
    RobustScaler,
    StandardScaler,
)
from vlib import gen as G
from vlib.core import Registry, Skip

R = Registry()
RULE = (
    "Scalers are fitted to random trees (constant features, per-leaf and per-feature"
    " options, single samples) and their outputs compared with NumPy statistics; other"
    " data is mapped by the same reference map and back; saved or serialized scalers are"
    " run next to the original."
)


def data(rng, shape, n, const=0.25):
    tiny = G.pick(rng, [0, 0, 0.4])  # some features vary little around zero

    def one(s):
        x = rng.randn(n, *s) * 10 ** rng.uniform(-1, 1, s) + rng.randn(*s) * 3
        x = onp.where(rng.rand(*s) < tiny, rng.randn(n, *s) * 10 ** rng.uniform(-8, -3, s), x)
        c = rng.rand(*s) < const
        return onp.where(c, onp.broadcast_to(onp.round(x[:1], 1), x.shape), x).astype("float32")

    return jax.tree.map(one, shape, is_leaf=G.is_shape)


def other(rng, shape, n):
    return jax.tree.map(lambda s: (rng.randn(n, *s) * 4).astype("float32"), shape, is_leaf=G.is_shape)


def dev(t):
    return jax.tree.map(np.asarray, t)


def options(rng, shape, f, g):
    """A pair of options: each one value for all leaves, or both a value per
    leaf (None at the same leaves), or both an array per leaf."""
    k = rng.randint(5)
    every = lambda v: jax.tree.map(lambda s: v, shape, is_leaf=G.is_shape)
    if k <= 1:
        u, v = f(()), g(())
        if rng.rand() < 0.1:
            u, v = G.pick(rng, [(None, v), (u, None), (None, None)])
        return (u, every(u)), (v, every(v)), "scalar" if u is not None and v is not None else "none"
    if k <= 3:
        none = jax.tree.map(lambda s: bool(rng.rand() < 0.25), shape, is_leaf=G.is_shape)
        per = lambda h: jax.tree.map(lambda s, n: None if n else h(()), shape, none, is_leaf=G.is_shape)
        d = "tree"
    else:
        per = lambda h: jax.tree.map(lambda s: np.asarray(h(s).astype("float32")), shape, is_leaf=G.is_shape)
        d = "arrays"
    u, v = per(f), per(g)
    if rng.rand() < 0.2:  # one of them for all leaves
        w = f(())
        return (w, every(w)), (v, v), "scalar/" + d
    return (u, u), (v, v), d


def between(rng, a, b):
    def f(s):
        v = onp.round(rng.uniform(a, b, s), 2)
        return v if s else float(v)

    return f


def per_leaf(opt, struct):
    """leaves of an option tree with None kept"""
    return struct.flatten_up_to(opt)


class Affine:
    """reference map per leaf: y = (x - shift) / scale * a + b"""

    def __init__(self, parts):
        self.parts = parts

    def fwd(self, xs):
        return [(G.n64(x) - s) / c * a + b for x, (s, c, a, b) in zip(xs, self.parts)]

    def inv(self, ys):
        return [(G.n64(y) - b) / a * c + s for y, (s, c, a, b) in zip(ys, self.parts)]


def make(rng, shape, X, kind):
    """(scaler, reference, description)"""
    st = jax.tree.structure(shape, is_leaf=G.is_shape)
    L = [G.n64(x) for x in jax.tree.leaves(X)]
    if kind == "standard":
        parts = []
        for x in L:
            sd = onp.where(onp.ptp(x, axis=0) > 0, x.std(axis=0), 1.0)
            parts.append((x.mean(axis=0), sd, 1.0, 0.0))
        return StandardScaler(), Affine(parts), kind
    if kind == "minmax":
        if rng.rand() < 0.2:
            sc, lo, hi, d = MinMaxScaler(), 0.0, 1.0, "default"
            lo_t = hi_t = None
            los, his = [0.0] * len(L), [1.0] * len(L)
        else:
            (lo, lo_t), (hi, hi_t), d = options(rng, shape, between(rng, -2, 0), between(rng, 1, 3))
            fr = (lo, hi) if rng.randint(2) else [lo, hi]
            if d == "scalar" and rng.rand() < 0.3:
                fr = np.asarray([lo, hi], np.float32)
            sc = MinMaxScaler(fr)
            los, his = per_leaf(lo_t, st), per_leaf(hi_t, st)
        parts = []
        for x, a, b in zip(L, los, his):
            if a is None or b is None:
                parts.append((0.0, 1.0, 1.0, 0.0))
                continue
            a, b = G.n64(a), G.n64(b)
            mn, mx = x.min(axis=0), x.max(axis=0)
            parts.append((mn, onp.where(mx > mn, mx - mn, 1.0), b - a, a))
        return sc, Affine(parts), kind + " " + d
    # robust
    eps = 1e-12
    if rng.rand() < 0.2:
        sc, d = RobustScaler(), "default"
        los, his = [0.25] * len(L), [0.75] * len(L)
        cen = scl = [True] * len(L)
    else:
        (lo, lo_t), (hi, hi_t), d = options(rng, shape, between(rng, 0, 0.4), between(rng, 0.6, 1))
        kw, flags = {}, []
        for name in ("with_centering", "with_scaling"):
            k = rng.randint(3)
            if k == 2 and any(v is None for v in per_leaf(lo_t, st) + per_leaf(hi_t, st)):
                k = 1  # trees of one call share their structure
            if k == 0:
                flags.append([True] * len(L))
            elif k == 1:
                v = bool(rng.randint(2))
                kw[name] = v
                flags.append([v] * len(L))
            else:
                t = jax.tree.map(lambda s: bool(rng.randint(2)), shape, is_leaf=G.is_shape)
                kw[name] = t
                flags.append(jax.tree.leaves(t))
        cen, scl = flags
        if rng.rand() < 0.4:
            kw["eps"] = eps = G.pick(rng, [1e-5, 1e-2, 0.5, 2.0])
        sc, d = RobustScaler((lo, hi), **kw), f"{d} {kw}"
        los, his = per_leaf(lo_t, st), per_leaf(hi_t, st)
    parts = []
    for x, a, b, c, s in zip(L, los, his, cen, scl):
        med = onp.median(x, axis=0) if c else 0.0
        if a is None or b is None or not s:
            w = onp.asarray(1.0)
        else:
            q = lambda v: (
                onp.quantile(x, float(v), axis=0) if onp.ndim(v) == 0 else
                onp.asarray([onp.quantile(x.reshape(len(x), -1)[:, i], float(u)) for i, u in enumerate(onp.ravel(v))]).reshape(x.shape[1:])
            )
            w = q(G.n64(b)) - q(G.n64(a))
        if onp.any(onp.abs(onp.abs(w) / eps - 1) < 1e-3):
            raise Skip()
        w = onp.where(onp.abs(w) > eps, w, 1.0)
        parts.append((med, w, 1.0, 0.0))
    return sc, Affine(parts), kind + " " + d


def agree(mon, got, want, like, key, what, slack=None, unit=1.0):
    """got: tree, want: list of leaves"""
    mon.equal(jax.tree.structure(got), jax.tree.structure(like), key + "-structure", what)
    for i, (g, w) in enumerate(zip(jax.tree.leaves(got), want)):
        w = onp.asarray(w)
        mon.check(onp.isfinite(onp.asarray(g)).all(), key + "-finite", what)
        # per feature comparison
        s = unit + onp.abs(w).max(axis=0, initial=0) + (0 if slack is None else slack[i])
        mon.close(onp.asarray(g) / s, w / s, key, f"{what}, leaf {i}", rtol=2e-4, atol=2e-5)


def stable(ref, xs):
    """cancellation of float32 in (x - shift) / scale"""
    return [onp.abs(onp.asarray(s)) / onp.abs(c) * onp.abs(a) * 0.1 for (s, c, a, b) in ref.parts]


@R.scenario(quick=130, thorough=3000)
def scalers(rng, mon):
    shape = G.rand_shape_tree(rng, 2)
    n = int(rng.randint(1, 9))
    X = data(rng, shape, n)
    kind = G.pick(rng, ["standard", "minmax", "robust"])
    sc, ref, d = make(rng, shape, X, kind)
    mon.sig(d, shape, n)
    keep = jax.tree.map(lambda x: x.copy(), X)
    A = other(rng, shape, int(rng.randint(1, 5)))
    mon.raises(lambda: sc.transform(dev(X)), "unfitted-transform", exc=RuntimeError)
    mon.raises(lambda: sc.inverse_transform(dev(X)), "unfitted-inverse", exc=RuntimeError)
    if rng.randint(2):
        r = sc.fit(dev(X))
        mon.check(r is sc, "fit-returns-self")
        T = sc.transform(dev(X))
    else:
        T = sc.fit_transform(dev(X))
    if rng.rand() < 0.3:  # fitting again forgets the first data
        sc.fit(dev(other(rng, shape, 4)))
        T = sc.fit_transform(dev(X))
    xs, as_ = jax.tree.leaves(X), jax.tree.leaves(A)
    sl = stable(ref, xs)
    agree(mon, T, ref.fwd(xs), X, "fitted-data", d, sl)
    TA = sc.transform(dev(A))
    agree(mon, TA, ref.fwd(as_), A, "other-data", d, sl)
    # inverse maps
    mag = [onp.abs(onp.asarray(s)) + onp.abs(c) for (s, c, a, b) in ref.parts]
    agree(mon, sc.inverse_transform(T), xs, X, "restores-fitted", d, mag, 1e-30)
    agree(mon, sc.inverse_transform(TA), as_, A, "restores-other", d, mag, 1e-30)
    agree(mon, sc.inverse_transform(dev(A)), ref.inv(as_), A, "inverse-of-other", d, mag, 1e-30)
    mon.tree_same(X, keep, "data-unchanged")
    # one leaf at a time, one sample at a time: nothing is mixed
    i = int(rng.randint(len(as_[0])))
    one = sc.transform(jax.tree.map(lambda x: np.asarray(x[i:i + 1]), A))
    mon.tree_close(one, jax.tree.map(lambda x: x[i:i + 1], TA), "samples-independent", d, atol=1e-5)
    # statistics directly
    if kind == "standard" and n > 1:
        for x, t in zip(xs, jax.tree.leaves(T)):
            t = G.n64(t)
            var = onp.ptp(G.n64(x), axis=0) > 1e-3 * (1 + onp.abs(x).max(axis=0))
            mon.check(onp.all(onp.abs(t.mean(axis=0))[var] < 2e-3), "zero-mean", d)
            mon.check(onp.all(onp.abs(t.std(axis=0) - 1)[var] < 5e-3), "unit-deviation", d)
    persistence(rng, mon, sc, A, TA, d)


def persistence(rng, mon, sc, A, TA, d):
    how = G.pick(rng, ["dict", "file", "compressed", "path", "handle"])
    mon.sig(how)
    cls = type(sc)
    if how == "dict":
        back = cls.deserialize(sc.serialize())
    else:
        with tempfile.TemporaryDirectory() as tmp:
            p = os.path.join(tmp, "s" + G.pick(rng, ["", ".npz"]))
            save = sc.save_compressed if how == "compressed" else sc.save
            if how == "path":
                save(pathlib.Path(p))
                back = cls.load(pathlib.Path(p))
            elif how == "handle":
                p = p if p.endswith(".npz") else p + ".npz"
                with open(p, "wb") as f:
                    save(f)
                with open(p, "rb") as f:
                    back = cls.load(f)
            else:
                save(p)
                back = cls.load(p)
    mon.tree_same(back.transform(dev(A)), TA, "restored-transform", f"{d} via {how}")
    mon.tree_same(back.inverse_transform(TA), sc.inverse_transform(TA), "restored-inverse", f"{d} via {how}")


@R.scenario(quick=60, thorough=1000)
def onehot(rng, mon):
    shape = G.rand_shape_tree(rng, 2, shapef=lambda: G.rand_shape(rng, (1, 2), (1, 2)))
    n = int(rng.randint(1, 9))
    vals = G.pick(rng, [[0.0, 1.0], [-2.0, 0.5, 7.0], [0.1, 0.2, 0.3, 0.1 + 1e-6]])
    X = jax.tree.map(lambda s: onp.asarray(vals, "float32")[rng.randint(len(vals), size=(n,) + s)], shape, is_leaf=G.is_shape)
    mon.sig(shape, n, vals)
    oh = OneHot()
    mon.raises(lambda: oh.transform(dev(X)), "unfitted", exc=RuntimeError)
    if rng.rand() < 0.4:  # fitted to other data before, of another shape
        oh.fit_transform(dev(jax.tree.map(lambda s: onp.ones((3, 2) + s, "float32"), shape, is_leaf=G.is_shape)))
    E = oh.fit_transform(dev(X)) if rng.randint(2) else oh.fit(dev(X)).transform(dev(X))
    mon.equal(jax.tree.structure(E), jax.tree.structure(X), "structure")
    # unseen data: rows of other values
    B = jax.tree.map(lambda s: onp.asarray(vals + [9.5], "float32")[rng.randint(len(vals) + 1, size=(4,) + s)], shape, is_leaf=G.is_shape)
    EB = oh.transform(dev(B))
    for x, e, b, eb in zip(*[jax.tree.leaves(t) for t in (X, E, B, EB)]):
        rows = [tuple(r) for r in x.reshape(len(x), -1).tolist()]
        cats = sorted(set(rows))
        mon.equal(tuple(e.shape), (len(x), len(cats)), "one-column-per-category")
        e = onp.asarray(e)
        want = onp.asarray([[float(r == c) for c in cats] for r in rows])
        mon.check(onp.array_equal(e.sum(axis=1), onp.ones(len(x))), "exactly-one", rows=rows, enc=e)
        # categories may be ordered in any fixed way: same row <-> same code
        for i in range(len(rows)):
            for j in range(len(rows)):
                mon.check((rows[i] == rows[j]) == onp.array_equal(e[i], e[j]), "marks-category", i=rows[i], j=rows[j])
        code = {r: e[i] for i, r in enumerate(rows)}
        for r, g in zip([tuple(r) for r in b.reshape(len(b), -1).tolist()], onp.asarray(eb)):
            mon.check(onp.array_equal(g, code.get(r, onp.zeros(len(cats)))), "unseen-is-zero" if r not in code else "same-code", row=r, enc=g)
    D = oh.inverse_transform(E)
    mon.equal(jax.tree.structure(D), jax.tree.structure(X), "structure")
    for d, x in zip(jax.tree.leaves(D), jax.tree.leaves(X)):
        mon.check(d.shape == x.shape and onp.array_equal(onp.asarray(d), x), "decodes", got=d, want=x)
    persistence(rng, mon, oh, X, E, "onehot")


@R.scenario(quick=45, thorough=600)
def mixed(rng, mon):
    shape = G.rand_shape_tree(rng, 2)
    if G.is_shape(shape):
        shape = {"a": shape, "b": (2,)}
    n = int(rng.randint(2, 8))
    X, A = data(rng, shape, n), other(rng, shape, 3)
    st = jax.tree.structure(X)
    xs, as_ = jax.tree.leaves(X), jax.tree.leaves(A)
    scs, refs, ds = [], [], []
    for x in xs:
        if rng.rand() < 0.25:
            scs.append(None)
            refs.append(Affine([(0.0, 1.0, 1.0, 0.0)]))
            ds.append("none")
        else:
            kind = G.pick(rng, ["standard", "minmax", "robust"])
            s, r, d = make(rng, tuple(x.shape[1:]), x, kind)
            scs.append(s)
            refs.append(r)
            ds.append(d)
    mon.sig(shape, n, ds)
    m = MixedScaler(jax.tree.unflatten(st, scs) if rng.rand() < 0.9 else None)
    if m.feature_scalers is None:
        refs = [Affine([(0.0, 1.0, 1.0, 0.0)]) for _ in xs]
    T = m.fit_transform(dev(X))
    TA = m.transform(dev(A))
    sl = [stable(r, [x])[0] for r, x in zip(refs, xs)]
    agree(mon, T, [r.fwd([x])[0] for r, x in zip(refs, xs)], X, "mixed-fitted", str(ds), sl)
    agree(mon, TA, [r.fwd([x])[0] for r, x in zip(refs, as_)], A, "mixed-other", str(ds), sl)
    mag = [onp.abs(onp.asarray(r.parts[0][0])) + onp.abs(r.parts[0][1]) for r in refs]
    agree(mon, m.inverse_transform(TA), as_, A, "mixed-restores", str(ds), mag)
    for x, g, s in zip(as_, jax.tree.leaves(TA), scs):
        if s is None:
            mon.check(onp.array_equal(x, onp.asarray(g)), "unscaled-leaf-untouched")
    persistence(rng, mon, m, A, TA, str(ds))
