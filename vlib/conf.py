"""Workloads and an independent NumPy reference for conformalized models."""
import fractions

import jax
import jax.numpy as np
import numpy as onp

import parametricmatrixmodels as pmm
import parametricmatrixmodels.modules as M

from . import gen as G
from .core import Skip
from .probes import Combine, Tag, Weights


def f64(t):
    return jax.tree.map(lambda v: np.asarray(onp.asarray(v), np.float64), t)


def build(rng, x64=True, auto=False):
    """compiled model, input shape, kind"""
    k = G.pick(rng, ["model", "model", "tree", "matrix"])
    if auto:
        shape = G.rand_shape_tree(rng, 1)
        m = pmm.SequentialModel([Weights(1.2, 0.3), G.act(rng), M.Bias(init_magnitude=0.4), Tag(0.6, 0.2)], rng=1)
        k = "auto"
    elif k == "model":
        m, shape, _, kind = G.rand_model(rng, depth=int(rng.randint(1, 3)))
        k += kind
    elif k == "tree":
        s = (int(rng.randint(1, 3)),) if rng.randint(2) else (2, 2)
        shape = {"a": s, "b": [s, s]}
        m = pmm.SequentialModel([Combine(0.7, 0.2, G.pick(rng, ["dict", "list", "deep", "arr"])), Tag(1.1, 0.3), M.Bias(init_magnitude=0.5)], rng=1)
    else:
        shape = {"c": (2,), "d": (1,), "e": (2, 1)}
        p = int(rng.randint(1, 4))
        q = (p,) if rng.randint(2) else (p, 2)
        n = int(onp.prod(q))
        m = pmm.SequentialModel([M.Flatten(), M.ConcatenateLeaves(), M.LinearNN(n, activation=G.act(rng), init_magnitude=0.8), Tag(0.9, 0.1), M.Reshape(q)], rng=1)
    m.compile(int(rng.randint(1000)), shape)
    if jax.tree.leaves(m.get_params()):
        G.jitter_params(rng, m)
    if x64:
        m.set_precision(64)
    return m, shape, k


def masks(rng, tree, p=0.6):
    return jax.tree.map(lambda _: bool(rng.rand() < p), tree)


def some(rng, tree, p=0.6):
    """mask with at least one True"""
    t = masks(rng, tree, p)
    if not any(jax.tree.leaves(t)):
        L, st = jax.tree.flatten(t)
        L[rng.randint(len(L))] = True
        t = jax.tree.unflatten(st, L)
    return t


def data(rng, shape, cont, n, cast=f64, levels=3):
    """features: random numbers, or small integers where not continuous"""
    def one(s, c):
        if c:
            return rng.randn(n, *s) * rng.uniform(0.5, 2) + rng.randn(*s)
        return rng.randint(levels, size=(n,) + s) * 1.0

    return cast(jax.tree.map(one, shape, cont, is_leaf=G.is_shape))


def settings(rng, m, shape, auto=False, weights=True):
    """keyword arguments of calibrate without the data, and the mask of
    continuous features"""
    kw = dict(skip_sanity_checks=True)
    st = jax.tree.map(lambda s: 0, shape, is_leaf=G.is_shape)
    cont = jax.tree.map(lambda _: True, st)
    if rng.rand() < 0.6:
        cont = masks(rng, st)
        kw["continuous_features"] = cont
    has = bool(jax.tree.leaves(m.get_params()))
    k = rng.randint(4)
    if k == 0:
        kw["parameter_sensitivity"] = bool(rng.randint(2))
    elif k == 1 and has:
        kw["parameter_sensitivity"] = masks(rng, m.get_params())
    for name in ("input_sensitivity", "distance_sensitivity"):
        k = rng.randint(4)
        if k == 0:
            kw[name] = bool(rng.randint(2))
        elif k == 1:
            kw[name] = masks(rng, st)
    k = rng.randint(4)
    if k == 0:
        kw["stratified_bias_corrections"] = bool(rng.randint(2))
    elif k <= 2 and not all(jax.tree.leaves(cont)):
        kw["stratified_bias_corrections"] = jax.tree.map(lambda c: bool(not c and rng.rand() < 0.7), cont)
    if rng.rand() < 0.2:
        kw["max_batch_size"] = int(rng.randint(1, 8))
    if rng.rand() < 0.2:
        kw["fwd"] = False
    return kw, cont


def datasets(rng, m, shape, cont, kw, auto=False, cast=f64, unc=True, n=None, t=None, rep=0.3):
    n = int(G.pick(rng, [2, 3, 5, 8, 9, 13, 19, 20, 29])) if n is None else n
    d = dict(X_cal=data(rng, shape, cont, n, cast))
    if not auto:
        pred = m(d["X_cal"])
        s = rng.uniform(0.2, 1)
        d["Y_cal"] = cast(jax.tree.map(lambda y: onp.asarray(y) + s * rng.standard_t(3, size=y.shape) + 0.3, pred))
    if rng.rand() < 0.75:
        t = int(G.pick(rng, [4, 7, 16])) if t is None else t
        X = data(rng, shape, cont, t, lambda v: v)
        if rng.rand() < rep:  # repeated and shared points
            i = rng.randint(t, size=t)
            X = jax.tree.map(lambda x: x[i], X)
        d["X_train"] = cast(X)
        if unc and rng.rand() < 0.4:
            d["X_cal_unc"] = uncs(rng, d["X_cal"], cast)
    if unc and not auto and rng.rand() < 0.25:
        d["Y_cal_unc"] = uncs(rng, d["Y_cal"], cast)
    return d


def uncs(rng, X, cast=f64):
    return cast(jax.tree.map(lambda x: rng.uniform(0.05, 0.6, x.shape), X))


# -- reference ---------------------------------------------------------------


def fin(a):
    a = G.n64(a)
    return onp.where(onp.isfinite(a), a, 0)


def wquant(d, w, q):
    d, w = d.reshape(len(d), -1), w.reshape(len(w), -1)
    out = []
    for j in range(d.shape[1]):
        i = onp.argsort(d[:, j], kind="stable")
        c = onp.cumsum(w[i, j])
        out.append(onp.interp(q * c[-1], c, d[i, j]))
    return onp.asarray(out)


def quant(d, w, q):
    s = d.shape[1:]
    return (onp.quantile(d, q, axis=0) if w is None else wquant(d, w, q).reshape(s))


def norm(d, w=None, eps=1e-12):
    """median absolute deviation with the announced fallbacks"""
    med = quant(d, w, 0.5)
    tries = [
        lambda: quant(onp.abs(d - med), w, 0.5),
        lambda: quant(d, w, 0.75) - quant(d, w, 0.25),
        lambda: quant(d, w, 0.95) - quant(d, w, 0.05),
        lambda: onp.ptp(d, axis=0),
    ]
    for f in tries:
        v = f()
        if onp.any((v > 0.01 * eps) & (v < 100 * eps)):
            raise Skip()
        if not onp.any(v < eps):
            return v
    return onp.full_like(v, onp.inf)


class Ref:
    """What calibrate() with these arguments is documented to give."""

    def __init__(self, m, kw, d, cont, nnq=0.5):
        self.m, self.d, self.cont = m, d, cont
        leaves = jax.tree.leaves
        flag = lambda v, like: [v] * len(leaves(like)) if isinstance(v, bool) else leaves(v)
        X = d["X_cal"]
        self.c = leaves(cont)
        self.ps = flag(kw.get("parameter_sensitivity", True), m.get_params())
        self.is_ = flag(kw.get("input_sensitivity", True), X)
        self.ds = flag(kw.get("distance_sensitivity", True), X)
        self.sbc = kw.get("stratified_bias_corrections", False)
        self.train = d.get("X_train")
        if self.train is not None:
            T = [G.n64(t) for t in leaves(self.train)]
            self.iqr = [onp.quantile(t, 0.75, axis=0) - onp.quantile(t, 0.25, axis=0) for t in T]
            self.rng_ = [onp.where(onp.ptp(t, axis=0) > 0, onp.ptp(t, axis=0), 1.0) for t in T]
            pts = self.points(self.train)
            keep = []
            for i in range(len(pts)):
                if not any(self.dist(pts[i], pts[j]) == 0 for j in keep):
                    keep.append(i)
            self.pts = [pts[i] for i in keep]
            if any(self.ds):
                if len(self.pts) < 2:
                    raise Skip()
                nn = [min(self.dist(p, q) for j, q in enumerate(self.pts) if j != i) for i, p in enumerate(self.pts)]
                self.cut = onp.quantile(nn, nnq)
        W = d.get("Y_cal_unc")
        W = None if W is None else [1 / G.n64(w) for w in leaves(W)]
        nw = lambda S: [norm(s, None if W is None else w) for s, w in zip(S, W or S)]
        self.n_p = nw(self.S_params(X)) if any(self.ps) else None
        self.n_x = self.n_d = None
        if self.train is not None:
            if any(self.is_):
                self.n_x = nw(self.S_input(X, d.get("X_cal_unc")))
            if any(self.ds):
                self.n_d = norm(self.S_dist(X)[:, None])[0]
        # bias corrections
        pred = [G.n64(p) for p in leaves(m(X))]
        want = [G.n64(y) for y in leaves(d.get("Y_cal", X))]
        res = [y - p for y, p in zip(want, pred)]
        if self.sbc is True:
            self.bias = [onp.median(r, axis=0) for r in res]
        elif self.sbc is not False and any(leaves(self.sbc)):
            rows = self.rows(X)
            self.strata = {r: [onp.median(v[[q == r for q in rows]], axis=0) for v in res] for r in set(rows)}
        b = self.biases(X)
        self.res = [onp.abs(r - v) for r, v in zip(res, b)]
        self.u_cal = self.u(X, d.get("X_cal_unc"))

    # strata
    def rows(self, X):
        xs = [G.n64(x).reshape(len(x), -1) for x, s in zip(jax.tree.leaves(X), jax.tree.leaves(self.sbc)) if s]
        return [tuple(r) for r in onp.concatenate(xs, axis=1).tolist()]

    def biases(self, X):
        out = jax.tree.leaves(self.m.output_shape, is_leaf=G.is_shape)
        n = len(jax.tree.leaves(X)[0])
        z = [onp.zeros((n,) + tuple(s)) for s in out]
        if self.sbc is True:
            return [a + b for a, b in zip(z, self.bias)]
        if self.sbc is False or not any(jax.tree.leaves(self.sbc)):
            return z
        for i, r in enumerate(self.rows(X)):
            if r in self.strata:
                for a, b in zip(z, self.strata[r]):
                    a[i] = b
        return z

    # sensitivities
    def S_params(self, X):
        g = self.m.grad_params(X)
        P = [fin(p) for p in jax.tree.leaves(self.m.get_params())]
        size = sum(p.size for p, s in zip(P, self.ps) if s)
        return self.over(g, X, [onp.abs(p) if s else 0 * p for p, s in zip(P, self.ps)], size, P)

    def over(self, g, X, scales, size, like, batched=False):
        n = len(jax.tree.leaves(X)[0])
        g = [fin(a) for a in jax.tree.leaves(g)]
        out = jax.tree.leaves(self.m.output_shape, is_leaf=G.is_shape)
        r = []
        for o, s in enumerate(out):
            t = onp.zeros((n,) + tuple(s))
            for j, sc in enumerate(scales):
                a = g[o * len(scales) + j].reshape((n,) + tuple(s) + (-1,))
                sc = onp.asarray(sc)
                sc = sc.reshape((n,) + (1,) * len(s) + (-1,)) if batched else sc.reshape(-1)
                t = t + (onp.abs(a * sc) ** 2).sum(-1)
            r.append(t / size)
        return r

    def S_input(self, X, unc=None):
        g = self.m.grad_input(X)
        inc = [c and s for c, s in zip(self.c, self.is_)]
        size = sum(i.size for i, k in zip(self.iqr, inc) if k)
        if not size:
            return [onp.zeros((len(jax.tree.leaves(X)[0]),) + tuple(s)) for s in jax.tree.leaves(self.m.output_shape, is_leaf=G.is_shape)]
        r = self.over(g, X, [i if k else 0 * i for i, k in zip(self.iqr, inc)], size, self.iqr)
        if unc is not None:
            us = [fin(u) if k else 0 * fin(u) for u, k in zip(jax.tree.leaves(unc), inc)]
            r = [a + b for a, b in zip(r, self.over(g, X, us, size, us, batched=True))]
        return r

    def points(self, X):
        L = [G.n64(x) for x in jax.tree.leaves(X)]
        return [[(x[i].ravel() / r.ravel()) if c else tuple(x[i].ravel()) for x, r, c in zip(L, self.rng_, self.c)] for i in range(len(L[0]))]

    def dist(self, p, q):
        """sum of range-scaled differences; 1 for each differing category"""
        return sum(
            ((onp.abs(a - b).sum() if c else float(a != b)) for a, b, c, s in zip(p, q, self.c, self.ds) if s), 0.0
        )

    def dist_seen(self, p, q, seen):
        """like dist(); a category that does not occur in the training data is
        encoded as zeros, half as far from every category"""
        d = 0.0
        for j, (a, b, c, s) in enumerate(zip(p, q, self.c, self.ds)):
            if s:
                d += onp.abs(a - b).sum() if c else (0.5 if a not in seen[j] else float(a != b))
        return d

    def S_dist(self, X):
        seen = [{p[j] for p in self.pts} if not c else None for j, c in enumerate(self.c)]
        size = sum((i.size if c else 1) for i, c, s in zip(self.iqr, self.c, self.ds) if s)
        out = []
        for p in self.points(X):
            ds = onp.asarray([self.dist_seen(p, q, seen) for q in self.pts])
            if onp.any(onp.abs(ds - self.cut) < 1e-9) and self.cut > 0:
                raise Skip()
            near = ds[ds <= self.cut]
            out.append(max(ds.min(), near.mean() if near.size else 0.0) / size)
        return onp.asarray(out)

    def u(self, X, unc=None):
        out = jax.tree.leaves(self.m.output_shape, is_leaf=G.is_shape)
        n = len(jax.tree.leaves(X)[0])
        t = [onp.zeros((n,) + tuple(s)) for s in out]
        if self.n_p is not None:
            t = [a + s / k for a, s, k in zip(t, self.S_params(X), self.n_p)]
        if self.n_x is not None:
            t = [a + s / k for a, s, k in zip(t, self.S_input(X, unc), self.n_x)]
        if self.n_d is not None:
            s = self.S_dist(X) / self.n_d
            t = [a + s.reshape((-1,) + (1,) * (a.ndim - 1)) for a in t]
        return t


def need(n, alpha):
    """ceil((n+1)(1-alpha)) as bounds that allow for a rounded alpha"""
    k = (n + 1) * (1 - fractions.Fraction(float(alpha)))
    e = fractions.Fraction(n + 1, 10**6)
    c = lambda v: -((-v.numerator) // v.denominator)
    return c(k - e), c(k + e)
