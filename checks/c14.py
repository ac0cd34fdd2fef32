"""C14: coverage, nesting and history of conformal intervals."""
import warnings

import jax
import jax.numpy as np
import numpy as onp

from parametricmatrixmodels.conformal import ConformalizedModel
from vlib import conf as C, gen as G, snap as S
from vlib.core import Registry, Skip

R = Registry()
RULE = (
    "Conformalized models (random models, data, sensitivities, strata) are calibrated"
    " and evaluated in random order and at random levels; on every evaluation the"
    " calibration points inside each interval are counted and compared with"
    " ceil((n+1)(1-alpha)), and intervals with those of a fresh object that saw only"
    " the latest calibration."
)
ASSUMPTIONS = [
    "The heuristic uncertainty of every calibration point is positive and finite (a"
    " zero heuristic makes the scores undefined)."
]


def level(rng, n):
    k = rng.randint(5)
    if k == 0:
        return float(rng.uniform(0.01, 0.99))
    if k == 1:  # exactly at, or next to, the attainable levels
        return float(onp.clip((rng.randint(1, n + 1)) / (n + 1) + G.pick(rng, [0, 0.002, -0.002]), 0.001, 0.999))
    if k == 2:
        return float(G.pick(rng, [0.05, 0.1, 0.2, 0.25, 0.5]))
    if k == 3:
        return float(rng.uniform(0.3, 0.7) / (n + 1))
    return float(1 - rng.uniform(0.2, 0.8) / (n + 1))


def forms(rng, al):
    """levels as list, tuple or array"""
    k = rng.randint(3)
    return list(al) if k == 0 else tuple(al) if k == 1 else np.asarray(al)


def ask(rng, mon, cm, X, al, kw):
    """prediction and one interval per level"""
    if len(al) == 1:
        f = G.pick(rng, ["scalar", "list", "array"])
        a = al[0] if f == "scalar" else [al[0]] if f == "list" else np.asarray(al)
        y, i = cm(X, alpha=a, **kw)
        i = [i] if isinstance(i, tuple) else i
    else:
        y, i = (cm if rng.randint(2) else cm.predict)(X, alpha=forms(rng, al), **kw)
    mon.equal(len(i), len(al), "one-interval-per-level")
    return y, i


def geometry(mon, y, ints, al, what):
    """bounds around the prediction, wider for smaller alpha"""
    L = jax.tree.leaves
    for (lo, hi) in ints:
        for t in (lo, hi):
            mon.equal(jax.tree.structure(t), jax.tree.structure(y), "interval-structure", what)
        for p, a, b in zip(L(y), L(lo), L(hi)):
            mon.check(a.shape == p.shape and b.shape == p.shape, "interval-shape", what)
            mon.check(not onp.isnan(onp.asarray(a)).any() and not onp.isnan(onp.asarray(b)).any(), "no-nan", what)
            mon.check(onp.all(onp.asarray(a) <= onp.asarray(p)) and onp.all(onp.asarray(p) <= onp.asarray(b)), "contains-prediction", what, lo=a, pred=p, hi=b)
    order = onp.argsort(al, kind="stable")
    for i, j in zip(order[:-1], order[1:]):  # al[i] <= al[j]
        for a, b, c, d in zip(L(ints[i][0]), L(ints[i][1]), L(ints[j][0]), L(ints[j][1])):
            a, b, c, d = (onp.asarray(v) for v in (a, b, c, d))
            mon.check(onp.all(a <= c) and onp.all(d <= b), "nested", what, outer=(a, b), inner=(c, d), alphas=(al[i], al[j]))


def coverage(mon, Y, y, ints, al, what, tol):
    """Y: calibration targets; intervals at the calibration inputs"""
    L = jax.tree.leaves
    for a, (lo, hi) in zip(al, ints):
        for t, p, l, h in zip(L(Y), L(y), L(lo), L(hi)):
            t, p, l, h = (G.n64(v) for v in (t, p, l, h))
            n = len(t)
            kmin, kmax = C.need(n, a)
            inf = onp.isinf(l) | onp.isinf(h)
            if kmin > n:
                mon.check(inf.all(), "infinite-when-unreachable", f"{what} n={n} alpha={a}", lo=l)
                mon.event("infinite intervals")
                continue
            if kmax <= n:
                mon.check(not inf.any(), "finite-when-reachable", f"{what} n={n} alpha={a}", lo=l)
            if inf.any():
                continue
            e = tol * (1 + onp.abs(t) + onp.abs(p) + onp.abs(h - l))
            inside = ((t >= l - e) & (t <= h + e)).sum(axis=0)
            mon.check(inside.min() >= kmin, "covers", f"{what} n={n} alpha={a}", inside=inside, needed=kmin)
            strict = ((t > l + e) & (t < h - e)).sum(axis=0)
            mon.check(strict.max() <= kmax, "no-wider-than-needed", f"{what} n={n} alpha={a}", inside=strict, allowed=kmax)
            mon.event("interval counts", inside.size)


def near(mon, a, b, key, what, tol):
    mon.tree_close(a, b, key, what, rtol=tol, atol=tol)


def usable(cm, d):
    u = cm.uncertainty_heuristic(d["X_cal"], X_unc=d.get("X_cal_unc"))
    for v in jax.tree.leaves(u):
        v = onp.asarray(v)
        if not (onp.isfinite(v).all() and (v > 1e-10).all()):
            raise Skip()


def session(rng, mon, x64):
    auto = rng.rand() < 0.15
    cast = C.f64 if x64 else (lambda t: jax.tree.map(lambda v: np.asarray(onp.asarray(v), np.float32), t))
    tol = 1e-9 if x64 else 2e-4
    m, shape, kind = C.build(rng, x64, auto)
    mon.sig(kind, shape, G.names(m.modules))
    a0 = float(rng.uniform(0.05, 0.6))
    cm = ConformalizedModel(m, alpha=a0)
    before = S.snap(m)
    X0 = None
    latest = None
    seen = []
    steps = int(rng.randint(2, 4))
    for step in range(steps):
        if latest is None or rng.rand() < 0.45:
            kw, cont = C.settings(rng, m, shape, auto)
            same = latest is not None and rng.randint(2)
            d = C.datasets(rng, m, shape, cont, kw, auto, cast, n=latest[2] if same else None)
            if latest is None:
                mon.raises(lambda: cm(d["X_cal"], alpha=0.3), "uncalibrated")
            n = len(jax.tree.leaves(d["X_cal"])[0])
            mon.sig("calibrate", n, sorted(kw), sorted(d))
            cm.calibrate(**d, **kw)
            usable(cm, d)
            latest = (kw, d, n)
            mon.event("calibrations")
        kw, d, n = latest
        what = f"{kind}: {sorted(kw)} {sorted(d)}"
        al = [level(rng, n) for _ in range(rng.randint(1, 4))]
        if seen and rng.randint(2):  # levels used before, also before this calibration
            al[-1] = G.pick(rng, seen)
        seen += al
        mon.sig(al)
        if rng.rand() < 0.3:
            cm.get_qhat(forms(rng, al))
        opt = {} if not rng.rand() < 0.2 else dict(max_batch_size=int(rng.randint(1, 9)))
        un = {} if d.get("X_cal_unc") is None else dict(X_unc=d["X_cal_unc"])
        y, ints = ask(rng, mon, cm, d["X_cal"], al, {**opt, **un})
        geometry(mon, y, ints, al, what)
        coverage(mon, d.get("Y_cal", d["X_cal"]), y, ints, al, what, tol)
        if not kw.get("stratified_bias_corrections"):
            mon.tree_close(y, m(d["X_cal"]), "prediction-is-the-model's", what, rtol=1e-5, atol=1e-6)
        # elsewhere: the same as an object that saw only this calibration
        A = C.data(rng, shape, jax.tree.map(lambda _: True, d["X_cal"]), 3, cast)
        if rng.randint(2):  # mostly known categories
            A = jax.tree.map(lambda x: x[rng.randint(n, size=3)], d["X_cal"])
        ya, ia = ask(rng, mon, cm, A, al, {})
        geometry(mon, ya, ia, al, what)
        if step < steps - 1:
            continue
        fresh = ConformalizedModel(m, alpha=a0)
        fresh.calibrate(**d, **kw)
        for a, got in zip(al, ia):
            yf, want = fresh(A, alpha=a)
            near(mon, got, want, "follows-latest-calibration", what, tol)
        near(mon, ya, yf, "follows-latest-calibration", what, tol)
        if rng.rand() < 0.3:
            yd, idef = cm(A)
            near(mon, idef, cm(A, alpha=a0)[1], "default-level", what, tol)
            near(mon, cm.get_qhat(), cm.get_qhat(a0), "default-level", what, tol)
            ys, is_, st = cm(A, alpha=forms(rng, al), return_state=True)
            near(mon, (ys, is_ if len(al) > 1 else [is_]), (ya, ia), "with-state", what, tol)
            mon.tree_same(st, m(A, return_state=True)[1], "state", what)
        mon.event("evaluations")
    S.same(mon, S.snap(m), before, "model-unchanged", "conformal calls")
    bad = G.pick(rng, [0.0, 1.0, -0.1, 1.5, [0.2, 1.0]])
    mon.raises(lambda: cm(A, alpha=bad), "bad-level", exc=ValueError)
    mon.raises(lambda: cm.get_qhat(bad), "bad-level", exc=ValueError)


@R.scenario(quick=22, thorough=300, x64=True)
def sessions(rng, mon):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        session(rng, mon, True)


@R.scenario(quick=10, thorough=120)
def single_precision(rng, mon):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        session(rng, mon, False)


@R.scenario(quick=2, thorough=20, x64=True)
def large(rng, mon):
    """more calibration points, many levels at once"""
    m, shape, kind = C.build(rng)
    kw, cont = C.settings(rng, m, shape)
    d = C.datasets(rng, m, shape, cont, kw, n=int(rng.randint(60, 200)))
    n = len(jax.tree.leaves(d["X_cal"])[0])
    mon.sig(kind, n, sorted(kw), sorted(d))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        cm = ConformalizedModel(m)
        cm.calibrate(**d, **kw)
        usable(cm, d)
        al = sorted({level(rng, n) for _ in range(25)})
        al = [al[i] for i in rng.permutation(len(al))]
        un = {} if d.get("X_cal_unc") is None else dict(X_unc=d["X_cal_unc"])
        y, ints = cm(d["X_cal"], alpha=al, **un)
        geometry(mon, y, ints, al, kind)
        coverage(mon, d["Y_cal"], y, ints, al, kind, 1e-9)


@R.scenario(quick=14, thorough=200, x64=True)
def close_levels(rng, mon):
    """one calibration asked for levels that differ very little, on both sides of
    the attainable ones, one after the other and together, again and again"""
    m, shape, kind = C.build(rng)
    n = int(G.pick(rng, [5, 9, 19, 40, 120]))
    x = C.data(rng, shape, jax.tree.map(lambda _: True, shape, is_leaf=lambda v: isinstance(v, tuple)), n)
    y = m(x)
    Y = jax.tree.map(lambda v: v + np.asarray(rng.randn(*v.shape)), y)
    # distinct widths per point
    U = jax.tree.map(lambda v: np.asarray(rng.uniform(0.2, 2, v.shape)), x)
    kw = {}
    if rng.rand() < 0.5:
        kw = dict(input_sensitivity=True)
    else:
        kw = dict(distance_sensitivity=True)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        cm = ConformalizedModel(m)
        un = dict(X_unc=U) if "input_sensitivity" in kw else {}
        cm.calibrate(x, Y, **({"X_cal_unc": U} if un else {"X_train": x}), **kw)
        usable(cm, {"X_cal": x, **({"X_cal_unc": U} if un else {})})
        mon.sig(kind, n, sorted(kw))
        memory = {}
        for _ in range(int(rng.randint(3, 6))):
            k = int(rng.randint(1, n + 1))
            eps = 10.0 ** -rng.randint(2, 5) / (n + 1)
            al = [k / (n + 1) + s * eps for s in (-1, 1, -2, 2)]
            if memory and rng.randint(2):
                al.append(G.pick(rng, sorted(memory)))
            al = [float(onp.clip(al[i], 1e-6, 1 - 1e-6)) for i in rng.permutation(len(al))]
            mon.sig(al)
            if rng.randint(2):
                yy, ints = cm(x, alpha=forms(rng, al), **un)
            else:
                ints = []
                for a in al:
                    yy, i = cm(x, alpha=a, **un)
                    ints.append(i)
            geometry(mon, yy, ints, al, kind)
            coverage(mon, Y, yy, ints, al, kind, 1e-9)
            for a, i in zip(al, ints):
                if a in memory:
                    mon.tree_close(i, memory[a], "same-level-again", kind, rtol=1e-12, atol=1e-12)
                memory[a] = i
        mon.event("close levels", len(memory))
