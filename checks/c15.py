"""C15: conformal heuristics and persistence."""
import os
import pathlib
import tempfile
import warnings

import jax
import jax.numpy as np
import numpy as onp

from parametricmatrixmodels.conformal import ConformalizedModel
from vlib import conf as C, gen as G
from vlib.core import Registry, Skip

R = Registry()
RULE = (
    "Sensitivities, heuristic, bias corrections and interval widths of calibrated"
    " models are compared with a NumPy reference written from the documentation"
    " (brute-force neighbours, explicit strata), on calibration, training and new data"
    " with unseen categories; saved and serialized objects run next to the original."
)
ASSUMPTIONS = [
    "Points whose distance to a training point equals the neighbour cutoff up to 1e-9"
    " are not decided."
]


def agree(mon, got, want, key, what):
    L = jax.tree.leaves(got)
    mon.equal(len(L), len(want), key, what)
    for i, (g, w) in enumerate(zip(L, want)):
        mon.close(g, w, key, f"{what} leaf {i}", rtol=1e-7, atol=1e-9)


def setup(rng, mon, **more):
    auto = rng.rand() < 0.15
    m, shape, kind = C.build(rng, True, auto)
    kw, cont = C.settings(rng, m, shape, auto)
    d = C.datasets(rng, m, shape, cont, kw, auto, **more)
    mon.sig(kind, shape, G.names(m.modules), sorted(kw), sorted(d))
    q = float(G.pick(rng, [0.5, 0.5, 0.25, 0.9]))
    cm = ConformalizedModel(m, nn_dist_quantile=q, name=G.pick(rng, [None, "conf A"]))
    return m, shape, kind, kw, cont, d, q, cm


def new_data(rng, shape, cont, d):
    k = rng.randint(3)
    if k == 0 and "X_train" in d:
        X = jax.tree.map(lambda x: x[:3], d["X_train"])
    elif k == 1:
        X = C.data(rng, shape, cont, 3, levels=5)  # also categories never seen
    else:
        X = C.data(rng, shape, cont, 3)
        if rng.randint(2):
            X = jax.tree.map(lambda x, c: 5 * x if c else x, X, cont)
    return X


@R.scenario(quick=16, thorough=260, x64=True)
def heuristics(rng, mon):
    """several calibrations of one object, each compared with the reference"""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m, shape, kind, kw, cont, d, q, cm = setup(rng, mon)
        auto, n = "Y_cal" not in d, len(jax.tree.leaves(d["X_cal"])[0])
        for step in range(4):
            if step:  # mostly with as many points: nothing to compile again
                kw, cont = C.settings(rng, m, shape, auto)
                d = C.datasets(rng, m, shape, cont, kw, auto, n=n if rng.rand() < 0.8 else None, t=7)
                mon.sig(sorted(kw), sorted(d))
            try:
                one(rng, mon, m, shape, kind, kw, cont, d, q, cm)
            except Skip:
                if not step:
                    raise


def one(rng, mon, m, shape, kind, kw, cont, d, q, cm):
    cm.calibrate(**d, **kw)
    ref = C.Ref(m, kw, d, cont, q)
    what = f"{kind} {sorted(kw)} {sorted(d)}"
    A = new_data(rng, shape, cont, d)
    unc = C.uncs(rng, A) if "X_train" in d and rng.randint(2) else None
    un = {} if unc is None else dict(X_unc=unc)
    # the sensitivities themselves
    if any(ref.ps):
        agree(mon, cm.parameter_sensitivity(A, normalize=False), ref.S_params(A), "parameter-sensitivity", what)
        agree(mon, cm.parameter_sensitivity(A), [s / k for s, k in zip(ref.S_params(A), ref.n_p)], "parameter-sensitivity-normalized", what)
    if ref.train is not None and any(i and c for i, c in zip(ref.is_, ref.c)):
        agree(mon, cm.input_sensitivity(A, normalize=False, **un), ref.S_input(A, unc), "input-sensitivity", what)
        agree(mon, cm.input_sensitivity(A, **un), [s / k for s, k in zip(ref.S_input(A, unc), ref.n_x)], "input-sensitivity-normalized", what)
    if ref.train is not None and any(ref.ds):
        s = onp.asarray(cm.distance_sensitivity(A, normalize=False))
        mon.close(s.reshape(-1), ref.S_dist(A), "distance-sensitivity", what, rtol=1e-7, atol=1e-9)
        mon.event("distances", s.size)
    # their sum
    u = cm.uncertainty_heuristic(A, **un)
    agree(mon, u, ref.u(A, unc), "heuristic", what)
    mon.equal(jax.tree.structure(u), jax.tree.structure(m(A)), "heuristic-structure", what)
    # predictions and widths
    y, (lo, hi) = cm(A, alpha=0.4, **un)
    agree(mon, y, [G.n64(p) + b for p, b in zip(jax.tree.leaves(m(A)), ref.biases(A))], "bias-correction", what)
    if not all((v > 1e-9).all() and onp.isfinite(v).all() for v in ref.u_cal):
        return
    n = len(jax.tree.leaves(d["X_cal"])[0])
    kmin, kmax = C.need(n, 0.4)
    if kmin != kmax or kmin > n:
        return
    for r, uc, ua, a, b in zip(ref.res, ref.u_cal, ref.u(A, unc), jax.tree.leaves(lo), jax.tree.leaves(hi)):
        s = onp.sort(r / uc, axis=0)
        low, high = s[kmin - 1], s[min(kmin, n - 1)]
        w = (onp.asarray(b) - onp.asarray(a)) / 2
        mon.check(onp.all(w >= low * ua * (1 - 1e-7) - 1e-9) and onp.all(w <= high * ua * (1 + 1e-7) + 1e-9), "width-is-quantile-times-heuristic", what, width=w, low=low * ua, high=high * ua)
        mon.event("widths", w.size)


@R.scenario(quick=12, thorough=200, x64=True)
def persistence(rng, mon):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m, shape, kind, kw, cont, d, q, cm = setup(rng, mon, rep=0.7)
        done = rng.rand() < 0.9
        A = new_data(rng, shape, cont, d)
        unc = C.uncs(rng, A) if "X_train" in d and rng.randint(2) else None
        if done:
            cm.calibrate(**d, **kw)
            if rng.randint(2):
                cm(A, alpha=[0.2, 0.45])
        how = G.pick(rng, ["dict", "file", "compressed", "path", "handle"])
        mon.sig(how, done)
        if how == "dict":
            back = ConformalizedModel.deserialize(cm.serialize())
        else:
            with tempfile.TemporaryDirectory() as tmp:
                p = os.path.join(tmp, "c" + G.pick(rng, ["", ".npz"]))
                save = cm.save_compressed if how == "compressed" else cm.save
                if how == "path":
                    save(pathlib.Path(p))
                    back = ConformalizedModel.from_file(pathlib.Path(p))
                elif how == "handle":
                    p = p if p.endswith(".npz") else p + ".npz"
                    with open(p, "wb") as f:
                        save(f)
                    with open(p, "rb") as f:
                        back = ConformalizedModel.from_file(f)
                else:
                    save(p)
                    back = ConformalizedModel.from_file(p)
        what = f"{kind} {sorted(kw)} {sorted(d)} via {how}"
        mon.equal(back.name, cm.name, "restored-name", what)
        mon.equal(back.default_alpha, cm.default_alpha, "restored-level", what)
        mon.tree_same(back.model(A), m(A), "restored-model", what)
        if not done:
            mon.raises(lambda: back(A), "restored-uncalibrated")
            back.calibrate(**d, **kw)
            cm.calibrate(**d, **kw)
        for c in range(2):
            un = {} if unc is None else dict(X_unc=unc)
            for al in ([0.2], [0.45, 0.31], [0.6]):
                a = al if len(al) > 1 else al[0]
                mon.tree_same(back(A, alpha=a, **un), cm(A, alpha=a, **un), "restored-intervals", what)
            mon.tree_same(back(A), cm(A), "restored-intervals", what)
            mon.tree_same(back.uncertainty_heuristic(A, **un), cm.uncertainty_heuristic(A, **un), "restored-heuristic", what)
            if "X_train" in d:  # between and close to the training points
                near = lambda x, c: x[:3] + (0.3 * rng.rand() * (x[1:4] - x[:3]) if c else 0)
                Z = jax.tree.map(near, d["X_train"], cont)
                mon.tree_same(back.uncertainty_heuristic(Z, **un), cm.uncertainty_heuristic(Z, **un), "restored-heuristic", what)
                mon.event("restored near training points")
            if c or rng.randint(2):
                break
            # both go on the same way
            kw, cont = C.settings(rng, m, shape)
            d = C.datasets(rng, m, shape, cont, kw, "Y_cal" not in d, n=9)
            unc = None
            cm.calibrate(**d, **kw)
            back.calibrate(**d, **kw)
            mon.sig("recalibrated")
        mon.event("restored objects")


@R.scenario(quick=5, thorough=60, x64=True)
def weights(rng, mon):
    """Only the ratio of target uncertainties matters, separately for every
    output component; equal ones and none agree on the order of widths."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m, shape, kind, kw, cont, d, q, cm = setup(rng, mon)
        if "Y_cal" not in d:
            raise Skip()
        U = C.uncs(rng, d["Y_cal"])
        d["Y_cal_unc"] = U
        cm.calibrate(**d, **kw)
        A = new_data(rng, shape, cont, d)
        u1 = cm.uncertainty_heuristic(A)
        d["Y_cal_unc"] = jax.tree.map(lambda v: v * 7.5, U)
        other = ConformalizedModel(m, nn_dist_quantile=q)
        other.calibrate(**d, **kw)
        mon.tree_close(other.uncertainty_heuristic(A), u1, "only-ratios-matter", kind, rtol=1e-7, atol=1e-9)
