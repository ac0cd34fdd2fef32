"""C13: observables and ready-made PMMs."""
import jax
import jax.numpy as np
import numpy as onp

import parametricmatrixmodels as pmm
import parametricmatrixmodels.modules as M
from vlib import catalog as C
from vlib import gen as G
from vlib.core import Registry

R = Registry()
RULE = (
    "Random sizes, numbers of states, observables and outputs, parameter values,"
    " phases and inputs. Oracles: loops of NumPy matrix products and eigh in double"
    " precision; invariance under phases and rotations of the selected states."
)
OBS = {"ev": M.ExpectationValueSum, "ta": M.TransitionAmplitudeSum}


def apply(m, X):
    return m(X, state=m.get_state(), rng=jax.random.key(0))[0]


@R.scenario(quick=40, thorough=700)
def observables(rng, mon):
    e = C.observable(rng)
    m = e["module"]
    m.compile(jax.random.key(int(rng.randint(1000))), e["shape"])
    if rng.rand() < 0.6:
        C.params_jitter(rng, m)
    n = int(rng.randint(1, 5))
    X = e["x"](rng, n)
    mon.sig(e["name"], e["shape"], n)
    mon.event("module:" + type(m).__name__)
    y = apply(m, X)
    for leaf in jax.tree.leaves(y):
        mon.check(not onp.iscomplexobj(leaf), "real", e["name"])
    ref = e["ref"](G.n64(m.get_params()), G.t64(X))
    mon.tree_close(y, ref, "observable", e["name"], rtol=2e-4)
    # real states
    if rng.rand() < 0.4:
        Xr = jax.tree.map(lambda v: np.asarray(onp.asarray(v).real), X)
        mon.tree_close(apply(m, Xr), e["ref"](G.n64(m.get_params()), G.t64(Xr)), "observable-real-states", e["name"], rtol=2e-4)


@R.scenario(quick=24, thorough=300)
def phase_invariance(rng, mon):
    """Phases of the states never matter; for transition amplitudes no unitary
    rotation among the states does, for expectation values neither."""
    kind = G.pick(rng, ["ev", "ta"])
    e = C.observable(rng, kind)
    m = e["module"]
    m.compile(jax.random.key(int(rng.randint(1000))), e["shape"])
    C.params_jitter(rng, m)
    X = e["x"](rng, 3)
    y0 = apply(m, X)
    mon.sig(e["name"], e["shape"])

    def ph(v):
        v = onp.asarray(v)
        return np.asarray((v * onp.exp(1j * rng.uniform(0, 6.28, (v.shape[0], 1, v.shape[2])))).astype("complex64"))

    def rot(v):
        v = onp.asarray(v)
        q = [onp.linalg.qr(rng.randn(v.shape[2], v.shape[2]) + 1j * rng.randn(v.shape[2], v.shape[2]))[0] for _ in v]
        return np.asarray(onp.einsum("sai,sij->saj", v, onp.stack(q)).astype("complex64"))

    mon.tree_close(apply(m, jax.tree.map(ph, X)), y0, "phase", e["name"], rtol=3e-4)
    mon.tree_close(apply(m, jax.tree.map(rot, X)), y0, "rotation", e["name"], rtol=3e-4)


@R.scenario(quick=16, thorough=200)
def nonhermitian_params(rng, mon):
    """Only the Hermitian part of the observables counts."""
    e = C.observable(rng)
    m = e["module"]
    m.compile(jax.random.key(0), e["shape"])
    p = G.ca(rng, *m.get_params().shape)
    X = e["x"](rng, 2)
    y, _ = m._get_callable()(p, X, bool(rng.randint(2)), m.get_state(), jax.random.key(0))
    ph = G.n64(p)
    ph = (ph + onp.conj(onp.swapaxes(ph, -1, -2))) / 2
    mon.sig(e["name"], e["shape"])
    mon.tree_close(y, e["ref"](ph, G.t64(X)), "hermitian-part", e["name"], rtol=3e-4)


@R.scenario(quick=16, thorough=120)
def initial_and_refusals(rng, mon):
    kind = G.pick(rng, ["ev", "ta"])
    cls = OBS[kind]
    n, q, l = int(rng.randint(2, 5)), int(rng.randint(1, 4)), int(rng.randint(1, 4))
    mag = float(10 ** rng.uniform(-3, 1))
    m = cls(num_observables=l, output_size=q, init_magnitude=mag)
    m.compile(jax.random.key(int(rng.randint(100))), (n, 1))
    D = onp.asarray(m.get_params())
    mon.sig(kind, n, q, l, round(onp.log10(mag), 1))
    mon.equal(D.shape, (q, l, n, n), "init-shape")
    mon.close(D, onp.conj(onp.swapaxes(D, -1, -2)), "init-hermitian", atol=1e-6 * mag)
    mon.check(0.02 * mag < onp.abs(D).max() < 8 * mag, "init-magnitude", m=onp.abs(D).max(), mag=mag)
    flat = D[..., onp.triu_indices(n)[0], onp.triu_indices(n)[1]].ravel()
    mon.equal(len(set(flat.tolist())), flat.size, "init-distinct")
    bad = G.herm(rng, q, l, n, n).at[int(rng.randint(q)), int(rng.randint(l)), 0, 1].add(1.0)
    mon.raises(lambda: cls(Ds=bad), "refuse-nonhermitian")
    mon.raises(lambda: m.set_params(bad), "refuse-nonhermitian-set")
    mon.raises(lambda: cls(Ds=G.herm(rng, q, l, n, n), output_size=q + 1), "refuse-size")
    mon.raises(lambda: cls(Ds=G.herm(rng, q, l, n, n), num_observables=l + 1), "refuse-count")
    mon.raises(lambda: cls(Ds=G.herm(rng, q, l, n, n)).compile(jax.random.key(0), (n + 1, 1)), "refuse-states")


# ----------------------------------------------------------- ready-made PMMs
def gap_ok(E, idx, which):
    """the selection does not depend on rounding"""
    key = E if which[1].lower() == "a" else onp.abs(E)
    rest = onp.setdiff1d(onp.arange(len(E)), idx)
    if not len(rest):
        return True
    d = onp.abs(key[idx][:, None] - key[rest][None, :]).min()
    return d > 0.02 * (1e-3 + onp.abs(E).max())


def wrapped(rng, m, p):
    """directly, wrapped in a single-leaf tree, or inside a larger model"""
    k = rng.randint(4)
    shape = (p,)
    wrap = lambda x: x
    if k == 1:
        shape, wrap = {"in": (p,)}, lambda x: {"in": x}
    outer = pmm.SequentialModel([m], rng=0) if k == 2 else m
    outer.compile(int(rng.randint(10000)), shape)
    return outer, wrap, (lambda y: y["in"] if k == 1 else y)


@R.scenario(quick=40, thorough=700)
def affine_eigenvalue(rng, mon):
    p, n = int(rng.randint(1, 4)), int(rng.randint(1, 6))
    k = int(rng.randint(1, n + 1))
    which = G.pick(rng, C.WHICH)
    b = bool(rng.randint(2))
    s = G.pick(rng, [None, 0.0, 0.4, -0.7])
    kw = dict(matrix_size=n, num_eig=k, which=which if rng.randint(2) else which.lower(), smoothing=s, bias_term=b, init_magnitude=0.8)
    given = rng.randint(2)
    Ms = G.herm(rng, p + b, n, n)
    if given:
        kw["Ms"] = Ms
    if rng.rand() < 0.15:  # documented defaults: one smallest eigenvalue
        for d in ("num_eig", "which", "smoothing", "bias_term"):
            kw.pop(d)
        k, which, s, b = 1, "SA", None, True
        if given:
            kw["Ms"] = Ms = G.herm(rng, p + 1, n, n)
    m = M.AffineEigenvaluePMM(**kw)
    outer, wrap, un = wrapped(rng, m, p)
    mon.sig(p, n, k, which, b, s, given)
    P_ = onp.asarray(m.get_params()[0])
    if given:
        mon.close(P_, Ms, "given-matrices", atol=0, rtol=0)
    x = G.fa(rng, int(rng.randint(1, 5)), p)
    y = un(outer(wrap(x)))
    H = C._affine(G.n64(P_), G.n64(x), b, s or 0.0)
    for yy, h in zip(onp.asarray(y), H):
        E = onp.linalg.eigvalsh(h)
        idx = C.select(E, k, which)
        kf = (lambda z: z) if which[1] == "A" else onp.abs
        mon.close(kf(yy), kf(E[idx]), "aepmm", which, rtol=0, atol=3e-4 * (1 + onp.abs(E).max()))
        if gap_ok(E, idx, which) and (which[1] == "A"):
            mon.close(yy, E[idx], "aepmm", which, rtol=0, atol=3e-4 * (1 + onp.abs(E).max()))


@R.scenario(quick=40, thorough=700)
def affine_observable(rng, mon):
    p, n = int(rng.randint(1, 4)), int(rng.randint(1, 5))
    r, q, l = int(rng.randint(1, n + 1)), int(rng.randint(1, 4)), int(rng.randint(1, 4))
    s = G.pick(rng, [None, 0.0, 0.4, -0.7])
    which = G.pick(rng, C.WHICH + [None] * 4)
    b, c, bt, ev = (bool(v) for v in rng.randint(0, 2, 4))
    kw = dict(
        matrix_size=n, num_eig=r, which=which, smoothing=s, affine_bias_matrix=b, num_secondaries=l,
        output_size=q, centered=c, bias_term=bt, use_expectation_values=ev, init_magnitude=0.8,
    )
    given = {}
    if rng.randint(2):
        given["Ms"] = G.herm(rng, p + b, n, n)
    if rng.randint(2):
        given["Ds"] = G.herm(rng, q, l, n, n)
    if bt and rng.randint(2):
        given["b"] = G.fa(rng, q)
    m = M.AffineObservablePMM(**kw, **given)
    outer, wrap, un = wrapped(rng, m, p)
    eff = which or ("SA" if s else "LM")
    mon.sig(p, n, r, q, l, s, which, b, c, bt, ev, sorted(given))
    pr = m.get_params()
    Ms, Ds = onp.asarray(pr[0]), onp.asarray(pr[2])
    bias = onp.asarray(jax.tree.leaves(pr[3])[0]) if bt else onp.zeros(q)
    for name, v in (("Ms", Ms), ("Ds", Ds), ("b", bias)):
        if name in given:
            mon.close(v, given[name], "given-" + name, atol=0, rtol=0)
    if bt and "b" not in given and rng.randint(2):
        G.jitter_params(rng, m.modules[3])
        bias = onp.asarray(jax.tree.leaves(m.get_params()[3])[0])
    x = G.fa(rng, int(rng.randint(1, 5)), p)
    y = onp.asarray(un(outer(wrap(x))))
    H = C._affine(G.n64(Ms), G.n64(x), b, s or 0.0)
    for i, h in enumerate(H):
        E, V = onp.linalg.eigh(h)
        idx = C.select(E, r, eff)
        if not gap_ok(E, idx, eff):
            mon.event("near-degenerate selection skipped")
            continue
        z = C.obs_ref("ev" if ev else "ta", G.n64(Ds), V[:, idx][None], c)[0] + bias
        sc = onp.abs(onp.asarray(Ds)).max() ** 2 * n * l * 4
        mon.close(y[i], z, "aopmm", str(kw), rtol=0, atol=1e-3 * (1 + sc) + 1e-3 * onp.abs(z).max())


@R.scenario(quick=24, thorough=300)
def linear_layer(rng, mon):
    e = C.linear(rng)
    m = e["module"]
    m.compile(int(rng.randint(1000)), e["shape"])
    C.params_jitter(rng, m)
    n = int(rng.randint(1, 5))
    X = e["x"](rng, n)
    mon.sig(e["name"], e["shape"], n)
    mon.tree_close(m(X), e["ref"](G.t64(m.get_params()), G.t64(X)), "linear", e["name"], rtol=2e-4)


@R.scenario(quick=16, thorough=200)
def follows_parameters(rng, mon):
    """The models follow later parameter changes, made on the model or on one
    of its modules."""
    p, n, q = int(rng.randint(1, 4)), int(rng.randint(2, 5)), int(rng.randint(1, 3))
    m = M.AffineObservablePMM(matrix_size=n, num_eig=1, which="SA", output_size=q, centered=bool(rng.randint(2)), init_magnitude=1.0)
    m.compile(int(rng.randint(1000)), (p,))
    x = G.fa(rng, 3, p)
    mon.sig(p, n, q)
    for _ in range(3):
        if rng.randint(2):
            G.jitter_params(rng, m)
        else:
            G.jitter_params(rng, m.modules[G.pick(rng, [0, 2, 3])])
        pr = m.get_params()
        H = C._affine(G.n64(pr[0]), G.n64(x), True)
        y = onp.asarray(m(x))
        for i, h in enumerate(H):
            E, V = onp.linalg.eigh(h)
            if not gap_ok(E, [0], "SA"):
                continue
            z = C.obs_ref("ta", G.n64(pr[2]), V[:, :1][None], m.centered)[0] + onp.asarray(pr[3])
            mon.close(y[i], z, "follows", rtol=2e-3, atol=2e-3 * (1 + onp.abs(onp.asarray(pr[2])).max() ** 2))


@R.scenario(quick=8, thorough=60, x64=True)
def double(rng, mon):
    p, n, q = int(rng.randint(1, 4)), int(rng.randint(2, 5)), int(rng.randint(1, 3))
    ev, c = bool(rng.randint(2)), bool(rng.randint(2))
    m = M.AffineObservablePMM(matrix_size=n, num_eig=1, which="SA", output_size=q, centered=c, use_expectation_values=ev, init_magnitude=1.0)
    m.compile(int(rng.randint(1000)), (p,))
    m.set_precision(64)
    x = np.asarray(rng.randn(3, p))
    pr = m.get_params()
    mon.sig(p, n, q, ev, c)
    H = C._affine(G.n64(pr[0]), onp.asarray(x), True)
    y = onp.asarray(m(x))
    for i, h in enumerate(H):
        E, V = onp.linalg.eigh(h)
        if not gap_ok(E, [0], "SA"):
            continue
        z = C.obs_ref("ev" if ev else "ta", G.n64(pr[2]), V[:, :1][None], c)[0] + onp.asarray(pr[3])
        mon.close(y[i], z, "double", rtol=1e-9, atol=1e-9)
