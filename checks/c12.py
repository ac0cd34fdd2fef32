"""C12: affine matrices and eigen-modules."""
import jax
import jax.numpy as np
import numpy as onp

import parametricmatrixmodels as pmm
import parametricmatrixmodels.modules as M
from vlib import catalog as C
from vlib import gen as G
from vlib.core import Registry

R = Registry()
RULE = (
    "Random sizes, ranks, bias and smoothing options, parameter values and inputs;"
    " eigen-modules get Hermitian matrices with prescribed spectra (separated,"
    " degenerate, zero) in single, batched and tree form. Oracles: NumPy linear"
    " algebra and the defining equations."
)


def compiled(rng, e, jitter=True):
    m = e["module"]
    m.compile(jax.random.key(int(rng.randint(1000))), e["shape"])
    if jitter and jax.tree.leaves(m.get_params()) and rng.rand() < 0.8:
        C.params_jitter(rng, m)
    return m


def apply(m, X):
    return m(X, state=m.get_state(), rng=jax.random.key(0))[0]


def through(rng, m, shape, X):
    """directly or as part of a compiled model"""
    if rng.randint(2):
        return apply(m, X)
    s = pmm.SequentialModel([m], rng=0)
    s.compile(0, shape)
    kw = dict(max_batch_size=int(rng.randint(1, 4)) if rng.randint(2) else None)
    if any(onp.iscomplexobj(x) for x in jax.tree.leaves(X)):
        kw["dtype"] = np.complex64
    return s(X, **kw)


@R.scenario(quick=70, thorough=1000)
def affine(rng, mon):
    e = G.pick(rng, [C.affine_tensor, C.affine_herm, C.affine_herm, C.lowrank, C.lowrank])(rng)
    m = compiled(rng, e)
    n = int(rng.randint(1, 5))
    X = e["x"](rng, n)
    mon.sig(e["name"], e["shape"], n)
    y = through(rng, m, e["shape"], X)
    ref = e["ref"](G.t64(m.get_params()), G.t64(X))
    mon.tree_close(y, ref, "affine", e["name"], rtol=2e-4, atol=2e-5)
    mon.event("module:" + type(m).__name__)
    for leaf in jax.tree.leaves(y):
        a = onp.asarray(leaf)
        if e.get("herm"):
            mon.close(a, onp.conj(onp.swapaxes(a, -1, -2)), "hermitian", e["name"], rtol=1e-5)
        if e.get("rank"):
            r, k = e["rank"]
            sv = onp.linalg.svd(a.astype(complex), compute_uv=False)
            mon.check((sv[:, r * k:] <= 1e-4 * max(sv.max(), 1e-3)).all(), "rank", e["name"], sv=sv)


@R.scenario(quick=16, thorough=200)
def affine_nonhermitian_params(rng, mon):
    """Whatever the parameters (e.g. after a gradient step that left the
    Hermitian matrices), the matrix is Hermitian: the Hermitian part counts."""
    e = C.affine_herm(rng)
    m = compiled(rng, e, False)
    p = G.ca(rng, *m.get_params().shape)
    X = e["x"](rng, 3)
    f = m._get_callable()
    y, _ = f(p, X, bool(rng.randint(2)), m.get_state(), jax.random.key(0))
    ph = G.n64(p)
    ph = (ph + onp.conj(onp.swapaxes(ph, 1, 2))) / 2
    mon.sig(e["name"], e["shape"])
    mon.tree_close(y, e["ref"](ph, G.t64(X)), "hermitian-part", e["name"], rtol=2e-4)
    for leaf in jax.tree.leaves(y):
        a = onp.asarray(leaf)
        mon.close(a, onp.conj(onp.swapaxes(a, -1, -2)), "hermitian", rtol=1e-5)


@R.scenario(quick=12, thorough=150)
def initial_matrices(rng, mon):
    """Freshly initialized matrices are Hermitian, finite, of the given
    magnitude, and all different."""
    p, n = int(rng.randint(1, 4)), int(rng.randint(2, 6))
    mag = float(10 ** rng.uniform(-3, 1))
    b = bool(rng.randint(2))
    m = M.AffineHermitianMatrix(matrix_size=n, init_magnitude=mag, bias_term=b)
    m.compile(jax.random.key(int(rng.randint(1000))), (p,))
    Ms = onp.asarray(m.get_params())
    mon.sig(p, n, b, round(onp.log10(mag), 2))
    mon.equal(Ms.shape, (p + b, n, n), "init-shape")
    mon.close(Ms, onp.conj(onp.swapaxes(Ms, 1, 2)), "init-hermitian", atol=1e-6 * mag)
    mon.check(onp.iscomplexobj(Ms) and onp.abs(Ms.imag).max() > 0, "init-complex")
    mon.check(0.02 * mag < onp.abs(Ms).max() < 8 * mag, "init-magnitude", m=onp.abs(Ms).max(), mag=mag)
    flat = Ms[:, onp.triu_indices(n)[0], onp.triu_indices(n)[1]].ravel()
    mon.equal(len(set(flat.tolist())), flat.size, "init-distinct")


@R.scenario(quick=16, thorough=150)
def refuses_nonhermitian(rng, mon):
    p, n = int(rng.randint(1, 4)), int(rng.randint(2, 5))
    bad = G.herm(rng, p, n, n)
    i, j, k = int(rng.randint(p)), *[int(v) for v in rng.permutation(n)[:2]]
    bad = bad.at[i, j, k].add(G.pick(rng, [1.0, 1j, -0.5]))
    mon.sig(p, n, i, j, k)
    mon.raises(lambda: M.AffineHermitianMatrix(Ms=bad), "refuse-init")
    m = M.AffineHermitianMatrix(matrix_size=n, bias_term=False)
    m.compile(jax.random.key(0), (p,))
    old = m.get_params()
    mon.raises(lambda: m.set_params(bad), "refuse-set")
    mon.raises(lambda: m.set_params(G.herm(rng, p, n + 1, n + 1)), "refuse-shape")
    mon.tree_same(m.get_params(), old, "refuse-keeps")


def _eig(rng, mon, E_of, nmax=6, key=""):
    """one eigen-module on matrices with given spectra; returns everything"""
    ns = []

    def sf():
        ns.append(int(rng.randint(1, nmax + 1)))
        return (ns[-1], ns[-1])

    shape = G.rand_shape_tree(rng, 2, shapef=sf)
    k = None if rng.rand() < 0.2 else int(rng.randint(1, min(ns) + 1))
    which = G.pick(rng, C.WHICH)
    wh = which if rng.randint(2) else which.lower()
    nb = int(rng.randint(1, 5))
    X = jax.tree.map(
        lambda s: np.asarray(
            onp.stack([C.herm_with(rng, E_of(s[0])) for _ in range(nb)]).astype("complex64")
        ),
        shape, is_leaf=G.is_shape,
    )
    if rng.rand() < 0.3:  # real symmetric
        X = jax.tree.map(lambda x: np.asarray(onp.asarray(x).real), X)
    mon.sig(key, shape, k, which, nb)
    return shape, k, which, wh, X


def sel(A, k, which):
    E = onp.linalg.eigvalsh(onp.asarray(A, dtype=complex))
    return E[C.select(E, k, which)], E


@R.scenario(quick=60, thorough=900)
def eigenvalues(rng, mon):
    shape, k, which, wh, X = _eig(rng, mon, lambda n: C.spectrum(rng, n), key="val")
    # the spectrum of the real part may be close in magnitude: only claim what
    # is separated
    m = M.Eigenvalues(k, wh)
    m.compile(jax.random.key(0), shape)
    Y = through(rng, m, shape, X)
    mon.equal(jax.tree.structure(Y), jax.tree.structure(X), "eig-structure")
    for x, y in zip(jax.tree.leaves(X), jax.tree.leaves(Y)):
        x, y = onp.asarray(x), onp.asarray(y)
        mon.check(not onp.iscomplexobj(y), "eig-real")
        for A, e in zip(x, y):
            ref, E = sel(A, k, which)
            mon.equal(e.shape, ref.shape, "eig-count")
            _match(mon, e, ref, E, which, "eigenvalues")


def _match(mon, got, ref, E, which, key):
    """equal up to exchanging eigenvalues the selection key cannot tell apart"""
    tol = 2e-4 * (1 + onp.abs(E).max())
    kf = (lambda e: e) if which[1] == "A" else onp.abs
    # ascending order of the key
    mon.check((onp.diff(kf(got)) >= -tol).all(), key + "-order", which=which, got=got, ref=ref)
    # each a true eigenvalue, distinct ones
    d = onp.abs(got[:, None] - E[None, :])
    mon.check((d.min(1) < tol).all(), key + "-true", got=got, E=E)
    mon.close(kf(got), kf(ref), key, f"{which}", atol=tol, rtol=0)
    ks = onp.sort(kf(E))
    if len(E) < 2 or onp.diff(ks).min() > 3 * tol:
        mon.close(got, ref, key, f"{which}", atol=tol, rtol=0)


@R.scenario(quick=50, thorough=800)
def eigenpairs(rng, mon):
    """Eigensystem and Eigenvectors: true, orthonormal, matching pairs."""
    shape, k, which, wh, X = _eig(rng, mon, lambda n: C.spectrum(rng, n), key="pair")
    ms = M.Eigensystem(k, wh)
    ms.compile(jax.random.key(0), shape)
    Y = through(rng, ms, shape, X)
    mv = M.Eigenvectors(k, wh)
    mv.compile(jax.random.key(0), shape)
    V2 = through(rng, mv, shape, X)
    mon.equal(set(Y), {"eigenvalues", "eigenvectors"}, "system-keys")
    for name in Y:
        mon.equal(jax.tree.structure(Y[name]), jax.tree.structure(X), "system-structure")
    for x, e, v, v2 in zip(*map(jax.tree.leaves, (X, Y["eigenvalues"], Y["eigenvectors"], V2))):
        x, e, v, v2 = map(onp.asarray, (x, e, v, v2))
        for A, E_, V_, W_ in zip(x, e, v, v2):
            ref, E = sel(A, k, which)
            tol = 5e-4 * (1 + onp.abs(E).max())
            _match(mon, E_, ref, E, which, "system-values")
            for Z, nm in ((V_, "system"), (W_, "vectors")):
                mon.equal(Z.shape, (len(A), len(ref)), nm + "-shape")
                mon.close(Z.conj().T @ Z, onp.eye(len(ref)), nm + "-orthonormal", atol=2e-4)
                mon.close(A @ Z, Z * E_, nm + "-pairs", atol=tol)


@R.scenario(quick=24, thorough=300)
def degenerate(rng, mon):
    """Repeated and zero eigenvalues: still orthonormal and true pairs with the
    right multiset of values."""

    def E_of(n):
        base = rng.choice([-1.5, 0.0, 0.7, 2.0], size=n)
        return base if rng.rand() < 0.8 else onp.zeros(n)

    shape, k, which, wh, X = _eig(rng, mon, E_of, key="deg")
    ms = M.Eigensystem(k, wh)
    ms.compile(jax.random.key(0), shape)
    Y = apply(ms, X)
    mv = M.Eigenvalues(k, wh)
    mv.compile(jax.random.key(0), shape)
    Ev = apply(mv, X)
    for x, e, v, e2 in zip(*map(jax.tree.leaves, (X, Y["eigenvalues"], Y["eigenvectors"], Ev))):
        x, e, v, e2 = map(onp.asarray, (x, e, v, e2))
        for A, E_, V_, E2 in zip(x, e, v, e2):
            ref, E = sel(A, k, which)
            kf = (lambda z: z) if which[1] == "A" else onp.abs
            mon.close(kf(E_), kf(ref), "degenerate-values", which, atol=1e-3)
            mon.close(kf(E2), kf(ref), "degenerate-values", which, atol=1e-3)
            mon.close(V_.conj().T @ V_, onp.eye(len(ref)), "degenerate-orthonormal", atol=1e-3)
            mon.close(A @ V_, V_ * E_, "degenerate-pairs", atol=2e-3)


@R.scenario(quick=24, thorough=200)
def refuses(rng, mon):
    """Inputs that are not square matrices, or fewer than requested, and
    unknown selections are refused."""
    n = int(rng.randint(1, 5))
    cls = G.pick(rng, [M.Eigenvalues, M.Eigenvectors, M.Eigensystem])
    k = rng.randint(5)
    mon.sig(cls.__name__, n, k)
    if k == 0:
        mon.raises(lambda: cls(n + 1).compile(jax.random.key(0), (n, n)), "refuse-too-many")
    elif k == 1:
        mon.raises(lambda: cls(1).compile(jax.random.key(0), (n, n + 1)), "refuse-not-square")
    elif k == 2:
        mon.raises(lambda: cls(1).compile(jax.random.key(0), [(n, n), (n,)]), "refuse-vector")
    elif k == 3:
        mon.raises(lambda: cls(1, G.pick(rng, ["XA", "S", "AS", "SS", "", "MA"])), "refuse-which")
    else:
        mon.raises(lambda: cls(int(G.pick(rng, [0, -1]))), "refuse-count")


@R.scenario(quick=12, thorough=150)
def scale_range(rng, mon):
    """Matrices of very different magnitudes."""
    s = float(10 ** rng.uniform(-3, 4))
    n = int(rng.randint(2, 6))
    k, which = int(rng.randint(1, n + 1)), G.pick(rng, C.WHICH)
    A = onp.stack([C.herm_with(rng, s * C.spectrum(rng, n)) for _ in range(3)]).astype("complex64")
    mon.sig(round(onp.log10(s), 1), n, k, which)
    m = M.Eigenvalues(k, which)
    m.compile(jax.random.key(0), (n, n))
    y = onp.asarray(apply(m, np.asarray(A)))
    ref = onp.stack([sel(a, k, which)[0] for a in A])
    mon.close(y, ref, "scaled", which, rtol=5e-4, atol=0)


@R.scenario(quick=10, thorough=100, x64=True)
def double(rng, mon):
    """Double precision input keeps double precision through the chain."""
    p, n = int(rng.randint(1, 4)), int(rng.randint(2, 6))
    k, which = int(rng.randint(1, n + 1)), G.pick(rng, C.WHICH)
    s = G.pick(rng, [0.0, 0.6])
    a = M.AffineHermitianMatrix(matrix_size=n, smoothing=s, init_magnitude=1.0)
    m = pmm.SequentialModel([a, M.Eigenvalues(k, which)], rng=0)
    m.compile(int(rng.randint(1000)), (p,))
    m.set_precision(64)
    X = np.asarray(rng.randn(4, p))
    mon.sig(p, n, k, which, s)
    H = C._affine(G.n64(a.get_params()), onp.asarray(X), True, s)
    E = onp.linalg.eigvalsh(H)
    ref = onp.stack([e[C.select(e, k, which)] for e in E])
    y = m(X)
    mon.equal(str(y.dtype), "float64", "dtype64")
    mon.close(y, ref, "double", rtol=1e-11, atol=1e-11)
