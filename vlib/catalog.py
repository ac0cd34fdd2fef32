"""Catalogue of the package's modules: for each, a generator of hyperparameters
and input shapes, and an independent NumPy reference in double precision.

An entry is dict(name, module, shape, ref, cplx, x) with
  ref(params, X)  -> expected output (params, X: float64/complex128 trees)
  x(rng, n)       -> input tree with n samples
"""
import math

import jax
import jax.numpy as np
import numpy as onp
from parametricmatrixmodels.typing import Data, HyperParams

import parametricmatrixmodels.modules as M

from . import gen as G


def tmap(f, *t):
    return jax.tree.map(f, *t)


# --------------------------------------------------------------- activations
def _sig(x):
    return 1 / (1 + onp.exp(-x))


def _erf(x):
    return onp.vectorize(math.erf)(x)


def _softmax(x):
    e = onp.exp(x - x.max(-1, keepdims=True))
    return e / e.sum(-1, keepdims=True)


def _lse(x):
    m = x.max(-1, keepdims=True)
    return (m + onp.log(onp.exp(x - m).sum(-1, keepdims=True)))[..., 0]


def _standardize(x):
    return (x - x.mean(-1, keepdims=True)) / onp.sqrt(x.var(-1, keepdims=True) + 1e-5)


SELU_A, SELU_S = 1.6732632423543772, 1.0507009873554805
P, U, A, Z = "pos", "unit", "any", "complex"  # input domains
ACT = {
    # name: (domain, reference, [(args, kwargs, reference)...])
    "ReLU": (A, lambda x: onp.maximum(x, 0)),
    "ReLU6": (A, lambda x: onp.minimum(onp.maximum(x, 0), 6)),
    "Sigmoid": (A, _sig),
    "Softplus": (A, lambda x: onp.log1p(onp.exp(x))),
    "SparsePlus": (A, lambda x: onp.where(x <= -1, 0, onp.where(x >= 1, x, 0.25 * (x + 1) ** 2))),
    "SparseSigmoid": (A, lambda x: 0.5 * onp.clip(x + 1, 0, 2)),
    "SoftSign": (A, lambda x: x / (1 + onp.abs(x))),
    "SiLU": (A, lambda x: x * _sig(x)),
    "Swish": (A, lambda x: x * _sig(x)),
    "LogSigmoid": (A, lambda x: -onp.log1p(onp.exp(-x))),
    "LeakyReLU": (A, lambda x: onp.where(x >= 0, x, 0.01 * x)),
    "HardSigmoid": (A, lambda x: onp.clip(x + 3, 0, 6) / 6),
    "HardSiLU": (A, lambda x: x * onp.clip(x + 3, 0, 6) / 6),
    "HardSwish": (A, lambda x: x * onp.clip(x + 3, 0, 6) / 6),
    "HardTanh": (A, lambda x: onp.clip(x, -1, 1)),
    "ELU": (A, lambda x: onp.where(x > 0, x, onp.expm1(x))),
    "CELU": (A, lambda x: onp.maximum(x, 0) + onp.minimum(0, onp.expm1(x))),
    "SELU": (A, lambda x: SELU_S * onp.where(x > 0, x, SELU_A * onp.expm1(x))),
    "GELU": (A, lambda x: 0.5 * x * (1 + onp.tanh(math.sqrt(2 / math.pi) * (x + 0.044715 * x**3)))),
    "SquarePlus": (A, lambda x: 0.5 * (x + onp.sqrt(x**2 + 4))),
    "Mish": (A, lambda x: x * onp.tanh(onp.log1p(onp.exp(x)))),
    "Identity": (A, lambda x: x),
    "Softmax": (A, _softmax),
    "LogSoftmax": (A, lambda x: x - _lse(x)[..., None]),
    "Standardize": (A, _standardize),
    "Abs": (A, onp.abs), "Absolute": (A, onp.abs), "FAbs": (A, onp.abs),
    "ACos": (U, onp.arccos), "ArcCos": (U, onp.arccos),
    "ACosh": (P, lambda x: onp.arccosh(x)), "ArcCosh": (P, lambda x: onp.arccosh(x)),
    "ASin": (U, onp.arcsin), "ArcSin": (U, onp.arcsin),
    "ASinh": (A, onp.arcsinh), "ArcSinh": (A, onp.arcsinh),
    "ATan": (A, onp.arctan), "ArcTan": (A, onp.arctan),
    "ATanh": (U, onp.arctanh), "ArcTanh": (U, onp.arctanh),
    "Cbrt": (A, onp.cbrt), "Ceil": (A, onp.ceil), "Floor": (A, onp.floor),
    "Trunc": (A, onp.trunc), "RInt": (A, onp.rint), "Round": (A, onp.round),
    "Conj": (A, onp.conj), "Conjugate": (A, onp.conj), "Real": (A, onp.real),
    "Cos": (A, onp.cos), "Sin": (A, onp.sin), "Tan": (U, onp.tan),
    "Cosh": (A, onp.cosh), "Sinh": (A, onp.sinh), "Tanh": (A, onp.tanh),
    "Deg2Rad": (A, onp.deg2rad), "Radians": (A, onp.deg2rad),
    "Degrees": (A, onp.rad2deg), "Rad2Deg": (A, onp.rad2deg),
    "Exp": (A, onp.exp), "Exp2": (A, onp.exp2), "Expm1": (A, onp.expm1),
    "I0": (A, onp.i0),
    "Log": (P, onp.log), "Log10": (P, onp.log10), "Log1p": (P, onp.log1p), "Log2": (P, onp.log2),
    "NaNToNum": (A, onp.nan_to_num), "NanToNum": (A, onp.nan_to_num),
    "Positive": (A, lambda x: x), "Reciprocal": (P, lambda x: 1 / x),
    "Sign": (A, onp.sign), "Sinc": (A, onp.sinc), "Sqrt": (P, onp.sqrt),
    "Square": (A, onp.square),
}
ACT_ARGS = [
    ("LeakyReLU", (), {"negative_slope": 0.3}, A, lambda x: onp.where(x >= 0, x, 0.3 * x)),
    ("LeakyReLU", (0.2,), {}, A, lambda x: onp.where(x >= 0, x, 0.2 * x)),
    ("ELU", (0.7,), {}, A, lambda x: onp.where(x > 0, x, 0.7 * onp.expm1(x))),
    ("CELU", (), {"alpha": 0.6}, A, lambda x: onp.maximum(x, 0) + onp.minimum(0, 0.6 * onp.expm1(x / 0.6))),
    ("GELU", (), {"approximate": False}, A, lambda x: 0.5 * x * (1 + _erf(x / math.sqrt(2)))),
    ("SquarePlus", (2.0,), {}, A, lambda x: 0.5 * (x + onp.sqrt(x**2 + 2.0))),
    ("Clip", (-0.5, 0.4), {}, A, lambda x: onp.clip(x, -0.5, 0.4)),
    ("Clip", (), {"min": -0.1, "max": 0.9}, A, lambda x: onp.clip(x, -0.1, 0.9)),
    ("Power", (3,), {}, A, lambda x: x**3), ("Pow", (2,), {}, A, lambda x: x**2),
    ("FloatPower", (1.5,), {}, P, lambda x: x**1.5),
    ("Round", (1,), {}, A, lambda x: onp.round(x, 1)),
    ("Round", (), {"decimals": 2}, A, lambda x: onp.round(x, 2)),
    ("ArcTan2", (0.7,), {}, A, lambda x: onp.arctan2(x, 0.7)),
    ("FloorDivide", (0.5,), {}, A, lambda x: onp.floor_divide(x, 0.5)),
    ("LDExp", (2,), {}, A, lambda x: 4 * x), ("NextAfter", (0.5,), {}, A, lambda x: x),
    ("Angle", (), {}, Z, onp.angle), ("Imag", (), {}, Z, onp.imag), ("Real", (), {}, Z, onp.real),
    ("Abs", (), {}, Z, onp.abs), ("Conj", (), {}, Z, onp.conj), ("Exp", (), {}, Z, onp.exp),
    ("Square", (), {}, Z, onp.square), ("Angle", (), {}, A, lambda x: onp.where(x < 0, onp.pi, 0.0)),
    ("Angle", (), {"deg": True}, Z, lambda x: onp.degrees(onp.angle(x))),
    ("AMax", (-1,), {}, A, lambda x: x.max(-1)), ("AMin", (), {"axis": -1}, A, lambda x: x.min(-1)),
    ("LogSumExp", (), {"axis": -1}, A, _lse),
    ("Softmax", (), {"axis": 1}, A, lambda x: onp.moveaxis(_softmax(onp.moveaxis(x, 1, -1)), -1, 1)),
]
REDUCE = {"AMax", "AMin", "LogSumExp"}


def _dom(dom):
    def f(rng, *shape):
        if dom == Z:
            return G.ca(rng, *shape)
        if dom == P:
            return np.asarray(rng.uniform(1.05, 3, shape).astype("float32"))
        if dom == U:
            return np.asarray(rng.uniform(-0.9, 0.9, shape).astype("float32"))
        # away from integers and zero, where roundings jump
        z = rng.uniform(0.06, 0.44, shape) + rng.randint(-6, 6, shape) * 0.5
        return np.asarray(z.astype("float32"))

    return f


def _x(shape, f=G.fa):
    return lambda rng, n: jax.tree.map(
        lambda s: f(rng, n, *s), shape, is_leaf=G.is_shape
    )


def activation(rng, which=None):
    if which is None and rng.rand() < 0.3:
        name, args, kw, dom, ref = G.pick(rng, ACT_ARGS)
    else:
        name = which or G.pick(rng, sorted(ACT))
        args, kw, (dom, ref) = (), {}, ACT[name]
    lo = 2 if name in REDUCE else 1
    shape = G.rand_shape_tree(rng, 2, shapef=lambda: G.rand_shape(rng, (lo, 3)))
    return dict(
        name=f"{name}{args}{kw}", module=getattr(M, name)(*args, **kw), shape=shape,
        ref=lambda p, X: tmap(ref, X), x=_x(shape, _dom(dom)),
        # the library computes the variance as a difference of squares
        rtol=5e-3 if name == "Standardize" else 1e-4,
    )


def glu(rng):
    shape = G.rand_shape_tree(
        rng, 1, shapef=lambda: G.rand_shape(rng, (0, 2)) + (2 * int(rng.randint(1, 4)),)
    )

    def f(x):
        a, b = onp.split(x, 2, axis=-1)
        return a * _sig(b)

    return dict(name="GLU", module=M.GLU(), shape=shape, ref=lambda p, X: tmap(f, X), x=_x(shape))


# -------------------------------------------------------------- simple ones
def prelu(rng):
    shape = G.rand_shape_tree(rng, 2)
    single = bool(rng.randint(2))
    real = rng.rand() < 0.75

    def ref(p, X):
        if single:
            a = p[0].reshape(())
            return tmap(lambda x: onp.where(x >= 0, x, a * x), X)
        return tmap(lambda x, a: onp.where(x >= 0, x, a * x), X, p)

    return dict(
        name=f"PReLU({single},{real})",
        module=M.PReLU(single_parameter=single, init_magnitude=float(rng.uniform(0.1, 1)), real=real),
        shape=shape, ref=ref, x=_x(shape),
    )


def bias(rng):
    k = rng.randint(5)
    real = bool(rng.randint(2))
    if k == 0:  # scalar
        shape = G.rand_shape_tree(rng, 2)
        v = float(rng.randn()) if real else complex(rng.randn(), rng.randn())
        m = M.Bias(bias=v, scalar=True, real=real) if rng.randint(2) else M.Bias(scalar=True, real=real, init_magnitude=1.0)
        ref = lambda p, X: tmap(lambda x: x + p.reshape(()), X)
    elif k == 1:  # one array for all leaves
        s = G.rand_shape(rng)
        shape = G.rand_shape_tree(rng, 2, shapef=lambda: s)
        b = G.fa(rng, *s) if real else G.ca(rng, *s)
        m = M.Bias(bias=b, real=real)
        ref = lambda p, X: tmap(lambda x: x + p, X)
    elif k == 2:  # given tree
        shape = G.rand_shape_tree(rng, 2)
        b = jax.tree.map(lambda s: G.fa(rng, *s) if real else G.ca(rng, *s), shape, is_leaf=G.is_shape)
        m = M.Bias(bias=b, real=real)
        ref = lambda p, X: tmap(lambda x, c: x + c, X, p)
    else:
        shape = G.rand_shape_tree(rng, 2)
        m = M.Bias(real=real, init_magnitude=float(rng.uniform(0.2, 1)))
        ref = lambda p, X: tmap(lambda x, c: x + c, X, p)
    if rng.rand() < 0.2:
        m.trainable = False
    return dict(name=f"Bias({k},{real})", module=m, shape=shape, ref=ref, x=_x(shape))


def constant(rng):
    shape = G.rand_shape_tree(rng, 1)
    k = rng.randint(4)
    if k == 0:
        m = M.Constant(float(rng.randn()), name="c")
    elif k == 1:
        m = M.Constant(
            jax.tree.map(lambda s: G.fa(rng, *s), G.rand_shape_tree(rng, 2), is_leaf=G.is_shape),
            trainable=bool(rng.randint(2)),
        )
    elif k == 2:
        c = G.ca(rng, *G.rand_shape(rng))
        more = {} if rng.randint(2) else dict(shape=c.shape, real=False)
        m = M.Constant(c, trainable=bool(rng.randint(2)), **more)
    else:
        s = G.rand_shape_tree(rng, 2)
        real = G.pick(rng, [None, True, False, "each"])
        if real == "each":
            real = jax.tree.map(lambda _: bool(rng.randint(2)), s, is_leaf=G.is_shape)
        m = M.Constant(trainable=True, shape=s, init_magnitude=0.7, real=real)

    def ref(p, X):
        n = jax.tree.leaves(X)[0].shape[0]
        return tmap(lambda c: onp.repeat(onp.asarray(c)[None], n, axis=0), p)

    return dict(name=f"Constant({k})", module=m, shape=shape, ref=ref, x=_x(shape))


def comment(rng):
    shape = G.rand_shape_tree(rng, 2)
    return dict(name="Comment", module=M.Comment("note"), shape=shape, ref=lambda p, X: X, x=_x(shape))


def linear(rng):
    shape = G.rand_shape(rng)
    q = int(rng.randint(1, 5))
    real = rng.rand() < 0.8
    b = bool(rng.randint(2))
    act = None
    if real and rng.randint(2):
        an = G.pick(rng, ["Tanh", "Sigmoid", "ReLU", "SiLU", "Sin"])
        act = getattr(M, an)()
    m = M.LinearNN(q, bias=b, activation=act, init_magnitude=float(rng.uniform(0.2, 1)), real=real)

    def ref(p, X):
        W = p[1]
        y = X.reshape(X.shape[0], -1) @ W.T
        if b:
            y = y + p[2]
        return ACT[an][1](y) if act is not None else y

    return dict(name=f"LinearNN({q},{b},{real},{act is not None})", module=m, shape=shape, ref=ref, x=_x(shape))


# ------------------------------------------------------------ tree plumbing
def _leaf_paths(shape):
    out = []
    for kp, _ in jax.tree_util.tree_leaves_with_path(shape, is_leaf=G.is_shape):
        out.append([getattr(k, "key", getattr(k, "idx", None)) for k in kp])
    return out


def _get(t, path):
    for k in path:
        t = t[k]
    return t


def _sub_paths(shape):
    """paths to all subtrees and leaves (not the root)"""
    out = []

    def walk(t, pre):
        if pre:
            out.append(pre)
        if G.is_shape(t):
            return
        for k, v in t.items() if isinstance(t, dict) else enumerate(t):
            walk(v, pre + [k])

    walk(shape, [])
    return out


def _tree(rng, depth=2, shapef=None):
    """a tree that is not a bare leaf"""
    while True:
        s = G.rand_shape_tree(rng, depth, shapef, leaf_p=0.3)
        if not G.is_shape(s):
            return s


def treekey(rng):
    shape = _tree(rng)
    sep = G.pick(rng, [".", "/", "|"])
    paths = _sub_paths(shape)
    k = int(rng.randint(1, 4))
    sel = [paths[i] for i in rng.randint(0, len(paths), k)]
    strs = [sep.join(str(e) for e in p) for p in sel]
    form = rng.randint(4)
    if form == 0:
        kp, build = strs[0], lambda L: L[0]
    elif form == 1:
        kp, build = list(strs), lambda L: list(L)
    elif form == 2:
        kp, build = tuple(strs), lambda L: tuple(L)
    else:
        kp, build = {f"o{i}": s for i, s in enumerate(strs)}, lambda L: {f"o{i}": v for i, v in enumerate(L)}
    if rng.rand() < 0.2:
        kp, build = None, None
    ref = (lambda p, X: X) if kp is None else (lambda p, X: build([_get(X, q) for q in sel]))
    return dict(
        name=f"TreeKey({kp})", module=M.TreeKey(kp, separator=sep), shape=shape, ref=ref, x=_x(shape)
    )


def treeflatten(rng):
    shape = G.rand_shape_tree(rng, 3, leaf_p=0.2)
    return dict(
        name="TreeFlatten", module=M.TreeFlatten(), shape=shape,
        ref=lambda p, X: [_get(X, q) for q in _sorted_leaf_paths(shape)], x=_x(shape),
    )


def _sorted_leaf_paths(t, pre=()):
    """leaf order: dictionary keys sorted, sequences in order"""
    if G.is_shape(t):
        return [list(pre)]
    it = sorted(t.items()) if isinstance(t, dict) else enumerate(t)
    return [q for k, v in it for q in _sorted_leaf_paths(v, pre + (k,))]


def flatten(rng):
    shape = G.rand_shape_tree(rng, 2, shapef=lambda: G.rand_shape(rng, (1, 4), (1, 3)))
    return dict(
        name="Flatten", module=M.Flatten(), shape=shape,
        ref=lambda p, X: tmap(lambda x: x.reshape(x.shape[0], -1), X), x=_x(shape),
    )


def _refactor(rng, s):
    """random target shape with the same number of elements"""
    n = int(onp.prod(s)) if len(s) else 1
    t = []
    while n > 1 and len(t) < 3:
        ds = [d for d in range(1, n + 1) if n % d == 0]
        d = int(G.pick(rng, ds))
        t.append(d)
        n //= d
    t.append(n)
    if rng.rand() < 0.5:
        t[rng.randint(len(t))] = -1
    return tuple(t)


def reshape(rng):
    shape = G.rand_shape_tree(rng, 2, shapef=lambda: G.rand_shape(rng, (1, 3), (1, 6)))
    if G.is_shape(shape):
        tgt = None if rng.rand() < 0.1 else _refactor(rng, shape)
        ref = lambda p, X: X if tgt is None else X.reshape((X.shape[0],) + tgt)
        return dict(name=f"Reshape({shape}->{tgt})", module=M.Reshape(tgt), shape=shape, ref=ref, x=_x(shape))
    tgt = jax.tree.map(
        lambda s: None if rng.rand() < 0.25 else _refactor(rng, s), shape, is_leaf=G.is_shape
    )
    flat = []

    def walk(s, t):
        if G.is_shape(s):
            flat.append(t)
            return
        for k in sorted(s) if isinstance(s, dict) else range(len(s)):
            walk(s[k], t[k])

    walk(shape, tgt)

    def ref(p, X):
        L, d = jax.tree.flatten(X)
        return jax.tree.unflatten(
            d, [x if t is None else x.reshape((x.shape[0],) + t) for x, t in zip(L, flat)]
        )

    return dict(name=f"Reshape({tgt})", module=M.Reshape(tgt), shape=shape, ref=ref, x=_x(shape))


def concat(rng):
    axis = None if rng.rand() < 0.35 else 0
    nd = int(rng.randint(1, 4))
    base = [int(rng.randint(1, 4)) for _ in range(nd)]
    if axis is not None:
        axis = int(rng.randint(-nd, nd))

    def sf():
        if axis is None:
            return G.rand_shape(rng)
        s = list(base)
        s[axis] = int(rng.randint(1, 4))
        return tuple(s)

    if rng.rand() < 0.15:  # many leaves
        shape = [sf() for _ in range(int(rng.randint(10, 14)))]
    else:
        shape = _tree(rng, 2, sf)
    paths = _sorted_leaf_paths(shape)
    sep = G.pick(rng, [".", "/"])
    order = None
    if rng.randint(2):
        paths = [paths[i] for i in rng.permutation(len(paths))]
        if rng.rand() < 0.3 and len(paths) > 1:
            paths = paths[:-1]
        order = [sep.join(str(e) for e in q) for q in paths]
        if rng.randint(2):
            order = tuple(order)

    def ref(p, X):
        L = [_get(X, q) for q in paths]
        if axis is None:
            return onp.concatenate([x.reshape(x.shape[0], -1) for x in L], axis=1)
        return onp.concatenate(L, axis=axis + 1 if axis >= 0 else axis)

    return dict(
        name=f"ConcatenateLeaves({axis},{order})",
        module=M.ConcatenateLeaves(axis=axis, path_order=order, separator=sep),
        shape=shape, ref=ref, x=_x(shape),
    )


class Swap(M.FuncBase):
    """user function on a dictionary"""

    __version__: str = "0.0.0"

    def __init__(self, c: float = 2.0) -> None:
        self.c = c

    def get_hyperparameters(self) -> HyperParams:
        return {"c": self.c}

    def f(self, data: Data) -> Data:
        return [self.c * data["b"], {"m": data["a"].sum(axis=-1, keepdims=True), "b": data["b"]}]


def func(rng):
    c = float(rng.uniform(0.5, 2))
    shape = {"a": G.rand_shape(rng), "b": G.rand_shape(rng)}
    return dict(
        name="FuncBase", module=Swap(c), shape=shape,
        ref=lambda p, X: [c * X["b"], {"m": X["a"].sum(axis=-1, keepdims=True), "b": X["b"]}],
        x=_x(shape),
    )


# ------------------------------------------------------- products of leaves
def matmul(rng):
    """Chain of matrices, optionally with a parameter matrix somewhere, in any
    leaf order."""
    k = int(rng.randint(1, 5))
    if rng.rand() < 0.1:
        k = int(rng.randint(11, 13))
    mode = G.pick(rng, ["none", "trainable", "fixed", "given"])
    if k == 1 and mode == "none":
        mode = "trainable"
    sep = G.pick(rng, [".", "/"])
    ordered = bool(rng.randint(2))
    total = k + (mode != "none")
    ppos = None if mode == "none" else (int(rng.randint(total)) if ordered else 0)
    if ppos and rng.rand() < 0.3:
        ppos = total - 1
    d = [int(rng.randint(1, 4)) for _ in range(total + 1)]
    vec = rng.rand() < 0.5  # last operand a vector
    shapes = [(d[i], d[i + 1]) for i in range(total)]
    if vec:
        shapes[-1] = (d[total - 1],)
    inputs = [i for i in range(total) if i != ppos]  # operand index per input
    # place the inputs in a tree
    perm = list(rng.permutation(len(inputs))) if ordered else list(range(len(inputs)))
    slot = {}  # slot number -> operand
    for s, i in zip(perm, inputs):
        slot[int(s)] = i
    n_in = len(inputs)
    form = G.pick(rng, ["list", "dict", "nested", "tuple"])
    if n_in == 1 and rng.randint(2):
        form = "bare"
    if form in ("list", "tuple", "bare"):
        keys = [[i] for i in range(n_in)]
    elif form == "dict":
        names = sorted(str(c) for c in rng.permutation(list("abcdefghijklmnop"))[:n_in])
        keys = [[c] for c in names]
    else:
        c = int(rng.randint(0, n_in))
        keys = [["a", i] for i in range(c)] + [["b", i] for i in range(n_in - c)]
    ordstr, shape = None, None
    vals = {s: shapes[slot[s]] for s in range(n_in)}
    if form == "bare":
        shape, paths = vals[0], {slot[0]: []}
        ordered = False
        if ppos not in (None, 0):  # a bare array can't be ordered
            return matmul(rng)
    else:
        if form in ("list", "tuple"):
            shape = [vals[s] for s in range(n_in)]
            shape = tuple(shape) if form == "tuple" else shape
        elif form == "dict":
            shape = {keys[s][0]: vals[s] for s in range(n_in)}
        else:
            shape = {"a": [vals[s] for s in range(c)], "b": [vals[s] for s in range(c, n_in)]}
            shape = {q: v for q, v in shape.items() if v}
        paths = {slot[s]: keys[s] for s in range(n_in)}
    if ordered:
        ordstr = [
            sep + sep if i == ppos else sep.join(str(e) for e in paths[i]) for i in range(total)
        ]
    kw = dict(path_order=ordstr, separator=sep, init_magnitude=0.8)
    real = rng.rand() < 0.8
    if mode in ("fixed", "given"):
        kw["params"] = G.fa(rng, *shapes[ppos]) if real else G.ca(rng, *shapes[ppos])
        kw["trainable"] = mode == "given"
    elif mode == "trainable":
        kw.update(trainable=True, real=real)
        last = ppos == total - 1
        q = d[0] if vec else G.pick(rng, [(d[0], d[-1]), (d[0], None) if not last else (d[0], d[-1])])
        if last and vec and rng.randint(2):
            q = None
        kw["output_shape"] = q

    def ref(p, X):
        ops = [p if i == ppos else _get(X, paths[i]) for i in range(total)]
        r = ops[-1]
        for i in range(total - 2, -1, -1):  # from the right
            if not vec:
                r = ops[i] @ r
                continue
            a = "ij" if i == ppos else "nij"
            v = "j" if r.ndim == 1 else "nj"
            r = onp.einsum(f"{a},{v}->{'i' if a + v == 'ijj' else 'ni'}", ops[i], r)
        return r

    return dict(
        name=f"MatMul({mode},{form},{ordstr},{shapes})", module=M.MatMul(**kw), shape=shape, ref=ref, x=_x(shape)
    )


def einsum(rng):
    """Random index strings over 1-3 inputs and 0-2 leading arrays."""
    n_in = int(rng.randint(1, 4))
    n_lead = int(rng.randint(0, 3))
    letters = list("abcdefgh")
    rng.shuffle(letters)
    letters = letters[:5]
    dims = {c: int(rng.randint(1, 4)) for c in letters}
    ins = ["".join(rng.permutation(letters)[: rng.randint(1, 4)]) for _ in range(n_in)]
    pool = sorted(set("".join(ins)))
    leads = []
    for _ in range(n_lead):
        cs = [c for c in rng.permutation(letters)[: rng.randint(1, 4)]]
        leads.append("".join(cs))
    terms = leads + ins
    seen = {}
    for t in terms:
        for c in t:
            seen[c] = seen.get(c, 0) + 1
    infer = rng.rand() < 0.4
    once = "".join(c for c in sorted(seen) if seen[c] == 1)
    if infer:
        out = once
    else:
        av = sorted(seen)
        out = "".join(rng.permutation(av)[: rng.randint(1, min(4, len(av)) + 1)])
    if not out:
        return einsum(rng)
    # the tree of inputs
    form = G.pick(rng, ["list", "dict", "nested", "tuple"] + (["bare"] if n_in == 1 else []))
    sh = [tuple(dims[c] for c in s) for s in ins]

    def build(v):
        if form == "bare":
            return v[0]
        if form == "list":
            return list(v)
        if form == "tuple":
            return tuple(v)
        if form == "dict":
            return {f"k{i}": x for i, x in enumerate(v)}
        return {"p": [v[0]], "q": list(v[1:])} if len(v) > 1 else {"p": [v[0]]}

    shape = build(sh)
    style = "str" if form == "bare" else G.pick(rng, ["str", "tree"])
    if style == "str":
        es = ",".join(terms) + ("" if infer else "->" + out)
    else:
        tr = build(ins)
        if n_lead:
            es = (",".join(leads), tr) + (() if infer else (out,))
        elif infer:
            es = tr
        else:
            es = (tr, out)
    kw = {}
    if n_lead:
        mode = G.pick(rng, ["trainable", "fixed", "given"])
        if mode == "trainable":
            kw = dict(
                trainable=True, init_magnitude=0.8, real=rng.rand() < 0.8,
                dim_map={c: dims[c] for c in sorted(seen)} if rng.randint(2) or set("".join(leads)) - set(pool) else None,
            )
        else:
            ps = [G.fa(rng, *[dims[c] for c in s]) for s in leads]
            kw = dict(params=ps[0] if n_lead == 1 else tuple(ps), trainable=mode == "given")

    def ref(p, X):
        ps = [] if not n_lead else ([p] if n_lead == 1 else list(p))
        xs = [X] if form == "bare" else [_get(X, q) for q in _sorted_leaf_paths(shape)]
        s = ",".join(leads + ["z" + t for t in ins]) + "->z" + out
        return onp.einsum(s, *ps, *xs)

    return dict(name=f"Einsum({es})", module=M.Einsum(es, **kw), shape=shape, ref=ref, x=_x(shape))


# ------------------------------------------------------------------ matrices
def _wrap1(rng, s):
    """a tree with a single leaf of shape s, and its wrapper/unwrapper"""
    k = rng.randint(5)
    if k <= 2:
        return s
    return {"x": s} if k == 3 else [(s,)]


def _commC(Ms):
    C = onp.zeros_like(Ms[0], dtype=complex)
    for i in range(len(Ms)):
        for j in range(i):
            C = C + Ms[i] @ Ms[j] - Ms[j] @ Ms[i]
    return 1j * C


def _affine(Ms, x, bias, s=0.0):
    if bias:
        r = Ms[0] + onp.tensordot(x, Ms[1:], axes=(1, 0))
    else:
        r = onp.tensordot(x, Ms, axes=(1, 0))
    return r + s * _commC(Ms) if s else r


def affine_tensor(rng):
    p = int(rng.randint(1, 5))
    ts = G.rand_shape(rng, (1, 3), (1, 4))
    b = bool(rng.randint(2))
    real = bool(rng.randint(2))
    shape = _wrap1(rng, (p,))
    if rng.randint(2):
        m = M.AffineTensor(tensor_shape=ts, init_magnitude=0.7, bias_term=b, real=real)
    else:
        Ms = (G.fa if real else G.ca)(rng, p + b, *ts)
        m = M.AffineTensor(Ms=Ms, bias_term=b, real=real)
    return dict(
        name=f"AffineTensor({ts},{b},{real})", module=m, shape=shape,
        ref=lambda P_, X: tmap(lambda x: _affine(P_, x, b), X), x=_x(shape),
    )


def affine_herm(rng):
    p, n = int(rng.randint(1, 5)), int(rng.randint(1, 5))
    b = bool(rng.randint(2))
    s = G.pick(rng, [None, 0.0, float(rng.uniform(0.1, 2)), -0.7])
    shape = _wrap1(rng, (p,))
    if rng.randint(2):
        m = M.AffineHermitianMatrix(matrix_size=n, smoothing=s, init_magnitude=0.7, bias_term=b)
    else:
        m = M.AffineHermitianMatrix(Ms=G.herm(rng, p + b, n, n), smoothing=s, bias_term=b)
    return dict(
        name=f"AffineHermitianMatrix({n},{p},{b},{s is not None and s != 0})", module=m, shape=shape,
        ref=lambda P_, X: tmap(lambda x: _affine(P_, x, b, s or 0.0), X), x=_x(shape), herm=True,
    )


def lowrank(rng):
    p, n = int(rng.randint(1, 4)), int(rng.randint(1, 6))
    r = int(rng.randint(1, n + 1))
    b = bool(rng.randint(2))
    s = G.pick(rng, [None, 0.0, 0.4])
    shape = _wrap1(rng, (p,))
    m = M.LowRankAffineHermitianMatrix(
        matrix_size=n, matrix_rank=r, smoothing=s, init_magnitude=0.8, bias_term=b
    )

    def ref(P_, X):
        ls, us = P_
        Ms = onp.stack([sum(l * onp.outer(u, u.conj()) for l, u in zip(L, U_.T)) for L, U_ in zip(ls, us)])
        return tmap(lambda x: _affine(Ms, x, b, s or 0.0), X)

    return dict(
        name=f"LowRank({n},{r},{p},{b},{s})", module=m, shape=shape, ref=ref, x=_x(shape), herm=True,
        rank=None if s else (r, p + b),
    )


def select(E, k, which):
    """reference selection: indices into E"""
    n = len(E)
    k = n if k is None else k
    key = E if which[1].lower() == "a" else onp.abs(E)
    o = onp.argsort(key, kind="stable")
    w = which[0].lower()
    if w == "s":
        return o[:k]
    if w == "l":
        return o[n - k:]
    h = k // 2
    if w == "e":
        return onp.concatenate([o[:h], o[n - (k - h):]])
    lo = n // 2 - h
    return o[lo: lo + k]


WHICH = ["SA", "LA", "SM", "LM", "EA", "EM", "IA", "IM"]


def spectrum(rng, n, gap=0.15):
    """n eigenvalues whose values and magnitudes are well separated"""
    mags = 0.3 + gap * onp.cumsum(1 + rng.rand(n))
    return rng.permutation(mags) * rng.choice([-1, 1], n)


def herm_with(rng, E):
    n = len(E)
    q, _ = onp.linalg.qr(rng.randn(n, n) + 1j * rng.randn(n, n))
    return (q * E) @ q.conj().T


def _x_herm(shape):
    def f(rng, n):
        return jax.tree.map(
            lambda s: np.asarray(
                onp.stack([herm_with(rng, spectrum(rng, s[0])) for _ in range(n)]).astype("complex64")
            ),
            shape, is_leaf=G.is_shape,
        )

    return f


def _eig_setup(rng):
    ns = []

    def sf():
        n = int(rng.randint(1, 6))
        ns.append(n)
        return (n, n)

    shape = G.rand_shape_tree(rng, 2, shapef=sf)
    k = None if rng.rand() < 0.2 else int(rng.randint(1, min(ns) + 1))
    which = G.pick(rng, WHICH)
    if rng.randint(2):
        which = which.lower()
    return shape, k, which


def eigenvalues(rng):
    shape, k, which = _eig_setup(rng)

    def f(x):
        out = []
        for A_ in x:
            E = onp.linalg.eigvalsh(A_)
            out.append(E[select(E, k, which)])
        return onp.stack(out)

    return dict(
        name=f"Eigenvalues({k},{which})", module=M.Eigenvalues(k, which), shape=shape,
        ref=lambda p, X: tmap(f, X), x=_x_herm(shape),
    )


def eigensystem(rng):
    shape, k, which = _eig_setup(rng)
    return dict(
        name=f"Eigensystem({k},{which})", module=M.Eigensystem(k, which), shape=shape,
        ref=None, x=_x_herm(shape), k=k, which=which,
    )


def eigenvectors(rng):
    shape, k, which = _eig_setup(rng)
    return dict(
        name=f"Eigenvectors({k},{which})", module=M.Eigenvectors(k, which), shape=shape,
        ref=None, x=_x_herm(shape), k=k, which=which,
    )


def _states(rng, n_s, n, r):
    v = rng.randn(n_s, n, r) + 1j * rng.randn(n_s, n, r)
    v /= onp.linalg.norm(v, axis=1, keepdims=True)
    return np.asarray(v.astype("complex64"))


def obs_ref(kind, Ds, V, centered):
    out = onp.zeros((V.shape[0], Ds.shape[0]))
    for s in range(V.shape[0]):
        for k in range(Ds.shape[0]):
            z = 0.0
            for m in range(Ds.shape[1]):
                A_ = V[s].conj().T @ Ds[k, m] @ V[s]
                z += onp.trace(A_).real if kind == "ev" else (onp.abs(A_) ** 2).sum()
                if centered:
                    z -= 0.5 * onp.abs(onp.linalg.eigvalsh(Ds[k, m])).max() ** 2
            out[s, k] = z
    return out


def observable(rng, kind=None):
    kind = kind or G.pick(rng, ["ev", "ta"])
    n = int(rng.randint(1, 5))
    r, q, l = int(rng.randint(1, n + 1)), int(rng.randint(1, 4)), int(rng.randint(1, 4))
    c = bool(rng.randint(2))
    shape = _wrap1(rng, (n, r))
    cls = M.ExpectationValueSum if kind == "ev" else M.TransitionAmplitudeSum
    if rng.randint(2):
        m = cls(num_observables=l, output_size=q, init_magnitude=0.7, centered=c)
    else:
        m = cls(Ds=G.herm(rng, q, l, n, n), centered=c)
    return dict(
        name=f"{cls.__name__}({n},{r},{q},{l},{c})", module=m, shape=shape,
        ref=lambda P_, X: tmap(lambda x: obs_ref(kind, P_, x, c), X),
        x=lambda rg, ns: jax.tree.map(lambda s: _states(rg, ns, *s), shape, is_leaf=G.is_shape),
    )


BASIC = [
    activation, activation, activation, glu, prelu, bias, bias, constant, comment,
    linear, linear, treekey, treekey, treeflatten, flatten, reshape, reshape,
    concat, concat, func, matmul, matmul, matmul, einsum, einsum, einsum,
]
MATRIX = [affine_tensor, affine_herm, affine_herm, lowrank, eigenvalues, eigensystem, eigenvectors]
OBS = [lambda rng: observable(rng, "ev"), lambda rng: observable(rng, "ta")]
ALL = BASIC + MATRIX + OBS


def params_jitter(rng, module):
    """random parameter values, Hermitian where they were Hermitian"""
    if not jax.tree.leaves(module.get_params()):
        return
    G.jitter_params(rng, module)
