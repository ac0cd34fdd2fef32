"""Seeded generators shared by the checks."""
import jax
import jax.numpy as np
import numpy as onp

import parametricmatrixmodels as pmm
import parametricmatrixmodels.modules as M

from .probes import Noise, Tag, Tally, Weights

ACTS = ["Tanh", "Sigmoid", "Sin", "Softplus", "GELU", "SiLU", "Cos", "SoftSign"]


def fa(rng, *shape, scale=1.0):
    """float32 array"""
    return np.asarray((scale * rng.randn(*shape)).astype("float32"))


def ca(rng, *shape, scale=1.0):
    z = scale * (rng.randn(*shape) + 1j * rng.randn(*shape))
    return np.asarray(z.astype("complex64"))


def herm(rng, *shape, scale=1.0):
    z = rng.randn(*shape) + 1j * rng.randn(*shape)
    z = 0.5 * scale * (z + onp.conj(onp.swapaxes(z, -1, -2)))
    return np.asarray(z.astype("complex64"))


def pick(rng, xs):
    return xs[rng.randint(len(xs))]


def cycle(rng, xs):
    """the next one: consecutive cases go through the whole list"""
    return xs[getattr(rng, "idx", rng.randint(len(xs))) % len(xs)]


def chance(rng, p):
    return rng.rand() < p


def n64(x):
    x = onp.asarray(x)
    return x.astype(onp.complex128 if onp.iscomplexobj(x) else onp.float64)


def t64(t):
    return jax.tree.map(n64, t)


def is_shape(s):
    return isinstance(s, tuple) and all(isinstance(i, (int, onp.integer)) for i in s)


def data_for(rng, shape, n, scale=1.0):
    """random batch for a tree of feature shapes"""
    return jax.tree.map(
        lambda s: fa(rng, n, *s, scale=scale), shape, is_leaf=is_shape
    )


def shapes_of(data):
    return jax.tree.map(lambda x: tuple(x.shape[1:]), data)


def rand_shape(rng, nd=(1, 3), dim=(1, 4)):
    return tuple(
        int(rng.randint(dim[0], dim[1] + 1))
        for _ in range(rng.randint(nd[0], nd[1] + 1))
    )


def rand_shape_tree(rng, depth=2, shapef=None, leaf_p=0.35):
    """Random tree (dict / list / tuple nesting) of feature shapes."""
    shapef = shapef or (lambda: rand_shape(rng))
    if depth == 0 or rng.rand() < leaf_p:
        return shapef()
    kind = rng.randint(3)
    n = rng.randint(1, 4)
    subs = [rand_shape_tree(rng, depth - 1, shapef, leaf_p) for _ in range(n)]
    if kind == 0:
        keys = rng.permutation(["a", "b2", "x", "Z", "k10", "k9"])[:n]
        return {str(k): s for k, s in zip(keys, subs)}
    return subs if kind == 1 else tuple(subs)


def act(rng):
    return getattr(M, pick(rng, ACTS))()


def rand_pipe(rng, p, depth, stateful=False, noise=False, pmms=True, cplx=True):
    """A list of modules mapping a (p,)-vector to a vector, and its width."""
    mods, w = [], p
    for _ in range(depth):
        k = rng.randint(0, 11)
        if k == 0:
            w2 = int(rng.randint(1, 5))
            mods.append(
                M.LinearNN(
                    w2,
                    bias=bool(rng.randint(2)),
                    activation=act(rng) if rng.randint(2) else None,
                    init_magnitude=0.6,
                )
            )
            w = w2
        elif k == 1:
            mods.append(act(rng))
        elif k == 2:
            mods.append(M.Bias(init_magnitude=0.7, scalar=bool(rng.randint(2))))
        elif k == 3:
            mods.append(Tag(float(rng.uniform(0.5, 2)), float(rng.randn())))
        elif k == 4 and pmms:
            n = int(rng.randint(2, 5))
            e = int(rng.randint(1, n + 1))
            mods.append(
                M.AEPMM(
                    matrix_size=n,
                    num_eig=e,
                    which=pick(rng, ["SA", "LA", "EA", "IA"]),
                    init_magnitude=0.8,
                )
            )
            w = e
        elif k == 5 and pmms:
            n = int(rng.randint(2, 4))
            q = int(rng.randint(1, 4))
            mods.append(
                M.AOPMM(
                    matrix_size=n,
                    num_eig=int(rng.randint(1, n + 1)),
                    which="SA",
                    output_size=q,
                    num_secondaries=int(rng.randint(1, 3)),
                    init_magnitude=0.7,
                )
            )
            w = q
        elif k == 6:
            mods.append(M.PReLU(single_parameter=bool(rng.randint(2))))
        elif k == 7:
            w2 = int(rng.randint(1, 5))
            mods.append(
                M.MatMul(output_shape=w2, trainable=True, init_magnitude=0.6)
            )
            w = w2
        elif k == 8 and w % 2 == 0:
            mods.append(M.Reshape((w // 2, 2)))
            mods.append(M.Flatten())
        elif k == 9 and stateful:
            mods.append(Tally())
        elif k == 10 and noise:
            mods.append(Noise())
        else:
            mods.append(Weights(float(rng.uniform(0.5, 1.5)), float(rng.randn())))
    return mods, w


def jitter_params(rng, model, scale=0.3):
    """Give every parameter (also the ones initialized to equal values) its own
    value."""

    def j(p):
        p = onp.asarray(p)
        d = scale * rng.randn(*p.shape)
        if onp.iscomplexobj(p):
            d = d + 1j * scale * rng.randn(*p.shape)
            pt = onp.conj(onp.swapaxes(p, -1, -2)) if p.ndim > 1 else None
            if pt is not None and pt.shape == p.shape and onp.allclose(pt, p):
                d = 0.5 * (d + onp.conj(onp.swapaxes(d, -1, -2)))
        return np.asarray((p + d).astype(p.dtype))

    model.set_params(jax.tree.map(j, model.get_params()))


def names(mods):
    return [type(m).__name__ for m in jax.tree.leaves(mods)]


def nest(rng, mods):
    """Random nesting of a flat list of modules into lists and tuples."""
    if len(mods) < 2 or rng.rand() < 0.4:
        return mods if rng.randint(2) else tuple(mods)
    k = int(rng.randint(1, len(mods)))
    out = [nest(rng, mods[:k]), nest(rng, mods[k:])]
    return out if rng.randint(2) else tuple(out)


def rand_model(rng, depth=None, kind=None, **kw):
    """Random model on a vector or a two-leaf tree with vector output.

    Returns (model, input shape, output width, kind)."""
    depth = int(rng.randint(1, 5)) if depth is None else depth
    kind = kind or pick(rng, ["flat", "nested", "model", "graph", "graph_tree", "tree"])
    p = int(rng.randint(1, 4))
    seed = int(rng.randint(1 << 30))
    if kind == "flat":
        mods, w = rand_pipe(rng, p, depth, **kw)
        return pmm.SequentialModel(mods, rng=seed), (p,), w, kind
    if kind == "nested":
        mods, w = rand_pipe(rng, p, depth + 1, **kw)
        return pmm.SequentialModel(nest(rng, mods), rng=seed), (p,), w, kind
    if kind == "model":
        a, w1 = rand_pipe(rng, p, depth, **kw)
        b, w2 = rand_pipe(rng, w1, depth, **kw)
        inner = pmm.SequentialModel(b, rng=seed + 1)
        return pmm.SequentialModel(a + [inner], rng=seed), (p,), w2, kind
    q = p if kind == "graph" else int(rng.randint(1, 4))
    if kind == "tree":
        c, w = rand_pipe(rng, p + q, depth, **kw)
        return (
            pmm.SequentialModel([M.ConcatenateLeaves()] + c, rng=seed),
            {"u": (p,), "v": [(q,)]}, w, kind,
        )
    a, wa = rand_pipe(rng, p, max(1, depth - 1), **kw)
    b, wb = rand_pipe(rng, q, 1, **kw)
    c, w = rand_pipe(rng, wa + wb, 1, **kw)
    mods = {
        "tail": pmm.SequentialModel(c, rng=2) if rng.randint(2) else c[-1],
        "left": pmm.SequentialModel(a, rng=1),
        "right": b[0],
        "cat": M.ConcatenateLeaves(),
    }
    if not isinstance(mods["tail"], pmm.SequentialModel) and len(c) > 1:
        mods["tail"] = pmm.SequentialModel(c, rng=2)
    if len(b) > 1:
        mods["right"] = pmm.SequentialModel(b, rng=3)
    if kind == "graph":
        conns, shape = {"input": ["left", "right"]}, (p,)
    else:
        conns, shape = {"input.u": "left", "input.v": "right"}, {"u": (p,), "v": (q,)}
    conns.update({"left": "cat.a", "right": "cat.b", "cat": "tail", "tail": "output"})
    return pmm.NonSequentialModel(mods, conns, rng=seed), shape, w, kind


def complexes(model):
    return any(onp.iscomplexobj(x) for x in jax.tree.leaves(model.get_params()))
