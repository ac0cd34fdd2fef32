"""C17: tree and path utilities."""
import copy
import warnings

import jax
import jax.numpy as np
import numpy as onp

from parametricmatrixmodels import graph_util as GU, tree_util as T
from vlib import gen as G
from vlib.core import Registry

R = Registry()
RULE = (
    "Every tree utility is run on random trees (dicts, lists, tuples, nested; real,"
    " complex and integer leaves) and compared leaf by leaf with NumPy or with plain"
    " Python containers walked by an independent interpreter of the paths."
)

SHAPES = [(3,), (2, 3), (4, 1), (2,), (), (3, 2, 2)]


def shape_tree(rng, depth=2):
    return G.rand_shape_tree(rng, depth, lambda: SHAPES[rng.randint(len(SHAPES))])


def arr(rng, s, dt):
    if dt == "int32":
        return rng.randint(-50, 50, size=s).astype(dt)
    x = rng.randn(*s) * 3
    if dt == "complex64":
        x = x + 1j * rng.randn(*s)
    return onp.asarray(x).astype(dt)


def tree(rng, shapes, dts=("float32", "complex64", "int32")):
    return jax.tree.map(lambda s: np.asarray(arr(rng, s, G.pick(rng, list(dts)))), shapes, is_leaf=G.is_shape)


def each(mon, got, want, like, key):
    mon.equal(jax.tree.structure(got), jax.tree.structure(like), key + "-structure")
    for g, w in zip(jax.tree.leaves(got), want):
        mon.close(onp.asarray(g), w, key, rtol=1e-5, atol=1e-5)


@R.scenario(quick=60, thorough=1500)
def elementwise(rng, mon):
    sh = shape_tree(rng)
    A, B = tree(rng, sh), tree(rng, sh)
    a, b = ([G.n64(x) for x in jax.tree.leaves(t)] for t in (A, B))
    mon.sig(sh, [str(x.dtype) for x in jax.tree.leaves(A) + jax.tree.leaves(B)])
    for name, f in (("add", lambda x, y: x + y), ("sub", lambda x, y: x - y), ("mul", lambda x, y: x * y)):
        each(mon, getattr(T, name)(A, B), [f(x, y) for x, y in zip(a, b)], A, name)
    Bn = jax.tree.map(lambda x: np.where(np.abs(x) < 0.5, np.ones_like(x), x), B)
    each(mon, T.div(A, Bn), [x / G.n64(y) for x, y in zip(a, jax.tree.leaves(Bn))], A, "div")
    each(mon, T.neg(A), [-x for x in a], A, "neg")
    each(mon, T.abs(A), [onp.abs(x) for x in a], A, "abs")
    each(mon, T.abs_sqr(A), [onp.abs(x) ** 2 for x in a], A, "abs_sqr")
    each(mon, T.abs_sqrt(A), [onp.sqrt(onp.abs(x)) for x in a], A, "abs_sqrt")
    P = T.abs(A)
    each(mon, T.sqrt(P), [onp.sqrt(onp.abs(x)) for x in a], A, "sqrt")
    k = int(rng.randint(0, 4))
    F = tree(rng, sh, ("float32", "complex64"))
    f = [G.n64(x) for x in jax.tree.leaves(F)]
    each(mon, T.pow(F, k), [x**k for x in f], F, "pow")
    c = G.pick(rng, [2, -0.75, 1.5 + 0.5j, np.asarray(1.25)])
    c0 = complex(c) if isinstance(c, complex) else float(c)
    each(mon, T.scalar_add(A, c), [x + c0 for x in a], A, "scalar_add")
    each(mon, T.scalar_mul(A, c), [x * c0 for x in a], A, "scalar_mul")
    if sum(x.size for x in a):
        tot = sum(x.sum() for x in a) / sum(x.size for x in a)
        mon.close(onp.asarray(T.mean(A)), tot, "mean", rtol=1e-5, atol=1e-4, scale=max(onp.abs(x).max(initial=0) for x in a))
    flags = jax.tree.map(lambda s: bool(rng.rand() < 0.2), sh, is_leaf=G.is_shape)
    mon.equal(T.any(flags), any(jax.tree.leaves(flags)), "any")
    # concatenation
    n = [int(rng.randint(1, 4)) for _ in range(rng.randint(1, 4))]
    parts = [jax.tree.map(lambda s: np.asarray(arr(rng, (m,) + s, "float32")), sh, is_leaf=G.is_shape) for m in n]
    cat = T.concatenate(parts if rng.randint(2) else tuple(parts))
    want = [onp.concatenate([onp.asarray(jax.tree.leaves(p)[i]) for p in parts]) for i in range(len(a))]
    each(mon, cat, want, A, "concatenate")
    if all(len(s) for s in jax.tree.leaves(sh, is_leaf=G.is_shape)):
        mon.equal(
            [tuple(x.shape) for x in jax.tree.leaves(T.concatenate([A, A], axis=-1))],
            [x.shape[:-1] + (2 * x.shape[-1],) for x in a], "concatenate-axis",
        )
    mon.raises(lambda: T.concatenate([]), "concatenate-nothing")


@R.scenario(quick=50, thorough=1000, x64=True)
def casting(rng, mon):
    sh = shape_tree(rng)
    A = tree(rng, sh)
    to = G.pick(rng, ["float32", "float64", "complex64", "complex128", "int32"])
    cplx = [onp.iscomplexobj(x) for x in jax.tree.leaves(A)]
    mon.sig(sh, cplx, to)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if any(cplx) and not to.startswith("complex"):
            mon.raises(lambda: T.safecast(A, to), "complex-to-real", exc=ValueError)
        else:
            B = T.safecast(A, to if rng.randint(2) else np.dtype(to))
            mon.equal(jax.tree.structure(B), jax.tree.structure(A), "cast-structure")
            for x, y in zip(jax.tree.leaves(A), jax.tree.leaves(B)):
                mon.equal(str(y.dtype), to, "cast-dtype")
                mon.check(onp.array_equal(onp.asarray(y), onp.asarray(x).astype(to)), "cast-values", x=x, y=y)
        B = T.astype(A, to)
        for x, y in zip(jax.tree.leaves(A), jax.tree.leaves(B)):
            mon.equal(str(y.dtype), to, "astype-dtype")
            mon.check(onp.array_equal(onp.asarray(y), onp.asarray(x).astype(to)), "astype-values", x=x, y=y)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        T.astype(A, to)
    if any(cplx) and not to.startswith("complex"):
        mon.check(len(w) > 0, "discarding-warns")


@R.scenario(quick=50, thorough=1000)
def batches(rng, mon):
    n = int(rng.randint(1, 12))
    nd = rng.randint(1, 4)
    ax = int(rng.randint(0, nd)) if rng.rand() < 0.6 else 0
    neg = ax - nd if rng.randint(2) else ax

    def one(s):
        s = [int(rng.randint(1, 4)) for _ in range(nd)]
        s[ax] = n
        return np.asarray(arr(rng, s, "float32"))

    A = jax.tree.map(one, shape_tree(rng), is_leaf=G.is_shape)
    L = [onp.asarray(x) for x in jax.tree.leaves(A)]
    size = int(rng.randint(1, 6))
    mon.sig([x.shape for x in L], ax, size, n)
    sl = lambda x, i, j: onp.take(x, onp.arange(i, j), axis=ax)
    i = int(rng.randint(0, max(1, n // size)))
    if (i + 1) * size <= n:
        b = T.batch_leaves(A, size, i, axis=neg)
        for g, x in zip(jax.tree.leaves(b), L):
            mon.check(onp.array_equal(onp.asarray(g), sl(x, i * size, (i + 1) * size)), "batch", i=i, size=size)
    rem = n % size
    if rem:
        b = T.batch_leaves(A, size, n // size, length=rem, axis=neg)
        for g, x in zip(jax.tree.leaves(b), L):
            mon.check(onp.array_equal(onp.asarray(g), sl(x, n - rem, n)), "last-batch")
    if size <= n:
        whole, rest = T.pytree_split(A, size, axis=neg)
        mon.check((rest is None) == (rem == 0), "remainder-present", n=n, size=size)
        for j, x in enumerate(L):
            w = onp.asarray(jax.tree.leaves(whole)[j])
            mon.equal(len(w), n // size, "split-count")
            parts = [w[k] for k in range(len(w))]
            if rest is not None:
                parts.append(onp.asarray(jax.tree.leaves(rest)[j]))
            mon.check(onp.array_equal(onp.concatenate(parts, axis=ax), x), "split-restores")
    # permutations
    key = jax.random.key(int(rng.randint(1 << 30)))
    tag = jax.tree.map(lambda x: np.asarray(onp.asarray(x) * 0 + onp.arange(n, dtype="float32").reshape([-1 if d == ax else 1 for d in range(nd)])), A)
    p = T.random_permute_leaves(tag, key, axis=neg)
    q = T.random_permute_leaves(A, key, axis=neg)
    order = None
    for t, g, x in zip(jax.tree.leaves(p), jax.tree.leaves(q), L):
        t = onp.moveaxis(onp.asarray(t), ax, 0).reshape(n, -1)
        mon.check((t == t[:, :1]).all(), "rows-stay-together")
        o = t[:, 0].astype(int)
        mon.equal(sorted(o.tolist()), list(range(n)), "is-permutation")
        if order is None:
            order = o
        mon.check(onp.array_equal(o, order), "one-permutation-for-all")
        mon.check(onp.array_equal(onp.asarray(g), onp.take(x, o, axis=ax)), "same-key-same-permutation")
    if nd == 1 or ax == 0:
        r = T.random_permute_leaves(tag, key, axis=neg, independent_leaves=True)
        for t in jax.tree.leaves(r):
            t = onp.moveaxis(onp.asarray(t), ax, 0).reshape(n, -1)
            mon.equal(sorted(t[:, 0].astype(int).tolist()), list(range(n)), "is-permutation")
    if n > 6:
        seen = {tuple(onp.asarray(jax.tree.leaves(T.random_permute_leaves(tag, jax.random.key(s), axis=neg))[0]).ravel().tolist()) for s in range(4)}
        mon.check(len(seen) > 1, "key-matters")


def mutate_shape(rng, sh):
    """another tree of shapes differing in one place"""
    L, st = jax.tree.flatten(sh, is_leaf=G.is_shape)
    L = list(L)
    i = rng.randint(len(L))
    if rng.randint(2) and len(L[i]):
        s = list(L[i])
        s[rng.randint(len(s))] += 1
        L[i] = tuple(s)
        return jax.tree.unflatten(st, L), i
    if rng.randint(2):
        L[i] = L[i] + (1,)
        return jax.tree.unflatten(st, L), i
    return {"w": sh}, None


@R.scenario(quick=50, thorough=1000)
def predicates(rng, mon):
    sh = shape_tree(rng)
    A, B = tree(rng, sh, ("float32",)), tree(rng, sh, ("float32",))
    mon.sig(sh)
    L = [tuple(x.shape) for x in jax.tree.leaves(A)]
    got = T.get_shapes(A)
    mon.equal(jax.tree.leaves(got, is_leaf=G.is_shape), L, "shapes")
    mon.equal(jax.tree.leaves(T.get_shapes(A, slice(1, None)), is_leaf=G.is_shape), [s[1:] for s in L], "shapes-slice")
    if all(L):
        mon.equal(jax.tree.leaves(T.get_shapes(A, (-1, 0)), is_leaf=G.is_shape), [(s[-1], s[0]) for s in L], "shapes-axes")
    mon.check(T.shapes_equal(A, B), "equal-shapes")
    sh2, _ = mutate_shape(rng, sh)
    C = tree(rng, sh2, ("float32",))
    mon.check(not T.shapes_equal(A, C), "different-shapes", a=sh, c=sh2)
    mon.check(not T.shapes_equal(C, A), "different-shapes", a=sh, c=sh2)
    # contents
    same = jax.tree.map(lambda x: x + 0, A)
    mon.check(T.all_equal(A, same) and T.all_close(A, same), "equal-trees")
    mon.check(T.all_equal(sh, copy.deepcopy(sh)), "equal-shape-trees")
    mon.check(not T.all_equal(sh, sh2), "different-shape-trees", a=sh, c=sh2)
    M, st = jax.tree.flatten(A)
    big = [i for i, x in enumerate(M) if x.size]
    if big:
        i = G.pick(rng, big)
        x = onp.asarray(M[i]).copy()
        x.reshape(-1)[rng.randint(x.size)] += 0.5
        D = jax.tree.unflatten(st, M[:i] + [np.asarray(x)] + M[i + 1:])
        mon.check(not T.all_equal(A, D) and not T.all_close(A, D), "one-element-differs")
        x = onp.asarray(M[i]).copy()
        x.reshape(-1)[rng.randint(x.size)] *= 1 + 4e-6
        D = jax.tree.unflatten(st, M[:i] + [np.asarray(x)] + M[i + 1:])
        mon.check(T.all_close(A, D), "close-trees")
        mon.check(not T.all_close(A, D, rtol=1e-8, atol=0.0) or onp.array_equal(x, onp.asarray(M[i])), "tolerance-respected")
    mon.check(not T.all_equal(A, {"w": A}) and not T.all_close(A, [A]), "structure-differs")
    # uniform axes
    n, m = int(rng.randint(1, 5)), int(rng.randint(1, 5))
    lead = lambda k: jax.tree.map(lambda s: np.zeros((k,) + s), sh, is_leaf=G.is_shape)
    U, V = lead(n), lead(m)
    mon.check(T.has_uniform_leaf_shapes(U, axis=0), "uniform")
    mon.equal(T.uniform_leaf_shapes_equal(U, V, axis=0), n == m, "uniform-equal")
    K, st = jax.tree.flatten(U)
    if len(K) > 1:
        i = rng.randint(len(K))
        K = list(K)
        K[i] = np.zeros((n + 1,) + K[i].shape[1:])
        W = jax.tree.unflatten(st, K)
        mon.check(not T.has_uniform_leaf_shapes(W, axis=0), "not-uniform")
        mon.check(not T.has_uniform_leaf_shapes(W), "not-uniform")
        mon.check(not T.uniform_leaf_shapes_equal(W, U, axis=0) and not T.uniform_leaf_shapes_equal(U, W, axis=0), "not-uniform-equal")
        mon.equal(T.has_uniform_leaf_shapes(U), len({x.shape for x in jax.tree.leaves(U)}) == 1, "uniform-all-axes")
    # single leaves and shape leaves
    ok, leaf = T.is_single_leaf(A)
    mon.equal(ok, len(L) == 1, "single-leaf")
    if ok:
        mon.check(leaf is jax.tree.leaves(A)[0], "single-leaf-value")
        mon.equal(T.is_single_leaf(A, ndim=2)[0], len(L[0]) == 2, "single-leaf-ndim")
        mon.check(T.is_single_leaf(A, shape=L[0])[0], "single-leaf-shape")
        mon.check(T.is_single_leaf(A, shape=tuple(None for _ in L[0]))[0], "single-leaf-any-shape")
        mon.check(not T.is_single_leaf(A, shape=L[0] + (2,))[0], "single-leaf-other-shape")
        if L[0]:
            mon.check(not T.is_single_leaf(A, shape=(L[0][0] + 1,) + L[0][1:])[0], "single-leaf-other-shape")
    for s in L:
        mon.check(T.is_shape_leaf(s), "shape-leaf")
    mon.check(T.is_shape_leaf(None) and not T.is_shape_leaf(None, allow_none=False), "none-shape")
    mon.check(not T.is_shape_leaf([1, 2]) and not T.is_shape_leaf(((1, 2), 3)) and not T.is_shape_leaf("ab"), "not-a-shape")


# -- paths -----------------------------------------------------------------


def nested(rng, depth=3, c=None):
    """nested containers with distinct integers as leaves"""
    c = c if c is not None else [0]
    if depth == 0 or rng.rand() < 0.25:
        c[0] += 1
        return c[0]
    subs = [nested(rng, depth - 1, c) for _ in range(rng.randint(1, 4))]
    k = rng.randint(3)
    if k == 0:
        ks = rng.permutation(["a", "b", "input", "0", "10", "x y", "ab", "1a"])[: len(subs)]
        return {str(n): s for n, s in zip(ks, subs)}
    return subs if k == 1 else tuple(subs)


def places(t, pre=()):
    """all (path, value) below t"""
    if isinstance(t, dict):
        items = t.items()
    elif isinstance(t, (list, tuple)):
        items = [(str(i), v) for i, v in enumerate(t)]
    else:
        return []
    out = []
    for k, v in items:
        out.append((pre + (k,), v))
        out += places(v, pre + (k,))
    return out


def lists(t):
    if isinstance(t, dict):
        return {k: lists(v) for k, v in t.items()}
    return [lists(v) for v in t] if isinstance(t, (list, tuple)) else t


def put(t, path, v):
    """new containers with one place replaced"""
    if not path:
        return v
    k = path[0]
    if isinstance(t, dict):
        return {a: put(b, path[1:], v) if a == k else b for a, b in t.items()}
    L = [put(b, path[1:], v) if str(i) == k else b for i, b in enumerate(t)]
    return tuple(L) if isinstance(t, tuple) else L


@R.scenario(quick=160, thorough=4000)
def paths(rng, mon):
    t = nested(rng)
    while not isinstance(t, (dict, list, tuple)):
        t = nested(rng)
    sep = G.pick(rng, [".", "/", "::"])
    mon.sig(str(t), sep)
    P = places(t)
    before = copy.deepcopy(t)
    for p, v in P:
        s = sep.join(p)
        mon.check(T.getitem_by_strpath(t, s, separator=sep) is v, "read", path=s, tree=t)
        mon.equal(T.getitem_by_strpath(t, s, separator=sep, return_remainder=True), (v, ""), "read-remainder")
        if not isinstance(v, (dict, list, tuple)):
            q = s + sep + "zz" + sep + "3"
            mon.raises(lambda: T.getitem_by_strpath(t, q, separator=sep), "too-long")
            mon.equal(T.getitem_by_strpath(t, q, separator=sep, allow_early_return=True, return_remainder=True), (v, "zz" + sep + "3"), "early-return")
    for kp, v in jax.tree_util.tree_flatten_with_path(t)[0]:
        s = jax.tree_util.keystr(kp, simple=True, separator=sep)
        mon.check(T.getitem_by_strpath(t, s, separator=sep) is v, "inverse-of-keystr", path=s)
    mon.check(T.getitem_by_strpath(t, "", separator=sep) is t, "empty-path")
    mon.raises(lambda: T.getitem_by_strpath(t, "nope", separator=sep), "unknown")
    mon.equal(t, before, "reading-changes-nothing")
    # make_mutable: tuples become lists, nothing else changes
    m = T.make_mutable(t)
    mon.check(same(m, lists(t)), "mutable", got=m, tree=t)
    # writing
    p, _ = G.pick(rng, P)
    x = G.pick(rng, [-7, [1, 2], {"q": 3}, None])
    c = copy.deepcopy(t)
    parent = c
    for k in p[:-1]:
        parent = parent[k if isinstance(parent, dict) else int(k)]
    if isinstance(parent, tuple):
        mon.raises(lambda: T.setitem_by_strpath(c, sep.join(p), x, separator=sep), "tuples-are-immutable", exc=TypeError)
        mon.check(same(c, t), "failed-write-changes-nothing")
    else:
        T.setitem_by_strpath(c, sep.join(p), x, separator=sep)
        mon.check(T.getitem_by_strpath(c, sep.join(p), separator=sep) is x, "read-back")
        mon.check(same(c, put(t, p, x)), "only-there", got=c, expected=put(t, p, x))
    mon.raises(lambda: T.setitem_by_strpath(c, "", 1, separator=sep), "empty-path-write")


def same(a, b):
    """equal values and container types"""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def grow(t, path, v):
    """independent model of extension: containers are created as needed"""
    k = path[0]
    if t is None:
        t = [] if k.isdigit() else {}
    if isinstance(t, dict):
        d = dict(t)
        d[k] = v if len(path) == 1 else grow(d.get(k), path[1:], v)
        return d
    i = int(k)
    L = list(t) + [None] * (i + 1 - len(t))
    L[i] = v if len(path) == 1 else grow(L[i], path[1:], v)
    return tuple(L) if isinstance(t, tuple) else L


@R.scenario(quick=160, thorough=4000)
def extend(rng, mon):
    t = nested(rng)
    while not isinstance(t, (dict, list, tuple)):
        t = nested(rng)
    sep = G.pick(rng, [".", "/"])
    # new places below existing containers
    cur, ps, vs = t, [], []
    if rng.rand() < 0.25:  # from nothing
        cur = None
    for j in range(int(rng.randint(1, 4))):
        spots = [()] if cur is None else [()] + [p for p, v in places(cur) if isinstance(v, (dict, list, tuple))]
        p = G.pick(rng, spots)
        node = cur
        for k in p:
            node = node[k if isinstance(node, dict) else int(k)]
        if node is None:
            first = G.pick(rng, ["a", "0", "1"])
        elif isinstance(node, dict):
            first = "new%d" % j
        else:
            first = str(len(node) + rng.randint(2))
        p = p + (first,) + tuple(G.pick(rng, ["k", "0", "1", "2"]) for _ in range(rng.randint(0, 3)))
        v = 100 + j
        cur = grow(cur, p, v)
        ps.append(sep.join(p))
        vs.append(v)
    # the container of a tree grown from nothing is chosen from all paths
    if vs and places(cur) and rng.randint(2):
        pass
    mon.sig(str(t), ps)
    base = copy.deepcopy(t)
    if len({v for _, v in places(cur) if isinstance(v, int) and v >= 100}) != len(vs):
        return  # a later path went through an earlier value
    starts = [p.split(sep)[0] for p in ps]
    if base_is_new := (t is not None and cur is not None and not contains(cur, t)):
        # grown from nothing
        if len({s.isdigit() for s in starts}) > 1:
            return
        got = T.extend_structure_from_strpaths(None, ps, separator=sep, fill_values=vs)
    else:
        got = T.extend_structure_from_strpaths(base, ps, separator=sep, fill_values=tuple(vs) if rng.randint(2) else vs)
    mon.check(same(got, cur), "extended", got=got, expected=cur, base=t, paths=ps)
    for p, v in zip(ps, vs):
        mon.equal(T.getitem_by_strpath(got, p, separator=sep), v, "extended-read")
    for p, v in places(got):
        if isinstance(v, int) and v < 100:
            mon.event("kept leaves")
    # existing values are not overwritten
    leafs = [(p, v) for p, v in places(got) if isinstance(v, int)]
    p, v = G.pick(rng, leafs)
    mon.raises(lambda: T.extend_structure_from_strpaths(copy.deepcopy(got), [sep.join(p)], separator=sep, fill_values=[v + 1]), "no-overwriting")
    mon.check(same(T.extend_structure_from_strpaths(copy.deepcopy(got), [sep.join(p)], separator=sep), got), "existing-path-kept")
    mon.raises(lambda: T.extend_structure_from_strpaths(copy.deepcopy(got), ps, separator=sep, fill_values=vs + [1]), "one-value-per-path")


def contains(big, small):
    """every leaf of small is at the same place in big"""
    b = dict(places(big))
    return type(big) is type(small) and all(p in b and (b[p] == v or isinstance(v, (dict, list, tuple))) for p, v in places(small))


# -- connection paths --------------------------------------------------------


@R.scenario(quick=160, thorough=4000)
def concrete(rng, mon):
    ks = G.pick(rng, [["0", "1", "2"], ["a", "b", "0"], ["0", "1", "a"], ["5", "0"], ["x1", "0"], ["10", "9", "1", "0"]])
    ps = [".".join(G.pick(rng, ks) for _ in range(rng.randint(0, 4))) for _ in range(rng.randint(1, 6))]
    mon.sig(ps)
    keep = list(ps)
    got = GU.concretize_paths(ps)
    mon.equal(ps, keep, "paths-unchanged")
    mon.equal(len(got), len(ps), "one-per-path")
    sp = [tuple(g.split(".")) if g else () for g in got]
    mon.equal(len(set(sp)), len(sp), "distinct", paths=ps, result=got)
    for i, a in enumerate(sp):
        for j, b in enumerate(sp):
            if i != j:
                mon.check(b[: len(a)] != a, "no-path-inside-another", paths=ps, got=got)
    for p, g in zip(ps, got):
        mon.check(g == p or p == "" or g.startswith(p + "."), "extends-its-path", path=p, got=g)
        clash = sum(1 for q in ps if q == p or p == "" or q.startswith(p + ".")) > 1
        mon.check(clash or g == p, "unneeded-change", path=p, got=g, paths=ps)
        if clash:
            mon.event("resolved clashes")
    # indices fill up from zero in order, around the ones that are taken
    for p in set(ps):
        mine = [g for g, q in zip(got, ps) if q == p]
        under = [q for q in ps if q != p and (p == "" or q.startswith(p + "."))]
        if len(mine) + len(under) < 2:
            continue
        pre = p + "." if p else ""
        taken = {q[len(pre):].split(".")[0] for q in under}
        if all(k.isdigit() for k in taken):
            free = [i for i in range(len(ps) + 20) if i not in {int(k) for k in taken}]
            mon.equal(mine, [pre + str(i) for i in free[: len(mine)]], "free-indices-in-order", paths=ps)
        else:
            new = [g[len(pre):] for g in mine]
            mon.check(all(k and "." not in k and k not in taken for k in new), "fresh-keys", paths=ps, result=got)


@R.scenario(quick=160, thorough=4000)
def ordering(rng, mon):
    """execution order of random graphs, with cycles and dead ends"""
    n = int(rng.randint(1, 8))
    names = [f"m{i}" for i in rng.permutation(n)]
    edges = set()
    for i, a in enumerate(names):
        if rng.rand() < 0.5 or i == 0:
            edges.add(("input", a))
        for b in names[i + 1:]:
            if rng.rand() < 0.35:
                edges.add((a, b))
        if rng.rand() < 0.4:
            edges.add((a, "output"))
    if rng.rand() < 0.25:
        edges.add((G.pick(rng, names), G.pick(rng, names)))  # perhaps a cycle
    edges = [sorted(edges)[i] for i in rng.permutation(len(edges))]
    graph = {}
    for a, b in edges:
        graph.setdefault(a, []).append(b)
    mon.sig(graph)
    succ = lambda x: [b for a, b in edges if a == x]
    pred = lambda x: [a for a, b in edges if b == x]

    def reach(x, f):
        seen, todo = set(), [x]
        while todo:
            y = todo.pop()
            if y not in seen:
                seen.add(y)
                todo += f(y)
        return seen

    fwd, back = reach("input", succ), reach("output", pred)
    use = fwd & back
    cyc = any(x in reach(y, succ) for x in use for y in succ(x) if y in use)
    # modules on the way to the output that cannot be given an input
    starving = any(p not in fwd for x in use for p in pred(x))
    if "output" not in fwd or cyc or starving:
        mon.raises(lambda: GU.resolve_connections(graph), "refused", f"{graph}")
        mon.event("refused graphs")
        return
    order, _ = GU.resolve_connections(graph)
    mon.equal(sorted(order), sorted(use), "exactly-the-needed", graph=graph)
    pos = {x: i for i, x in enumerate(order)}
    for a, b in edges:
        if a in use and b in use:
            mon.check(pos[a] < pos[b], "after-its-sources", a=a, b=b, order=order)
    mon.check(order[0] == "input" and order[-1] == "output", "ends", order=order)
    mon.event("ordered graphs")


def rand_axis(rng, nd):
    k = rng.randint(4)
    if k == 0:
        return None
    if k == 1:
        return int(rng.randint(-nd, nd))
    if k == 2:
        return tuple(int(a) for a in rng.randint(-nd, nd, rng.randint(1, nd + 1)))
    a, b = sorted(int(v) for v in rng.randint(0, nd + 1, 2))
    return slice(G.pick(rng, [None, a]), G.pick(rng, [None, b]))


def on_axis(s, axis):
    if axis is None:
        return tuple(s)
    if isinstance(axis, slice):
        return tuple(s[axis])
    return tuple(s[a] for a in ((axis,) if isinstance(axis, int) else axis))


@R.scenario(quick=60, thorough=1500)
def axis_predicates(rng, mon):
    """shapes compared along chosen axes, for every way to name them"""
    nd = int(rng.randint(1, 4))
    form = G.pick(rng, ["list", "dict", "tuple", "nested"])
    k = int(rng.randint(1, 4))

    def make(base, p):
        L = [
            tuple(int(rng.randint(1, 4)) if rng.rand() < p else d for d in base)
            for _ in range(k)
        ]
        z = [np.zeros(s) for s in L]
        t = {
            "list": lambda: z, "tuple": lambda: tuple(z),
            "dict": lambda: {c: v for c, v in zip("abc", z)},
            "nested": lambda: {"p": z[:1], "q": (z[1:],)},
        }[form]()
        return t, L

    base = tuple(int(v) for v in rng.randint(1, 4, nd))
    A, LA = make(base, G.pick(rng, [0, 0.15, 0.4]))
    B, LB = make(base, G.pick(rng, [0, 0.15, 0.4]))
    for i in range(9):
        if i % 3 == 1:  # the same sizes in another order
            B, LB = make([base[d] for d in rng.permutation(nd)], G.pick(rng, [0, 0.15]))
        elif i % 3 == 2:
            B, LB = make(base, G.pick(rng, [0, 0.15, 0.4]))
        ax = rand_axis(rng, nd)
        mon.sig(form, LA, LB, str(ax))
        sa, sb = [on_axis(s, ax) for s in LA], [on_axis(s, ax) for s in LB]
        mon.equal(jax.tree.leaves(T.get_shapes(A, ax), is_leaf=G.is_shape), sa, "shapes-on-axes", str(ax))
        mon.equal(T.shapes_equal(A, B, axis=ax), sa == sb, "shapes-equal-on-axes", f"{LA} {LB} {ax}")
        ua, ub = len(set(sa)) == 1, len(set(sb)) == 1
        mon.equal(T.has_uniform_leaf_shapes(A, axis=ax), ua, "uniform-on-axes", f"{LA} {ax}")
        mon.equal(T.uniform_leaf_shapes_equal(A, B, axis=ax), ua and ub and sa[0] == sb[0], "uniform-equal-on-axes", f"{LA} {LB} {ax}")
        mon.event("axes compared")
    mon.check(not T.shapes_equal(A, [A]) and not T.shapes_equal({"z": B}, B), "other-structure")
    # leaves that are no arrays
    t = {"n": int(rng.randint(3)), "s": G.pick(rng, ["u", "v"]), "x": [A, float(rng.randint(2))]}
    u = {"n": int(rng.randint(3)), "s": G.pick(rng, ["u", "v"]), "x": [A, float(rng.randint(2))]}
    mon.equal(T.all_equal(t, u), (t["n"], t["s"], t["x"][1]) == (u["n"], u["s"], u["x"][1]), "equal-mixed-leaves")
