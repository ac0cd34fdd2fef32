"""C20: editing the modules of a model, in lock step with plain containers."""
import copy

import jax
import jax.numpy as np
import numpy as onp

import parametricmatrixmodels as pmm
import parametricmatrixmodels.modules as M
from vlib import gen as G, snap as S
from vlib.core import Registry
from vlib.probes import Tag

R = Registry()
RULE = (
    "Random edit scripts run against a model and against a plain Python list, tuple or"
    " dict of the same module objects; after each step the containers hold the same"
    " objects in the same places, failing edits fail on both and change nothing, and"
    " compiled models predict what the remaining modules compute."
)


def tag(rng):
    return Tag(float(rng.uniform(0.4, 1.6)), float(rng.randn()))


def same(a, b):
    """same container types and identical modules"""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a is b


def clone(t):
    """new containers, same modules"""
    if isinstance(t, dict):
        return {k: clone(v) for k, v in t.items()}
    return type(t)(clone(v) for v in t) if isinstance(t, (list, tuple)) else t


def flat(t):
    if isinstance(t, dict):
        return [m for k in t for m in flat(t[k])]
    return [m for v in t for m in flat(v)] if isinstance(t, (list, tuple)) else [t]


def attempt(f):
    try:
        return True, f()
    except Exception as e:  # noqa: BLE001
        return False, e


class Ref:
    """what the edits should do, on a plain container"""

    def __init__(self, t):
        self.t = t

    def insert(self, i, m, key):
        if isinstance(self.t, dict):
            if key in self.t:
                raise KeyError(key)
            L = list(self.t.items())
            L.insert(i, (key, m))
            self.t = dict(L)
        else:
            L = list(self.t)
            L.insert(i, m)
            self.t = type(self.t)(L)

    def pop(self, k):
        if isinstance(self.t, dict):
            if not isinstance(k, str):
                raise KeyError(k)
            return self.t.pop(k)
        if isinstance(k, str):
            raise KeyError(k)
        return self.pop_index(k)

    def pop_index(self, i):
        L = list(self.t.items()) if isinstance(self.t, dict) else list(self.t)
        x = L.pop(i)
        self.t = type(self.t)(L)
        return x[1] if isinstance(self.t, dict) else x

    def set(self, k, m):
        if k is None:
            self.t = m if isinstance(m, (list, tuple, dict)) else [m]
        elif isinstance(k, tuple):
            c = self.t
            for x in k[:-1]:
                c = c[x]
            c[k[-1]] = m
        elif isinstance(self.t, dict):
            if not isinstance(k, str):
                raise KeyError(k)
            self.t[k] = m
        elif isinstance(self.t, tuple):
            L = list(self.t)
            L[k] = m
            self.t = tuple(L)
        else:
            self.t[k] = m

    def get(self, k):
        if k is None:
            return self.t
        if isinstance(k, tuple):
            c = self.t
            for x in k:
                c = c[x]
            return c
        if isinstance(self.t, dict) != isinstance(k, str):
            raise KeyError(k)
        return self.t[k]


def container(rng):
    kind = G.pick(rng, ["list", "tuple", "dict", "nested", "empty", "single"])
    n = int(rng.randint(1, 5))
    mods = [tag(rng) for _ in range(n)]
    if kind == "list":
        return kind, mods
    if kind == "tuple":
        return kind, tuple(mods)
    if kind == "dict":
        return kind, {f"m{i}": m for i, m in zip(rng.permutation(n), mods)}
    if kind == "empty":
        return kind, []
    if kind == "single":
        return kind, [mods[0]]
    inner = mods if rng.randint(2) else tuple(mods)
    t = [inner, tag(rng), {"a": tag(rng), "b": [tag(rng)]}]
    if rng.randint(3) == 0:
        t.insert(int(rng.randint(3)), [])
    return kind, t


def rand_key(rng, t, ref):
    """keys of all forms, mostly valid ones"""
    if rng.rand() < 0.12:
        return G.pick(rng, [99, -99, "nope", None])
    if isinstance(t, dict):
        return G.pick(rng, list(t)) if t and rng.rand() < 0.85 else int(rng.randint(-1, 2))
    n = len(t)
    r = rng.rand()
    if r < 0.3 and n:
        path, c = [], t
        while isinstance(c, (list, tuple, dict)) and len(c) and (not path or rng.randint(2)):
            k = G.pick(rng, list(c)) if isinstance(c, dict) else int(rng.randint(-len(c), len(c)))
            path.append(k)
            c = c[k]
        return tuple(path)
    if r < 0.5:
        a, b = sorted(rng.randint(-1, n + 2, size=2))
        return slice(int(a), int(b)) if rng.randint(2) else slice(None, None, 2)
    return int(rng.randint(-n - 1, n + 1)) if n else 0


@R.scenario(quick=400, thorough=5000)
def script(rng, mon):
    kind, t = container(rng)
    ref = Ref(clone(t))
    if kind == "single":
        model = pmm.SequentialModel(t[0], rng=1)
    elif kind == "empty":
        model = pmm.SequentialModel(rng=1) if rng.randint(2) else pmm.SequentialModel([], rng=1)
    else:
        model = pmm.SequentialModel(clone(t), rng=1)
    mon.check(same(model.modules, ref.t), "initial", modules=model.modules)
    mon.sig(kind, len(t))
    for _ in range(int(rng.randint(4, 13))):
        op = G.pick(rng, ["insert", "append", "prepend", "pop", "pop_index", "set", "get", "get"])
        m = tag(rng)
        key = None
        if isinstance(ref.t, dict):
            key = G.pick(rng, ["k%d" % rng.randint(6), "m0"])
        before = clone(ref.t)
        names = dict(insert=["insert_module", "insert"], append=["append_module", "append", "add", "add_module"], prepend=["prepend_module", "prepend"], pop=["pop_module_by_key", "pop"])
        name = G.pick(rng, names.get(op, [op]))
        kw = {"key": key} if key is not None else {}
        if op in ("insert", "append", "prepend"):
            i = dict(append=len(ref.t), prepend=0).get(op)
            i = int(rng.randint(-len(ref.t) - 2, len(ref.t) + 3)) if i is None else i
            if op == "insert":
                f, g = lambda: getattr(model, name)(i, m, **kw), lambda: ref.insert(i, m, key)
            else:
                f, g = lambda: getattr(model, name)(m, **kw), lambda: ref.insert(i, m, key)
            arg = (i, key)
        elif op == "pop":
            k = rand_key(rng, ref.t, ref)
            if not isinstance(k, (int, str)):
                continue
            f, g, arg = lambda: getattr(model, name)(k), lambda: ref.pop(k), k
        elif op == "pop_index":
            k = int(rng.randint(-len(ref.t) - 1, len(ref.t) + 1))
            f, g, arg = lambda: model.pop_module_by_index(k), lambda: ref.pop_index(k), k
        elif op == "set":
            k = rand_key(rng, ref.t, ref)
            v = [tag(rng) for _ in range(rng.randint(0, 3))] if isinstance(k, slice) else m
            if k is None:
                v = G.pick(rng, [m, [m, tag(rng)], (m,)])
            v2 = clone(v) if not isinstance(v, Tag) else v
            f, g, arg = lambda: model.__setitem__(k, v), lambda: ref.set(k, v2), k
        else:
            k = rand_key(rng, ref.t, ref)
            f, g, arg = lambda: model[k], lambda: ref.get(k), k
        mon.sig(op, str(arg))
        ok1, r1 = attempt(f)
        ok2, r2 = attempt(g)
        mon.check(ok1 == ok2, "fails-alike", op, arg=arg, before=before, model=r1, plain=r2)
        mon.event(("op:" if ok1 else "refused:") + op)
        if ok1 and op in ("pop", "pop_index", "get"):
            mon.check(same(r1, r2), "returned", op, arg=arg)
        if not ok1:
            mon.check(same(model.modules, before), "refused-edit-changes-nothing", op, arg=arg, modules=model.modules)
            ref.t = clone(before)
        mon.check(same(model.modules, ref.t), "edited", op, arg=arg, before=before, now=model.modules, want=ref.t)
        if op != "get" and ok1:
            mon.check(not model.is_ready(), "not-ready")
    if isinstance(ref.t, dict):
        # without a key a new one is made up
        n = len(ref.t)
        m = tag(rng)
        (model.append if rng.randint(2) else model.prepend)(m)
        new = [k for k in model.modules if k not in ref.t]
        mon.check(len(new) == 1 and model.modules[new[0]] is m and len(model.modules) == n + 1, "generated-key")
        mon.check(all(model.modules[k] is v for k, v in ref.t.items()), "others-kept")
        return
    if not flat(ref.t) or any(isinstance(x, dict) for x in ref.t):
        return
    # it computes what the remaining modules compute
    X = G.fa(rng, 3, 2)
    model.compile(0, (2,))
    y = G.n64(X)
    for m in flat(ref.t):
        a, b = G.n64(m.get_params())
        y = onp.sin(a * y + b)
    mon.close(model(X), y, "predicts", rtol=1e-4, atol=1e-5)


def rich(rng):
    k = rng.randint(5)
    if k == 0:
        return M.Bias(init_magnitude=0.5)
    if k == 1:
        return M.MatMul(output_shape=2, trainable=True, init_magnitude=0.6)
    if k == 2:
        return M.LinearNN(2, init_magnitude=0.5, bias=bool(rng.randint(2)))
    if k == 3:
        return M.PReLU()
    return M.AEPMM(matrix_size=3, num_eig=2, which="SA", init_magnitude=0.5)


@R.scenario(quick=80, thorough=600)
def compiled(rng, mon):
    """modules of compiled models keep their parameters through edits"""
    mods = [rich(rng) for _ in range(int(rng.randint(1, 4)))]
    tup = bool(rng.randint(2))
    model = pmm.SequentialModel(tuple(mods) if tup else list(mods), rng=1)
    model.compile(int(rng.randint(100)), (2,))
    G.jitter_params(rng, model)
    mon.sig(G.names(mods), tup)
    X = G.fa(rng, 3, 2)
    for _ in range(int(rng.randint(1, 4))):
        model(X)
        before = {id(m): S.snap(m) for m in model.modules}
        op = G.pick(rng, ["insert", "append", "prepend", "pop", "set"])
        i = int(rng.randint(len(model.modules)))
        m = rich(rng)
        if op == "insert":
            model.insert(i, m)
        elif op == "append":
            model.append(m)
        elif op == "prepend":
            model.prepend(m)
        elif op == "pop":
            if len(model.modules) == 1:
                continue
            model.pop(i)
        else:
            model[i] = m
        mon.sig(op, i)
        mon.event("op:" + op)
        for x in model.modules:
            if id(x) in before:
                S.same(mon, S.snap(x), before[id(x)], "kept-by-edit", op)
        mon.check(not model.is_ready(), "not-ready")
        mon.raises(lambda: model(X), "needs-compile", op)
        model.compile(int(rng.randint(100)), (2,))
        for x in model.modules:
            if id(x) in before:
                S.same(mon, S.snap(x), before[id(x)], "kept-by-compile", op)
        y = X
        for x in model.modules:
            y = x(y)[0] if not isinstance(x, pmm.Model) else x(y)
        mon.close(model(X), onp.asarray(y), "predicts", op, rtol=1e-4, atol=1e-5)


@R.scenario(quick=100, thorough=800)
def plus(rng, mon):
    kind = G.pick(rng, ["list", "tuple", "dict"])
    mods = [rich(rng) if rng.randint(2) else tag(rng) for _ in range(int(rng.randint(1, 4)))]
    t = {"list": mods, "tuple": tuple(mods), "dict": {f"m{i}": m for i, m in enumerate(mods)}}[kind]
    keep = clone(t)
    a = pmm.SequentialModel(t, rng=3)
    done = bool(rng.randint(2))
    if done:
        a.compile(1, (2,))
    b = pmm.SequentialModel([tag(rng)], rng=4) if rng.randint(2) else tag(rng)
    mon.sig(kind, G.names(mods), type(b).__name__, done)
    sa, sb = S.snap(a), S.snap(b)
    c = a + b
    mon.check(c is not a and isinstance(c, pmm.SequentialModel), "new-model")
    mon.check(same(a.modules, keep) and same(t, keep), "left-operand-kept", modules=a.modules)
    S.same(mon, S.snap(a), sa, "left-operand-kept")
    S.same(mon, S.snap(b), sb, "right-operand-kept")
    got = list(c.modules.values()) if kind == "dict" else list(c.modules)
    mon.check(len(got) == len(mods) + 1 and all(x is y for x, y in zip(got, mods + [b])), "appended", modules=c.modules)
    mon.check(type(c.modules) is type(a.modules), "container-kind")
    d = c + tag(rng)
    mon.equal(len(c.modules), len(mods) + 1, "chained")
    mon.equal(len(d.modules), len(mods) + 2, "chained")
    if kind != "dict":
        c.compile(2, (2,))
        X = G.fa(rng, 3, 2)
        y = X
        for x in c.modules:
            y = x(y)[0] if not isinstance(x, pmm.Model) else x(y)
        mon.close(c(X), onp.asarray(y), "predicts", rtol=1e-4, atol=1e-5)


@R.scenario(quick=60, thorough=500)
def graphs(rng, mon):
    """modules of graph models are replaced, added and removed by name"""
    mods = {"a": tag(rng), "b": tag(rng), "c": tag(rng)}
    conns = {"input": "a", "a": "b", "b": "c", "c": "output"}
    if rng.randint(2):
        conns = {"input": ["a", "c"], "a": "b", "b": "output.x", "c": "output.y"}
    m = pmm.NonSequentialModel(dict(mods), copy.deepcopy(conns), rng=1)
    m.compile(0, (2,))
    X = G.fa(rng, 2, 2)
    cur = dict(mods)
    f = lambda k, x: onp.sin(G.n64(cur[k].get_params())[0] * x + G.n64(cur[k].get_params())[1])
    mon.sig(sorted(conns))
    for _ in range(int(rng.randint(1, 4))):
        m(X)
        k = G.pick(rng, ["a", "b", "c"])
        n = tag(rng)
        op = G.pick(rng, ["set", "extra", "popadd"])
        mon.sig(op, k)
        mon.event("op:" + op)
        if op == "set":
            m[k] = n
            cur[k] = n
        elif op == "extra":  # not connected: no effect
            e = "e%d" % rng.randint(1 << 20)
            m.append(n, key=e)
            mon.check(m[e] is n, "added")
        else:
            mon.check(m.pop(k) is cur[k], "popped")
            mon.check(k not in m.modules, "popped")
            mon.raises(lambda: m.compile(0, (2,)), "missing-module")
            m.insert(int(rng.randint(3)), n, key=k)
            cur[k] = n
        mon.check(not m.is_ready(), "not-ready")
        m.compile(0, (2,))
        mon.check(all(m[q] is v for q, v in cur.items()), "modules")
        x = G.n64(X)
        if conns["input"] == "a":
            mon.close(m(X), f("c", f("b", f("a", x))), "predicts", rtol=1e-4, atol=1e-5)
        else:
            y = m(X)
            mon.close(y["x"], f("b", f("a", x)), "predicts", rtol=1e-4, atol=1e-5)
            mon.close(y["y"], f("c", x), "predicts", rtol=1e-4, atol=1e-5)
