"""C02: a non-sequential model evaluates exactly the graph its connections
describe, and refuses graphs that cannot be evaluated."""
import jax
import jax.numpy as np
import numpy as onp

import parametricmatrixmodels as pmm
import parametricmatrixmodels.modules as M
from parametricmatrixmodels import NonSequentialModel as NS
from vlib import gen as G
from vlib.core import Registry
from vlib.probes import Combine, Tag, Tally, Weights

R = Registry()
RULE = (
    "Random acyclic graphs of instrument modules (fan-in, fan-out, sub-tree"
    " routing, nested module containers, unused modules and inputs, awkward names"
    " and separators, shuffled declaration order); the oracle evaluates the"
    " connections with an independent NumPy interpreter."
)
NAMES = ["a", "b", "enc", "enc2", "inputs", "outputs", "input_net", "output1", "x1",
         "x10", "x2", "Z", "m_0", "in", "out", "aa", "k9", "k10"]


# -- independent interpreter -------------------------------------------------
def tree_get(t, path):
    for k in path:
        t = t[int(k)] if isinstance(t, (list, tuple)) else t[k]
    return t


def tree_build(entries):
    """entries: [(path list, value)], no path a prefix of another."""
    if len(entries) == 1 and not entries[0][0]:
        return entries[0][1]
    groups = {}
    for p, v in entries:
        groups.setdefault(p[0], []).append((p[1:], v))
    if all(k.isdigit() for k in groups):
        return [tree_build(groups[k]) for k in sorted(groups, key=int)]
    return {k: tree_build(v) for k, v in groups.items()}


def np_combine(kind, a, b, data):
    L = jax.tree.leaves(data)
    s = sum((i + 1) * a * x for i, x in enumerate(L)) + b
    return Combine.wrap(kind, onp.sin(s), onp.cos(s) + L[0])


def subpaths(t):
    """All paths to leaves and subtrees of a tree of arrays."""
    out = [[]]
    if isinstance(t, dict):
        for k, v in t.items():
            out += [[k] + p for p in subpaths(v)]
    elif isinstance(t, (list, tuple)):
        for i, v in enumerate(t):
            out += [[str(i)] + p for p in subpaths(v)]
    return out


def is_arr(x):
    return hasattr(x, "shape")


def rand_slots(rng, k):
    """k destination paths forming a full tree (no gaps in lists)."""
    if k == 1 and rng.rand() < 0.5:
        return [[]]
    mode = rng.randint(3)
    if mode == 0:
        return [[str(i)] for i in range(k)]
    if mode == 1:
        keys = [str(s) for s in rng.permutation(["q", "b", "z1", "z10", "z2", "input", "w"] + ["s%d" % i for i in range(max(0, k - 7))])[:k]]
        return [[s] for s in keys]
    h = max(1, k // 2)
    out = [["g", str(i)] for i in range(h)] + [["h", "y%d" % i] for i in range(k - h)]
    return out


def rand_graph(rng, nmods):
    """Returns (nodes, edges, X64, values, output) with nodes in topological
    order: node = (path, kind, a, b), edges = [(src path, dst path)]."""
    n, d = int(rng.randint(1, 5)), int(rng.randint(1, 4))
    ish = G.rand_shape_tree(rng, 2, shapef=lambda: (d,), leaf_p=0.4)
    X = G.data_for(rng, ish, n)
    vals = {("input",): G.t64(X)}
    style = rng.randint(4)
    names = [str(s) for s in rng.permutation(NAMES)[:nmods]]
    order = rng.permutation(nmods)
    if style == 0:  # list
        paths = [(str(i),) for i in order]
    elif style == 1:
        paths = [(s,) for s in names]
    elif style == 2:  # dict of lists
        h = nmods // 2
        paths = [("blk", str(i)) for i in range(h)] + [
            ("top", "in", s) for s in names[h:]
        ]
        paths = [paths[i] for i in order]
    else:  # list of dict / list
        h = max(1, nmods // 2)
        paths = [("0", s) for s in names[:h]] + [("1", str(i)) for i in range(nmods - h)]
        paths = [paths[i] for i in order]
    nodes, edges = [], []

    def sources():
        return [
            (k, p) for k, v in vals.items() for p in subpaths(v)
        ]

    for path in paths:
        a, b = float(onp.float32(rng.uniform(0.3, 1.2))), float(onp.float32(rng.randn()))
        kind = G.pick(rng, ["tag", "w", "arr", "dict", "list", "deep", "arr", "tally"])
        # a module that has been wired may only look at earlier values
        src = sources()
        if kind in ("tag", "w", "tally"):
            slots = [[]]
        else:
            slots = rand_slots(rng, int(rng.randint(1, 4)) if rng.rand() < 0.92 else 12)
        ins = []
        # use the most recent values often so that chains get deep
        for sl in slots:
            cand = src if rng.rand() < 0.4 else src[-max(3, len(src) // 3):]
            s = cand[rng.randint(len(cand))]
            ins.append((sl, s))
        data = tree_build([(sl, tree_get(vals[k], p)) for sl, (k, p) in ins])
        for sl, (k, p) in ins:
            edges.append((k + tuple(p), path + tuple(sl)))
        if kind == "tag":
            out = jax.tree.map(lambda x: onp.sin(a * x + b), data)
        elif kind == "w":
            out = jax.tree.map(lambda x: a * x + b, data)
        elif kind == "tally":
            out = data
        else:
            out = np_combine(kind, a, b, data)
        vals[path] = out
        nodes.append((path, kind, a, b, data))
    # model output
    ns = int(rng.randint(1, 4)) if rng.rand() < 0.9 else 11
    slots = rand_slots(rng, ns)
    src = sources()
    ins = []
    for i, sl in enumerate(slots):
        if i == 0:
            k = paths[-1]
            s = (k, G.pick(rng, subpaths(vals[k])))
        else:
            s = src[rng.randint(len(src))]
        ins.append((sl, s))
        edges.append((s[0] + tuple(s[1]), ("output",) + tuple(sl)))
    out = tree_build([(sl, tree_get(vals[k], p)) for sl, (k, p) in ins])
    # which modules feed the output at all
    return nodes, edges, ish, X, vals, out


def make(kind, a, b):
    if kind == "tag":
        return Tag(a, b)
    if kind == "w":
        return Weights(a, b)
    if kind == "tally":
        return Tally()
    return Combine(a, b, kind)


def container(entries):
    return tree_build([(list(p), m) for p, m in entries])


def connections(rng, edges, sep):
    edges = [edges[i] for i in rng.permutation(len(edges))]
    d = {}
    for s, t in edges:
        d.setdefault(sep.join(s), []).append(sep.join(t))
    return {
        k: (v[0] if len(v) == 1 and rng.rand() < 0.5 else (tuple(v) if rng.rand() < 0.3 else v))
        for k, v in d.items()
    }


def used_nodes(edges, nodes):
    """Nodes on a path to the output."""
    paths = {n[0] for n in nodes}

    def owner(p):
        for i in range(len(p), 0, -1):
            if p[:i] in paths or p[:i] in (("input",), ("output",)):
                return p[:i]

    back = {}
    for s, t in edges:
        back.setdefault(owner(t), set()).add(owner(s))
    seen, todo = set(), [("output",)]
    while todo:
        x = todo.pop()
        for y in back.get(x, ()):
            if y not in seen:
                seen.add(y)
                todo.append(y)
    return seen


@R.scenario(quick=180, thorough=700)
def random_dag(rng, mon):
    k = int(rng.randint(1, 8))
    nodes, edges, ish, X, vals, out = rand_graph(rng, k)
    sep = G.pick(rng, [".", ".", "/", "->", "__"])
    mods = container([(p, make(kd, a, b)) for p, kd, a, b, _ in nodes])
    conn = connections(rng, edges, sep)
    mon.sig(sep, sorted(map(str, edges)), [n[1] for n in nodes], jax.tree.structure(X))
    mon.desc(conn)
    m = NS(mods, conn, rng=0, separator=sep)
    m.compile(int(rng.randint(100)), ish)
    y, st = m(X, return_state=True)
    mon.tree_close(y, out, "graph", "output of the graph", rtol=2e-3, atol=2e-3)
    mon.equal(
        jax.tree.structure(m.output_shape, is_leaf=G.is_shape),
        jax.tree.structure(out),
        "output-structure",
    )
    # what each stateful module saw
    mon.equal(jax.tree.structure(st), jax.tree.structure(m.get_state()), "state-struct")
    for p, kd, a, b, data in nodes:
        if kd != "tally":
            continue
        s = onp.asarray(tree_get(st, p))
        L = jax.tree.leaves(data)
        ref = [L[0].shape[0], sum(x.sum() for x in L)]
        if p not in used_nodes(edges, nodes):
            # a module that is wired but does not lead to the output may or
            # may not be evaluated
            continue
        mon.close(s, onp.array(ref), "saw", "data a module was given", rtol=2e-3, atol=2e-2)
        mon.event("tally_observed")
    mon.event("modules", k)
    mon.event("edges", len(edges))


@R.scenario(quick=30, thorough=120)
def declaration_order(rng, mon):
    """The order in which connections and modules are listed is irrelevant."""
    k = int(rng.randint(2, 7))
    nodes, edges, ish, X, vals, out = rand_graph(rng, k)
    mon.sig(sorted(map(str, edges)), [n[1] for n in nodes])
    ys = []
    for r in range(3):
        perm = rng.permutation(k)
        mods = container([(nodes[i][0], make(*nodes[i][1:4])) for i in perm])
        m = NS(mods, connections(rng, edges, "."), rng=int(rng.randint(99)))
        m.compile(int(rng.randint(99)), ish)
        ys.append(m(X))
    for y in ys[1:]:
        mon.tree_close(y, ys[0], "order", "declaration order changed the result", rtol=1e-4)


@R.scenario(quick=24, thorough=80)
def sequential_equivalent(rng, mon):
    """A chain, spelled as list, named or nested, equals the sequential model."""
    p = int(rng.randint(1, 4))
    mods, w = G.rand_pipe(rng, p, rng.randint(2, 5))
    n = len(mods)
    seq = pmm.SequentialModel(list(mods), rng=0)
    seq.compile(int(rng.randint(100)), (p,))
    G.jitter_params(rng, seq)
    X = G.fa(rng, 4, p)
    ref = seq(X)
    names = [str(s) for s in rng.permutation(NAMES)[:n]]
    style = rng.randint(3)
    if style == 0:
        tree, paths = list(mods), [str(i) for i in range(n)]
    elif style == 1:
        tree, paths = dict(zip(names, mods)), names
    else:
        h = max(1, n // 2)
        tree = {"b1": list(mods[:h]), "b2": {"q": tuple(mods[h:])}}
        paths = [f"b1.{i}" for i in range(h)] + [f"b2.q.{i}" for i in range(n - h)]
    chain = ["input"] + paths + ["output"]
    conn = {a: b for a, b in zip(chain[:-1], chain[1:])}
    items = [list(conn.items())[i] for i in rng.permutation(len(conn))]
    mon.sig(style, G.names(mods), p)
    m = NS(tree, dict(items), rng=0)
    m.compile(0, (p,))
    mon.close(m(X), ref, "chain", rtol=1e-3)
    mon.equal(m.output_shape, seq.output_shape, "chain-shape")


@R.scenario(quick=60, thorough=200)
def implicit_fan_in(rng, mon):
    """Several connections to the same place arrive as a list, in the order of
    the connections; explicit positions are respected and the others filled
    up in that order."""
    k = int(rng.randint(10, 15)) if rng.rand() < 0.5 else int(rng.randint(2, 6))
    X = G.fa(rng, 3, 2)
    ab = rng.uniform(0.3, 1.2, size=(k, 2)).astype("float32")
    names = ["f%d" % i for i in rng.permutation(30)[:k]]
    to_out = bool(rng.randint(2))
    mods = {s: Tag(float(a), float(b)) for s, (a, b) in zip(names, ab)}
    dst = "output" if to_out else "cc"
    prefix = G.pick(rng, ["", ".g", ".g.h"])
    dst += prefix
    conn = {"input": names}
    if not to_out:
        mods["cc"] = Combine(0.7, 0.1, "arr")
        conn["cc"] = "output"
    order = [int(i) for i in rng.permutation(k)]
    # some positions are given explicitly
    pos = {}
    if rng.rand() < 0.4:
        e = int(rng.randint(1, k))
        for i, p in zip(rng.permutation(k)[:e], rng.permutation(k)[:e]):
            pos[int(i)] = int(p)
    free = iter(sorted(set(range(k)) - set(pos.values())))
    place = {i: pos[i] if i in pos else None for i in order}
    for i in order:
        conn[names[i]] = dst + (".%d" % pos[i] if i in pos else "")
        if place[i] is None:
            place[i] = next(free)
    mon.sig(k, to_out, names, order, sorted(pos.items()), prefix)
    m = NS(mods, conn, rng=0)
    m.compile(0, (2,))
    y = m(X)
    L = [None] * k
    for i in order:
        L[place[i]] = onp.sin(float(ab[i][0]) * G.n64(X) + float(ab[i][1]))
    if to_out:
        for part in prefix.split(".")[1:]:
            y = y[part]
        mon.equal(len(y), k, "fan-in-count")
        for g, w in zip(y, L):
            mon.close(g, w, "fan-in", rtol=1e-3, atol=1e-4)
    else:
        data = L
        for part in reversed(prefix.split(".")[1:]):
            data = {part: data}
        ref = np_combine("arr", float(onp.float32(0.7)), float(onp.float32(0.1)), data)
        mon.close(y, ref, "fan-in", rtol=1e-3, atol=1e-3)


@R.scenario(quick=6, thorough=60)
def nested_models(rng, mon):
    """Graph models nest, and compose with sequential models."""
    X = G.fa(rng, 3, 2)
    a = rng.uniform(0.4, 1.3, size=(4, 2)).astype("float32")
    inner = NS(
        {"p": Tag(*map(float, a[0])), "q": Tag(*map(float, a[1]))},
        {"input": ["p", "q"], "p": "output.u", "q": "output.v"},
        rng=0,
    )
    seq = pmm.SequentialModel([Tag(*map(float, a[2])), Weights(*map(float, a[3]))], rng=0)
    flip = bool(rng.randint(2))
    conn = {
        "input": ["n", "s"],
        "n.u": "output.0" if flip else "c.x",
        "n.v": "c.y",
        "s": "c.z",
        "c": "output.1" if flip else "output",
    }
    mods = {"n": inner, "s": seq, "c": Combine(0.5, 0.2, "arr")}
    mon.sig(flip, a.tolist())
    m = NS(mods, conn, rng=0)
    m.compile(0, (2,))
    y = m(X)
    x = G.n64(X)
    u, v = (onp.sin(float(p) * x + float(q)) for p, q in a[:2])
    s = float(a[3][0]) * onp.sin(float(a[2][0]) * x + float(a[2][1])) + float(a[3][1])
    f = lambda t: np_combine("arr", 0.5, float(onp.float32(0.2)), t)
    ref = [u, f({"y": v, "z": s})] if flip else f({"x": u, "y": v, "z": s})
    mon.tree_close(y, ref, "nested-graph", rtol=1e-3, atol=1e-3)


@R.scenario(quick=42, thorough=140)
def refused(rng, mon):
    """Graphs that cannot be evaluated are refused, never silently evaluated."""
    k = int(rng.randint(2, 6))
    names = [str(s) for s in rng.permutation(NAMES)[:k]]
    mods = {s: Weights(float(rng.rand()), 0.1) for s in names}
    chain = ["input"] + names + ["output"]
    conn = {a: [b] for a, b in zip(chain[:-1], chain[1:])}
    kind = G.pick(rng, ["cycle", "cycle-comb", "no-output", "unknown", "reserved", "no-input", "unreached"])
    ish = (2,)
    # control: the intact chain is accepted
    ok = NS(dict(mods), dict(conn), rng=0)
    ok.compile(0, ish)
    mon.equal(ok(G.fa(rng, 3, 2)).shape, (3, 2), "control")
    if kind == "cycle":
        i, j = sorted(rng.randint(0, k, size=2))
        # back edge makes node i wait for node j >= i
        conn[names[j]] = conn[names[j]] + [names[i] + ".extra"]
        src = chain[chain.index(names[i]) - 1]
        conn[src] = [names[i] + ".x"]
    elif kind == "cycle-comb":
        mods = {s: Combine(0.5, 0.1) for s in names}
        conn[names[-1]] = ["output", names[0] + ".b"]
        conn["input"] = [names[0] + ".a"]
    elif kind == "no-output":
        conn.pop(names[-1])
    elif kind == "unknown":
        i = rng.randint(0, k)
        conn[chain[i]] = ["nosuchmodule"] if rng.randint(2) else conn[chain[i]] + ["nosuchmodule"]
    elif kind == "reserved":
        bad = G.pick(rng, ["input", "output"])
        mods[bad] = Weights()
    elif kind == "no-input":
        conn.pop("input")
    else:  # the output depends on a module nothing feeds
        mods["zz_lonely"] = Weights()
        conn["zz_lonely"] = ["output.1"]
        conn[names[-1]] = ["output.0"]
    mon.sig(kind, k, names)

    def go():
        m = NS(mods, conn, rng=0)
        m.compile(0, ish)
        return m(G.fa(rng, 3, 2))

    mon.raises(go, "refuse-" + kind, "invalid graph accepted")
