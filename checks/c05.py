"""C05: saving, serializing or copying a model loses nothing."""
import os
import pathlib
import pickle
import shutil
import subprocess
import sys
import tempfile

import jax
import jax.numpy as np
import numpy as onp

import parametricmatrixmodels as pmm
import parametricmatrixmodels.modules as M
from vlib import catalog as C
from vlib import gen as G
from vlib import snap as S
from vlib.core import Registry, Skip

R = Registry()
RULE = (
    "Random models (flat, nested, graph, with frozen parts, states, random keys and"
    " names) with a random history of training and parameter changes, stored and"
    " restored in every documented way; original and restored model are then run side"
    " by side (prediction, gradients, further training) and compared bit by bit."
)


class scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="c05_")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d)


def store(rng, m, d):
    """store in one of the documented ways; returns a loader into a new model"""
    comp = bool(rng.randint(2))
    save = m.save_compressed if comp else m.save
    how = G.pick(rng, ["name", "name.npz", "path", "path.npz", "handle", "serialize", "copy", "deepcopy"])
    cls = type(m)
    if how in ("serialize", "copy", "deepcopy"):
        if how == "serialize":
            data = m.serialize()

            def load(target=None):
                t = cls() if target is None else target
                t.deserialize(data)
                return t

            return how, load
        c = getattr(m, how)()
        return how, lambda target=None: c
    base = os.path.join(d, G.pick(rng, ["model", "my.model", "a b"]))
    if how.startswith("name"):
        f = base + (".npz" if how.endswith("npz") else "")
        save(f)
        g = f
    elif how.startswith("path"):
        f = pathlib.Path(base + (".npz" if how.endswith("npz") else ""))
        save(f)
        g = f
    else:
        with open(base + ".npz", "wb") as h:
            save(h)
        g = base + ".npz"
    if rng.randint(2):
        g = str(g) if isinstance(g, pathlib.Path) else pathlib.Path(g)

    def load(target=None):
        if target is not None:
            target.load(g)
            return target
        return cls.from_file(g)

    return f"{how} compressed={comp}", load


def history(rng, m, shape, w):
    """random things that happened to the model before it is stored"""
    X = G.data_for(rng, shape, 5)
    Y = G.fa(rng, 5, w)
    log = []
    for _ in range(rng.randint(0, 4)):
        k = rng.randint(5)
        if k == 0:
            G.jitter_params(rng, m)
            log.append("params")
        elif k == 1 and trains(m):
            m.train(X, Y, epochs=int(rng.randint(1, 4)), batch_size=int(rng.randint(1, 6)), verbose=False, batch_rng=int(rng.randint(99)), lr=0.01)
            log.append("train")
        elif k == 2:
            m.set_rng(int(rng.randint(1000)))
            log.append("rng")
        elif k == 3:
            mods = [s for s in jax.tree.leaves(m.modules)]
            s = G.pick(rng, mods)
            s.trainable = not s.trainable
            log.append("flag")
        else:
            m.name = G.pick(rng, ["my model", "x/y", "α"])
            log.append("name")
    return X, Y, log


def trains(m):
    flags = jax.tree.leaves(jax.tree.broadcast(m.get_trainable_modules(), m.get_params()))
    return bool(jax.tree.leaves(m.get_params())) and any(flags)


def side_by_side(rng, mon, a, b, X, Y, key, trained, grads=True, train=True):
    n = int(rng.randint(1000))
    mon.tree_same(b(X, rng=n), a(X, rng=n), key + "-predict")
    mon.tree_same(b(X), a(X), key + "-predict-own-key")
    if grads and jax.tree.leaves(a.get_params()):
        fwd = bool(rng.randint(2))
        mon.tree_same(b.grad_input(X, rng=n), a.grad_input(X, rng=n), key + "-grad-input")
        if not G.complexes(a):
            mon.tree_same(b.grad_params(X, rng=n, fwd=fwd), a.grad_params(X, rng=n, fwd=fwd), key + "-grad-params")
    if train and trains(a):
        kw = dict(epochs=2, batch_size=2, verbose=False, batch_rng=7, lr=0.02)
        if trained and rng.rand() < 0.6:
            kw["resume"] = True
            mon.event("resumed")
        a.train(X, Y, **kw)
        b.train(X, Y, **kw)
        mon.tree_same(b.get_params(), a.get_params(), key + "-train", str(kw.get("resume")))
        mon.tree_same(b.get_state(), a.get_state(), key + "-train-state")
        mon.tree_same(jax.random.key_data(b.get_rng()), jax.random.key_data(a.get_rng()), key + "-train-key")


@R.scenario(quick=36, thorough=450)
def models(rng, mon):
    m, shape, w, kind = G.rand_model(rng, stateful=True, noise=True)
    m.compile(int(rng.randint(1000)), shape)
    X, Y, log = history(rng, m, shape, w)
    before = S.snap(m)
    with scratch() as d:
        how, load = store(rng, m, d)
        mon.sig(kind, G.names(m.modules), how, log)
        mon.event("way:" + how.split()[0])
        S.same(mon, S.snap(m), before, "saving-changes-nothing", how)
        target = None
        if rng.rand() < 0.3 and not how.endswith("copy"):
            # load into an object that was something else before
            target = type(m)()
            if isinstance(m, pmm.SequentialModel):
                target = type(m)([M.LinearNN(2), M.Tanh()], rng=5)
                target.compile(1, (2,))
                target(G.fa(rng, 2, 2))
                mon.event("loaded over another model")
        r = load(target)
        S.same(mon, S.snap(r), before, "restored", how)
        mon.check(r.is_ready(), "restored-ready")
        if rng.randint(2):
            # restored twice from the same data
            S.same(mon, S.snap(load()), before, "restored-twice", how)
        side_by_side(rng, mon, m, r, X, Y, "run", "train" in log)


@R.scenario(quick=50, thorough=900)
def module_catalogue(rng, mon):
    """Every module alone and inside a saved model."""
    e = G.cycle(rng, C.ALL)(rng)
    m = e["module"]
    m.compile(jax.random.key(int(rng.randint(1000))), e["shape"])
    if rng.rand() < 0.6:
        C.params_jitter(rng, m)
    if rng.rand() < 0.3:
        m.trainable = not m.trainable
    X = e["x"](rng, 3)
    mon.sig(e["name"], e["shape"])
    mon.event("module:" + type(m).__name__)
    before = S.snap(m)
    run = lambda q: q(X) if isinstance(q, pmm.Model) else q(X, state=q.get_state(), rng=jax.random.key(1))[0]
    y = run(m)
    k = rng.randint(3)
    if k == 0:
        r = m.copy()
    elif k == 1:
        r = type(m)()
        r.deserialize(m.serialize())
    else:
        with scratch() as d:
            f = os.path.join(d, "m")
            s = pmm.SequentialModel([m], rng=0)
            try:
                s.compile(0, e["shape"])
            except ValueError as err:
                if "at least one non-batch dimension" in str(err):
                    raise Skip()
                raise
            before = S.snap(m)
            y = run(m)
            (s.save if rng.randint(2) else s.save_compressed)(f)
            r = pmm.SequentialModel.from_file(f)
            S.same(mon, S.snap(r), S.snap(s), "module-in-file", e["name"])
            r = jax.tree.leaves(r.modules)[0]
    mon.equal(type(r), type(m), "module-type")
    S.same(mon, S.snap(r), before, "module-restored", e["name"])
    mon.tree_same(run(r), y, "module-output", e["name"])
    mon.equal(
        str(r.get_output_shape(e["shape"])), str(m.get_output_shape(e["shape"])), "module-shape", e["name"]
    )


@R.scenario(quick=20, thorough=250)
def independent(rng, mon):
    """A copy or restored model and the original share nothing."""
    m, shape, w, kind = G.rand_model(rng, stateful=True)
    m.compile(int(rng.randint(1000)), shape)
    X, Y, log = history(rng, m, shape, w)
    with scratch() as d:
        how, load = store(rng, m, d)
        r = load()
    pair = [m, r]
    if rng.randint(2):
        pair.reverse()
    changed, kept = pair
    before, y = S.snap(kept), kept(X)
    ops = []
    for _ in range(rng.randint(1, 4)):
        k = rng.randint(9)
        if k == 0:
            G.jitter_params(rng, changed)
        elif k == 1 and changed.is_ready() and trains(changed):
            changed.train(X, Y, epochs=2, batch_size=2, verbose=False)
        elif k == 2:
            changed.trainable = bool(rng.randint(2))
        elif k == 3:
            changed.set_rng(5)
        elif k == 4:
            changed.name = "other"
        elif k == 5 and isinstance(changed, pmm.SequentialModel):
            changed.append_module(M.Tanh())
            changed.compile(0, shape)
        elif k == 6:
            s = G.pick(rng, jax.tree.leaves(changed.modules))
            s.trainable = not s.trainable
        elif k == 7 and changed.is_ready():
            changed(X, update_state=True)
        elif k == 8:
            changed.set_state(jax.tree.map(lambda s: s + 1, changed.get_state()))
        else:
            continue
        ops.append(int(k))
    mon.sig(kind, G.names(m.modules), how, ops)
    if not ops:
        raise Skip()
    S.same(mon, S.snap(kept), before, "independent", f"{how} {ops}")
    mon.tree_same(kept(X), y, "independent-output", f"{how} {ops}")


CHILD = """
import pickle, sys
sys.path[:0] = ['/verif']
import jax
import parametricmatrixmodels as pmm, numpy as onp
import vlib.probes
from vlib import snap as S
jobs = pickle.load(open(sys.argv[1], 'rb'))
out = []
for cls, f, X, Y, resume in jobs:
    m = getattr(pmm, cls).from_file(f)
    r = dict(snap=S.snap(m), y=onp.asarray(m(X, rng=3)))
    if resume is not None:
        m.train(X, Y, epochs=2, batch_size=2, verbose=False, batch_rng=7, lr=0.02, resume=resume)
        r['trained'] = S.tree(m.get_params())
    out.append(r)
pickle.dump(out, open(sys.argv[1] + '.out', 'wb'))
"""


@R.scenario(quick=2, thorough=12, timeout=500)
def other_process(rng, mon):
    with scratch() as d:
        jobs, want = [], []
        for i in range(5):
            m, shape, w, kind = G.rand_model(rng, stateful=True, noise=True)
            m.compile(int(rng.randint(1000)), shape)
            X, Y, log = history(rng, m, shape, w)
            f = os.path.join(d, f"m{i}")
            (m.save if rng.randint(2) else m.save_compressed)(f)
            mon.sig(kind, G.names(m.modules), log)
            r = dict(snap=S.snap(m), y=onp.asarray(m(X, rng=3)))
            resume = None
            if trains(m):
                resume = "train" in log and bool(rng.randint(2))
                m.train(X, Y, epochs=2, batch_size=2, verbose=False, batch_rng=7, lr=0.02, resume=resume)
                r["trained"] = S.tree(m.get_params())
            jobs.append((type(m).__name__, f, jax.tree.map(onp.asarray, X), onp.asarray(Y), resume))
            want.append(r)
        jf = os.path.join(d, "jobs")
        # the child gets jax arrays of its own
        with open(jf, "wb") as h:
            pickle.dump(jobs, h)
        code = CHILD.replace("m(X, rng=3)", "m(X, rng=3)").replace(
            "for cls, f, X, Y, resume in jobs:",
            "for cls, f, X, Y, resume in jobs:\n    X, Y = jax.tree.map(jax.numpy.asarray, (X, Y))",
        )
        env = dict(os.environ, JAX_ENABLE_X64="0")
        p = subprocess.run([sys.executable, "-c", code, jf], capture_output=True, text=True, env=env, timeout=400)
        mon.check(p.returncode == 0, "process-loads", stderr=p.stderr[-1500:])
        with open(jf + ".out", "rb") as h:
            got = pickle.load(h)
    for g, w_ in zip(got, want):
        S.same(mon, g["snap"], w_["snap"], "process-restored")
        mon.tree_same(g["y"], w_["y"], "process-predict")
        if "trained" in w_:
            S.same(mon, g["trained"], w_["trained"], "process-train")
        mon.event("models moved to another process")


@R.scenario(quick=10, thorough=80)
def overwrite(rng, mon):
    """Saving again to the same name replaces the older file."""
    with scratch() as d:
        f = os.path.join(d, "m")
        m, shape, w, kind = G.rand_model(rng)
        m.compile(1, shape)
        mon.sig(kind, G.names(m.modules))
        X = G.data_for(rng, shape, 3)
        for _ in range(2):
            G.jitter_params(rng, m)
            (m.save if rng.randint(2) else m.save_compressed)(f)
            mon.equal(sorted(os.listdir(d)), ["m.npz"], "files")
            mon.tree_same(type(m).from_file(f)(X), m(X), "latest-file")
        mon.raises(lambda: type(m).from_file(os.path.join(d, "nope")), "missing-file")
