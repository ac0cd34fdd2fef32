"""Monitor object handed to every workload, and the scenario registry.

A check module in checks/ registers *scenarios*: functions ``f(rng, mon)``
that drive the real package through its public API with inputs drawn from
``rng`` and let ``mon`` compare what was observed with an independent oracle.
"""
import hashlib
import zlib

import numpy as onp


class Violation(Exception):
    def __init__(self, key, what, detail):
        super().__init__(f"[{key}] {what} {detail}")
        self.key, self.what, self.detail = key, what, detail


class Skip(Exception):
    """The drawn case is not one the property speaks about."""


class Registry:
    def __init__(self):
        self.items = []

    def scenario(self, quick, thorough=None, x64=False, timeout=240):
        def deco(f):
            self.items.append(
                dict(
                    name=f.__name__,
                    fn=f,
                    quick=quick,
                    thorough=quick * 8 if thorough is None else thorough,
                    x64=x64,
                    timeout=timeout,
                )
            )
            return f

        return deco


class Rng(onp.random.RandomState):
    """Knows the number of its case, so that a scenario can go through a list
    evenly."""

    idx = 0


def case_rng(seed, prop, scenario, idx):
    h = zlib.crc32(f"{prop}/{scenario}/{idx}".encode())
    r = Rng([seed & 0x7FFFFFFF, h])
    r.idx = idx + 7919 * seed
    return r


def brief(x, limit=400):
    if isinstance(x, (list, tuple)) and len(x) and not hasattr(x, "_fields"):
        s = "[" + ", ".join(brief(v, 80) for v in x[:12]) + "]"
    elif isinstance(x, dict):
        s = "{" + ", ".join(f"{k}: {brief(v, 80)}" for k, v in x.items()) + "}"
    elif hasattr(x, "shape") and hasattr(x, "dtype"):
        a = onp.asarray(x)
        s = f"{a.dtype}{list(a.shape)}"
        if a.size <= 12:
            s += str(a.tolist())
    else:
        s = str(x)
    return s if len(s) <= limit else s[:limit] + "..."


class Mon:
    """Observes one case."""

    def __init__(self):
        self.events = {}
        self.sigs = []
        self.desc_ = []
        self.dists = []

    # -- bookkeeping ------------------------------------------------------
    def event(self, kind, n=1):
        self.events[kind] = self.events.get(kind, 0) + n

    def sig(self, *parts):
        """Part of what makes this case distinct."""
        self.sigs.append("|".join(brief(p, 200) for p in parts))

    def desc(self, text):
        self.desc_.append(brief(text, 300))

    def signature(self):
        return hashlib.sha1("\n".join(self.sigs).encode()).hexdigest()[:16]

    # -- verdicts ---------------------------------------------------------
    def fail(self, key, what, **detail):
        raise Violation(key, what, {k: brief(v, 1200) for k, v in detail.items()})

    def check(self, cond, key, what="", **detail):
        self.event("checks")
        self.event("check:" + key)
        if not bool(cond):
            self.fail(key, what, **detail)

    def equal(self, a, b, key, what="", **detail):
        self.check(a == b, key, what, got=a, expected=b, **detail)

    def close(self, got, want, key, what="", rtol=2e-4, atol=2e-5, scale=None, **detail):
        """Array comparison.  ``scale`` (default: max |want|) multiplies rtol
        so that cancellation inside float32 sums is not held against the
        code."""
        self.event("checks")
        self.event("check:" + key)
        g, w = onp.asarray(got), onp.asarray(want)
        if g.shape != w.shape:
            self.fail(key, what + " (shape)", got=g.shape, expected=w.shape, **detail)
        if g.size == 0:
            return
        if g.dtype == bool or w.dtype == bool or g.dtype.kind in "USO":
            if not onp.array_equal(g, w):
                self.fail(key, what, got=g, expected=w, **detail)
            return
        fin = onp.isfinite(w)
        if not onp.array_equal(fin, onp.isfinite(g)) or not onp.array_equal(
            onp.where(fin, 0, w), onp.where(fin, 0, g), equal_nan=True
        ):
            self.fail(key, what + " (non-finite values)", got=g, expected=w, **detail)
        if not fin.any():
            return
        s = float(onp.max(onp.abs(w[fin]))) if scale is None else float(scale)
        err = float(onp.max(onp.abs(g[fin] - w[fin])))
        if not err <= atol + rtol * s:
            self.fail(
                key, what, maxerr=err, tol=atol + rtol * s, got=g, expected=w, **detail
            )

    def tree_close(self, got, want, key, what="", **kw):
        import jax

        sg, sw = jax.tree.structure(got), jax.tree.structure(want)
        if sg != sw:
            self.fail(key, what + " (structure)", got=sg, expected=sw)
        for i, (g, w) in enumerate(zip(jax.tree.leaves(got), jax.tree.leaves(want))):
            self.close(g, w, key, what, leaf=i, **kw)

    def tree_same(self, got, want, key, what=""):
        """Bit-identical leaves."""
        import jax

        self.event("checks")
        self.event("check:" + key)
        sg, sw = jax.tree.structure(got), jax.tree.structure(want)
        if sg != sw:
            self.fail(key, what + " (structure)", got=sg, expected=sw)
        for i, (g, w) in enumerate(zip(jax.tree.leaves(got), jax.tree.leaves(want))):
            g, w = onp.asarray(g), onp.asarray(w)
            if g.shape != w.shape or g.dtype != w.dtype:
                self.fail(
                    key, what + " (shape or dtype)", got=g, expected=w, leaf=i
                )
            if not onp.array_equal(g, w, equal_nan=g.dtype.kind in "fc"):
                self.fail(key, what, got=g, expected=w, leaf=i)

    def raises(self, f, key, what="", exc=Exception):
        """f() must raise (an ordinary exception)."""
        self.event("checks")
        self.event("check:" + key)
        try:
            r = f()
        except exc as e:
            return e
        self.fail(key, what + " (no error raised)", returned=r)
