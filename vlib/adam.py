"""Independent reference of the optimizer: NumPy double precision Adam with
per-parameter epoch counters, elementwise clipping and frozen parameters."""
import jax
import jax.numpy as np
import numpy as onp


def leaf_modules(model):
    """Innermost modules in the order of their parameters."""
    out = []
    for m in jax.tree.leaves(model.modules):
        out += leaf_modules(m) if hasattr(m, "modules") else [m]
    return out


def flags(model, frozen=()):
    """One flag per parameter array; ``frozen``: the ids of frozen modules."""
    out = []
    for m in leaf_modules(model):
        out += [id(m) not in frozen] * len(jax.tree.leaves(m.get_params()))
    return out


class RefAdam:
    def __init__(self, params, lr, b1=0.9, b2=0.999, eps=1e-8, clip=1e3):
        self.x = [onp.array(p) for p in params]
        self.m = [onp.zeros_like(p) for p in self.x]
        self.v = [onp.zeros(p.shape) for p in self.x]
        self.i = [0] * len(self.x)
        self.set(lr, b1, b2, eps, clip)

    def set(self, lr, b1=0.9, b2=0.999, eps=1e-8, clip=1e3):
        self.lr = lr if callable(lr) else (lambda i: lr)
        self.b1, self.b2, self.eps, self.clip = b1, b2, eps, clip

    def step(self, grads, mask):
        """grads: jax convention (for complex x: the conjugate of the direction
        of steepest ascent)"""
        for j, (g, on) in enumerate(zip(grads, mask)):
            if not on:
                continue
            g = onp.asarray(g)
            c = self.clip
            if onp.iscomplexobj(self.x[j]):
                g = onp.clip(g.real, -c, c) - 1j * onp.clip(g.imag, -c, c)
            else:
                g = onp.clip(g, -c, c)
            self.m[j] = self.b1 * self.m[j] + (1 - self.b1) * g
            self.v[j] = self.b2 * self.v[j] + (1 - self.b2) * onp.abs(g) ** 2
            t = self.i[j] + 1
            mh = self.m[j] / (1 - self.b1**t)
            vh = self.v[j] / (1 - self.b2**t)
            lr = float(onp.float32(self.lr(self.i[j])))
            self.x[j] = self.x[j] - lr * mh / (onp.sqrt(vh) + self.eps)

    def end_epoch(self, mask):
        self.i = [i + bool(on) for i, on in zip(self.i, mask)]

    def fresh(self):
        self.m = [onp.zeros_like(p) for p in self.x]
        self.v = [onp.zeros(p.shape) for p in self.x]
        self.i = [0] * len(self.x)


def grad_of(model, loss):
    """(flat params, state, epoch, X, Y...) -> flat gradients, new state, of
    loss(epoch, X, Y..., prediction) in training mode"""
    f = model._get_callable()
    struct = jax.tree.structure(model.get_params())

    @jax.jit
    def g(leaves, state, epoch, X, *rest):
        def L(leaves):
            p, s = f(jax.tree.unflatten(struct, leaves), X, True, state, jax.random.key(0))
            return loss(epoch, X, *rest, p), s

        return jax.grad(L, has_aux=True)(leaves)

    return lambda leaves, *a: g([np.asarray(x) for x in leaves], *a)
