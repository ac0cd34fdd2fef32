"""Event recording from inside the compiled training loop.

The package compiles the whole training into one program; the only windows into
it are the user-supplied loss functions and the epoch callback.  Recorder wraps
both with jax.debug.callback, so every evaluation leaves an event on the host.
Events carry values that depend on the parameters, which orders them by data
dependence."""
import jax
import jax.numpy as np
import numpy as onp


class Recorder:
    def __init__(self):
        self.events = []  # (kind, epoch, payload)
        self.epochs = []  # (epoch, [param leaves])

    def _log(self, kind):
        def f(epoch, *leaves):
            self.events.append((kind, int(epoch), [onp.array(x) for x in leaves]))

        return f

    def loss(self, f, kind):
        """wrap loss(epoch, *data, pred); logs all data leaves and the value"""

        def g(epoch, *args):
            v = f(epoch, *args)
            leaves = jax.tree.leaves(args[:-1])
            pred = jax.tree.leaves(args[-1])
            jax.debug.callback(
                self._log(kind), epoch, *leaves, *jax.lax.stop_gradient(pred),
                jax.lax.stop_gradient(v),
            )
            return v

        return g

    def callback(self, rng, epoch, params):
        def f(epoch, *p):
            self.epochs.append((int(epoch), [onp.array(x) for x in p]))

        jax.debug.callback(f, epoch, *jax.tree.leaves(params), ordered=True)
        return rng, params

    def done(self):
        jax.effects_barrier()
        return self

    def of(self, kind):
        return [e for e in self.events if e[0] == kind]


def tmean(t):
    """mean over all elements of all leaves"""
    L = jax.tree.leaves(t)
    return sum(np.sum(x) for x in L) / sum(x.size for x in L)


def mse(pred, Y):
    return tmean(jax.tree.map(lambda a, b: np.abs(a - b) ** 2, pred, Y))
