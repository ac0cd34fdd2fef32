"""Custom modules used as instruments: they are ordinary user modules, written
against the documented base class, whose outputs, states and parameters make
the order, the data and the mode in which they were run visible."""
import jax
import jax.numpy as np
from parametricmatrixmodels.modules import BaseModule
from parametricmatrixmodels.typing import (
    Any,
    Data,
    DataShape,
    HyperParams,
    ModuleCallable,
    Params,
    State,
    Tuple,
)


class _Probe(BaseModule):
    __version__: str = "0.0.0"

    def __init__(self) -> None:
        pass

    def is_ready(self) -> bool:
        return True

    def compile(self, rng: Any, input_shape: DataShape) -> None:
        pass

    def get_output_shape(self, input_shape: DataShape) -> DataShape:
        return input_shape

    def get_hyperparameters(self) -> HyperParams:
        return {}

    def get_params(self) -> Params:
        return ()

    def set_params(self, params: Params) -> None:
        pass

    def _get_callable(self) -> ModuleCallable:
        return lambda params, data, training, state, rng: (data, state)


class Tag(_Probe):
    """x -> sin(a x + b): does not commute with any other Tag."""

    __version__: str = "0.0.0"

    def __init__(self, a: float = 1.0, b: float = 0.0) -> None:
        self.p = np.array([a, b], dtype=np.float32)

    def get_params(self) -> Params:
        return self.p

    def set_params(self, params: Params) -> None:
        self.p = params

    def _get_callable(self) -> ModuleCallable:
        return lambda params, data, training, state, rng: (
            jax.tree.map(lambda x: np.sin(params[0] * x + params[1]), data),
            state,
        )


class Tally(_Probe):
    """Adds its state times 0.1 to the data; the state accumulates the number
    of samples and the sum of all data this module was given."""

    __version__: str = "0.0.0"

    def __init__(self) -> None:
        self.s = np.zeros(2, dtype=np.float32)

    def get_state(self) -> State:
        return self.s

    def set_state(self, state: State) -> None:
        self.s = state

    def _get_callable(self) -> ModuleCallable:
        def f(params, data, training, state, rng):
            leaves = jax.tree.leaves(data)
            new = state + np.stack(
                [
                    np.float32(leaves[0].shape[0]),
                    sum(np.sum(x) for x in leaves).astype(np.float32),
                ]
            )
            return jax.tree.map(lambda x: x + 0.1 * state[0], data), new

        return f


class Noise(_Probe):
    """Adds one standard normal number per call."""

    __version__: str = "0.0.0"

    def _get_callable(self) -> ModuleCallable:
        def f(params, data, training, state, rng):
            z = jax.random.normal(rng, (), dtype=np.float32)
            return jax.tree.map(lambda x: x + z, data), state

        return f


class ModeFlag(_Probe):
    """Adds 1 in training mode."""

    __version__: str = "0.0.0"

    def _get_callable(self) -> ModuleCallable:
        def f(params, data, training, state, rng):
            d = 1.0 if training else 0.0
            return jax.tree.map(lambda x: x + d, data), state

        return f


class Weights(_Probe):
    """Several named parameters of different shapes; y = x * w + c."""

    __version__: str = "0.0.0"

    def __init__(self, w: float = 1.0, c: float = 0.0) -> None:
        self.p = {
            "w": np.array(w, dtype=np.float32),
            "c": (np.full((1,), c, dtype=np.float32),),
        }

    def get_params(self) -> Params:
        return self.p

    def set_params(self, params: Params) -> None:
        self.p = params

    def _get_callable(self) -> ModuleCallable:
        return lambda params, data, training, state, rng: (
            jax.tree.map(lambda x: x * params["w"] + params["c"][0], data),
            state,
        )


class Combine(_Probe):
    """Tree of equally shaped arrays in, tree out.  With the flattened leaves
    L0, L1, ... of the input and s = sum_i (i + 1) a L_i + b the output is
    built from u = sin(s) and v = cos(s) + L0, so it depends on every leaf and
    on where each one was put."""

    __version__: str = "0.0.0"

    def __init__(self, a: float = 1.0, b: float = 0.0, kind: str = "arr") -> None:
        self.p = np.array([a, b], dtype=np.float32)
        self.kind = kind

    def get_hyperparameters(self) -> HyperParams:
        return {"kind": self.kind}

    def get_params(self) -> Params:
        return self.p

    def set_params(self, params: Params) -> None:
        self.p = params

    @staticmethod
    def wrap(kind, u, v):
        return {
            "arr": lambda: u,
            "dict": lambda: {"u": u, "v": v},
            "list": lambda: [u, v],
            "deep": lambda: {"p": {"q": u}, "r": [v, u]},
        }[kind]()

    def get_output_shape(self, input_shape: DataShape) -> DataShape:
        leaf = jax.tree.leaves(input_shape, is_leaf=lambda s: isinstance(s, tuple) and all(isinstance(i, int) for i in s))[0]
        return Combine.wrap(self.kind, leaf, leaf)

    def _get_callable(self) -> ModuleCallable:
        def f(params, data, training, state, rng):
            L = jax.tree.leaves(data)
            s = sum((i + 1) * params[0] * x for i, x in enumerate(L)) + params[1]
            return Combine.wrap(self.kind, np.sin(s), np.cos(s) + L[0]), state

        return f


class Dial(_Probe):
    """y = c (a scalar parameter) for every element: with the loss mean(y), one
    batch per epoch and a learning rate of one, Adam moves c by -1 per epoch, so
    that a validation loss can be scripted as a table over epochs."""

    __version__: str = "0.0.0"

    def __init__(self, c: float = 0.0) -> None:
        self.p = np.array(c, dtype=np.float32)

    def get_params(self) -> Params:
        return self.p

    def set_params(self, params: Params) -> None:
        self.p = params

    def _get_callable(self) -> ModuleCallable:
        return lambda params, data, training, state, rng: (
            jax.tree.map(lambda x: x * 0 + params, data),
            state,
        )


class Scale(_Probe):
    """y = a x with a scalar parameter."""

    __version__: str = "0.0.0"

    def __init__(self, a: float = 1.0) -> None:
        self.p = np.array(a, dtype=np.float32)

    def get_params(self) -> Params:
        return self.p

    def set_params(self, params: Params) -> None:
        self.p = params

    def _get_callable(self) -> ModuleCallable:
        return lambda params, data, training, state, rng: (
            jax.tree.map(lambda x: x * params, data),
            state,
        )


class Gain(_Probe):
    """Multiplies by its (constant) state, and by two in training mode."""

    __version__: str = "0.0.0"

    def __init__(self, g: float = 1.0) -> None:
        self.s = np.array(g, dtype=np.float32)

    def get_state(self) -> State:
        return self.s

    def set_state(self, state: State) -> None:
        self.s = state

    def _get_callable(self) -> ModuleCallable:
        def f(params, data, training, state, rng):
            k = 2.0 if training else 1.0
            return jax.tree.map(lambda x: x * state * k, data), state

        return f
