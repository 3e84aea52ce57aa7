"""Instrumented modules, written against the public module interface of the package only."""
import json
import jax, jax.numpy as jnp, numpy as onp
from parametricmatrixmodels.modules import BaseModule


def first_leaf(data):
    return jax.tree.leaves(data)[0]


class Probe(BaseModule):
    """One parameter `clk`, one state `stp` (number of training batches).
    Output per sample: (clk, stp, 1 if evaluated in training mode else 0)."""
    __version__ = "0.0.0"

    def __init__(self, clk: float = 0.0, stp: float = 0.0) -> None:
        self.clk = jnp.asarray([clk], dtype=jnp.float32)
        self.stp = jnp.asarray([stp], dtype=jnp.float32)

    @property
    def name(self) -> str:
        return "Probe"

    def is_ready(self) -> bool:
        return True

    def _get_callable(self):
        def probe(params, data, training, state, rng):
            b = first_leaf(data).shape[0]
            col = jnp.ones((b, 1), jnp.float32)
            mode = jnp.asarray(training).astype(jnp.float32)
            out = jnp.concatenate([col * params[0], col * state[0], col * mode], axis=1)
            return out, state + mode
        return probe

    def compile(self, rng, input_shape) -> None:
        pass

    def get_output_shape(self, input_shape):
        return (3,)

    def get_hyperparameters(self):
        return {}

    def get_params(self):
        return self.clk

    def set_params(self, params) -> None:
        self.clk = params

    def get_state(self):
        return self.stp

    def set_state(self, state) -> None:
        self.stp = state


class Node(BaseModule):
    """Chain element: adds the sum of its parameters to column 0, overwrites column 1 by its state
    (number of training batches seen).  Parameter containers: a(rray) d(ict) t(uple) n(one) c(omplex)."""
    __version__ = "0.0.0"

    def __init__(self, kind: str = "a", value: float = 0.0, stp: float = 0.0) -> None:
        self.kind = kind
        v = float(value)
        f = lambda *xs: jnp.asarray(xs, dtype=jnp.float32)
        self.par = {"a": f(v), "d": {"b": f(v, v), "a": jnp.asarray([[v]], jnp.float32)},
                    "t": (f(v, v, v), f(v)), "n": (), "c": (jnp.asarray([v + 0j], jnp.complex64),)}[kind]
        self.stp = jnp.asarray([stp], dtype=jnp.float32)

    @property
    def name(self) -> str:
        return f"Node({self.kind})"

    def is_ready(self) -> bool:
        return True

    def _get_callable(self):
        def node(params, data, training, state, rng):
            x = first_leaf(data)
            s = sum((jnp.sum(jnp.real(q)) for q in jax.tree.leaves(params)), jnp.float32(0))
            mode = jnp.asarray(training).astype(jnp.float32)
            col = jnp.ones((x.shape[0], 1), jnp.float32)
            out = jnp.concatenate([x[:, :1] + s, col * state[0], x[:, 2:]], axis=1)
            return out, state + mode
        return node

    def compile(self, rng, input_shape) -> None:
        pass

    def get_output_shape(self, input_shape):
        return jax.tree.leaves(input_shape, is_leaf=lambda x: isinstance(x, tuple))[0] \
            if not isinstance(input_shape, tuple) else input_shape

    def get_hyperparameters(self):
        return {"kind": self.kind}

    def set_hyperparameters(self, hp) -> None:
        self.kind = hp["kind"]
        super().set_hyperparameters(hp)

    def get_params(self):
        return self.par

    def set_params(self, params) -> None:
        self.par = params

    def get_state(self):
        return self.stp

    def set_state(self, state) -> None:
        self.stp = state


class Trail(BaseModule):
    """Appends two columns: its parameter, and the width it was compiled for (baked into the callable,
    as the package's own modules bake in what they learn at compilation)."""
    __version__ = "0.0.0"

    def __init__(self, value: float = 0.0) -> None:
        self.par = jnp.asarray([value], dtype=jnp.float32)
        self.n = None

    @property
    def name(self) -> str:
        return "Trail"

    def is_ready(self) -> bool:
        return self.n is not None

    def _get_callable(self):
        n = self.n

        def trail(params, data, training, state, rng):
            col = jnp.ones((data.shape[0], 1), data.dtype)
            return jnp.concatenate([data, col * params[0], col * n], axis=1), state
        return trail

    def compile(self, rng, input_shape) -> None:
        self.n = int(input_shape[0])

    def get_output_shape(self, input_shape):
        return (input_shape[0] + 2,)

    def get_hyperparameters(self):
        return {"n": self.n}

    def get_params(self):
        return self.par

    def set_params(self, params) -> None:
        self.par = params


class Meter(BaseModule):
    """Any PyTree of real arrays: adds gain * (running mean of everything seen so far) to every entry.
    State: the running sum, an integer count of the samples seen, and how often it was called in training."""
    __version__ = "0.0.0"

    def __init__(self, gain: float = 0.5) -> None:
        self.gain = {"g": jnp.asarray([float(gain)], dtype=jnp.float32)}
        self.st = (jnp.zeros((1,), jnp.float32), {"n": jnp.zeros((), jnp.int32), "t": jnp.zeros((2,), jnp.float32)})

    @property
    def name(self) -> str:
        return "Meter"

    def is_ready(self) -> bool:
        return True

    def _get_callable(self):
        def meter(params, data, training, state, rng):
            acc, cnt = state
            mean = acc[0] / (1 + cnt["n"]).astype(acc.dtype)
            out = jax.tree.map(lambda x: x + (params["g"][0] * mean).astype(x.dtype), data)
            x = first_leaf(data)
            one = jnp.asarray(training).astype(cnt["t"].dtype)
            tot = jnp.sum(jnp.mean(x.reshape(x.shape[0], -1), axis=1))
            return out, (acc + jax.lax.stop_gradient(tot).astype(acc.dtype),
                         {"n": cnt["n"] + x.shape[0], "t": cnt["t"] + jnp.stack([one, 1 - one])})
        return meter

    def compile(self, rng, input_shape) -> None:
        pass

    def get_output_shape(self, input_shape):
        return input_shape

    def get_hyperparameters(self):
        return {}

    def get_params(self):
        return self.gain

    def set_params(self, params) -> None:
        self.gain = params

    def get_state(self):
        return self.st

    def set_state(self, state) -> None:
        self.st = state


class Noise(BaseModule):
    """Any PyTree of real arrays: adds a random number drawn from the key it is given."""
    __version__ = "0.0.0"

    def __init__(self, size: float = 0.25) -> None:
        self.size = float(size)

    @property
    def name(self) -> str:
        return "Noise"

    def is_ready(self) -> bool:
        return True

    def _get_callable(self):
        size = self.size

        def noise(params, data, training, state, rng):
            z = size * jax.random.normal(rng, ())
            return jax.tree.map(lambda x: x + z.astype(x.dtype), data), state
        return noise

    def compile(self, rng, input_shape) -> None:
        pass

    def get_output_shape(self, input_shape):
        return input_shape

    def get_hyperparameters(self):
        return {"size": self.size}

    def get_params(self):
        return ()

    def set_params(self, params) -> None:
        pass


class KeyTap(BaseModule):
    """Appends the key it is given (four 16-bit pieces) to every sample; also remembers the key it was
    compiled with as its parameter."""
    __version__ = "0.0.0"

    def __init__(self) -> None:
        self.par = jnp.zeros((4,), jnp.float32)

    @staticmethod
    def pieces(key):
        k = jax.random.key_data(key).reshape(-1)[:2]
        return jnp.stack([k[0] >> 16, k[0] & 0xffff, k[1] >> 16, k[1] & 0xffff]).astype(jnp.float32)

    @property
    def name(self) -> str:
        return "KeyTap"

    def is_ready(self) -> bool:
        return True

    def _get_callable(self):
        def tap(params, data, training, state, rng):
            x = first_leaf(data)
            p = KeyTap.pieces(rng) + 0 * params
            return jnp.concatenate([x, jnp.broadcast_to(p, (x.shape[0], 4)).astype(x.dtype)], axis=1), state
        return tap

    def compile(self, rng, input_shape) -> None:
        self.par = KeyTap.pieces(rng)

    def get_output_shape(self, input_shape):
        s = jax.tree.leaves(input_shape, is_leaf=lambda x: isinstance(x, tuple))[0]
        return (s[0] + 4,)

    def get_hyperparameters(self):
        return {}

    def get_params(self):
        return self.par

    def set_params(self, params) -> None:
        self.par = params


class Gain(BaseModule):
    """Multiplies every leaf by its own (trainable) factors, one for each component."""
    __version__ = "0.0.0"

    def __init__(self) -> None:
        self.par = None

    @property
    def name(self) -> str:
        return "Gain"

    def is_ready(self) -> bool:
        return self.par is not None

    def _get_callable(self):
        def gain(params, data, training, state, rng):
            return jax.tree.map(lambda p, x: x * p.astype(x.dtype), params, data), state
        return gain

    def compile(self, rng, input_shape) -> None:
        if self.par is None:
            self.par = jax.tree.map(lambda s: jnp.ones(s, jnp.float32), input_shape, is_leaf=lambda s: isinstance(s, tuple) and all(isinstance(i, int) for i in s))

    def get_output_shape(self, input_shape):
        return input_shape

    def get_hyperparameters(self):
        return {}

    def get_params(self):
        return self.par

    def set_params(self, params) -> None:
        self.par = params


class Roll(BaseModule):
    """Folds the sample numbers it sees, in order, into its state; appends to each sample's log the columns
    (sample, state its batch started from, training mode, parameter, whether all leaves agree, key seen)."""
    __version__ = "0.0.0"

    def __init__(self, value: float = 0.0) -> None:
        self.par = jnp.asarray([value], jnp.float32)
        self.st = jnp.zeros((1,), jnp.float32)

    @property
    def name(self) -> str:
        return "Roll"

    def is_ready(self) -> bool:
        return True

    def _get_callable(self):
        def roll(params, data, training, state, rng):
            if isinstance(data, dict) and "log" in data:
                x, log = data["x"], [data["log"]]
            else:
                x, log = data, []
            lv = [jnp.real(a).reshape(a.shape[0], -1) for a in jax.tree.leaves(x)]
            ids = lv[0][:, 0]
            agree = jnp.ones_like(ids)
            for i, a in enumerate(lv):
                agree = agree * jnp.all(a == ids[:, None], axis=1)
            h = state[0].astype(jnp.int32)
            for i in range(ids.shape[0]):
                h = (h * 5 + ids[i].astype(jnp.int32)) % 9973
            kd = jnp.sum(jax.random.key_data(rng).astype(jnp.uint32) % 9973 * jnp.asarray([3, 7], jnp.uint32)[: jax.random.key_data(rng).shape[-1]])
            col = jnp.ones_like(ids)
            mode = jnp.asarray(training).astype(ids.dtype)
            cols = [ids, col * state[0], col * mode, col * params[0], agree, col * (kd % 9973).astype(ids.dtype)]
            log.append(jnp.stack(cols, axis=1))
            return {"log": jnp.concatenate(log, axis=1), "x": x}, h.astype(jnp.float32)[None] + 0 * state
        return roll

    def compile(self, rng, input_shape) -> None:
        pass

    def get_output_shape(self, input_shape):
        if isinstance(input_shape, dict) and "log" in input_shape:
            return {"log": (input_shape["log"][0] + 6,), "x": input_shape["x"]}
        return {"log": (6,), "x": input_shape}

    def get_hyperparameters(self):
        return {}

    def get_params(self):
        return self.par

    def set_params(self, params) -> None:
        self.par = params

    def get_state(self):
        return self.st

    def set_state(self, state) -> None:
        self.st = state


def flat_data(data):
    """all leaves of a sample, one after the other"""
    return jnp.concatenate([x.reshape(x.shape[0], -1) for x in jax.tree.leaves(data)], axis=1)


def like_type(t, v):
    """the columns of v as a tree of the given type (see zoo.py)"""
    pos = [0]

    def go(t):
        if "s" in t:
            n = int(onp.prod(t["s"], dtype=int)); pos[0] += n
            return v[:, pos[0] - n:pos[0]].reshape((v.shape[0],) + tuple(t["s"]))
        if "d" in t:
            return {k: go(x) for k, x in t["d"]}
        return tuple(go(x) for x in t["u"]) if "u" in t else [go(x) for x in t["l"]]
    return go(t)


def type_shapes(t):
    if "s" in t:
        return tuple(t["s"])
    if "d" in t:
        return {k: type_shapes(x) for k, x in t["d"]}
    return tuple(type_shapes(x) for x in t["u"]) if "u" in t else [type_shapes(x) for x in t["l"]]


class Calc(BaseModule):
    """One module of the language of spec/Gradients.tla (lin, sq or gate), on PyTrees: leaves are taken one after the
    other, the result is given the type `out` (its own input's type if None).  A gate also counts the samples it sees."""
    __version__ = "0.0.0"

    def __init__(self, desc: dict = {"k": "gate", "g": 1}, out: dict | None = None) -> None:
        self.kind, self.out = desc["k"], out
        f = lambda x: jnp.asarray(x, jnp.float32)
        self.par = {"lin": lambda: {"W": f(desc["W"]), "b": f(desc["b"])}, "sq": lambda: f(desc["a"]), "gate": lambda: ()}[self.kind]()
        self.st = (f([desc["g"]]), jnp.zeros((), jnp.int32)) if self.kind == "gate" else ()

    @property
    def name(self) -> str:
        return f"Calc({self.kind})"

    def desc(self):
        """what it is now"""
        i = lambda x: onp.asarray(x, "f8").astype(int).tolist()
        if self.kind == "lin":
            return {"k": "lin", "W": i(self.par["W"]), "b": i(self.par["b"])}
        return {"k": "sq", "a": i(self.par)} if self.kind == "sq" else {"k": "gate", "g": int(self.st[0][0])}

    def is_ready(self) -> bool:
        return True

    def _get_callable(self):
        kind, out = self.kind, self.out

        def calc(params, data, training, state, rng):
            x = flat_data(data)
            if kind == "lin":
                y = x @ params["W"].T.astype(x.dtype) + params["b"].astype(x.dtype)
            elif kind == "sq":
                y = params.astype(x.dtype) * x * jnp.roll(x, -1, axis=1)
            else:
                y = state[0][0].astype(x.dtype) * x
                state = (state[0], state[1] + x.shape[0])
            if out is not None:
                return like_type(out, y), state
            if kind == "lin":
                return y, state
            ts = jax.tree.leaves(data)
            cut = onp.cumsum([onp.prod(t.shape[1:], dtype=int) for t in ts])[:-1]
            return jax.tree.unflatten(jax.tree.structure(data), [p.reshape(t.shape) for p, t in zip(jnp.split(y, cut, axis=1), ts)]), state
        return calc

    def compile(self, rng, input_shape) -> None:
        pass

    def get_output_shape(self, input_shape):
        if self.out is not None:
            return type_shapes(self.out)
        return (self.par["b"].shape[0],) if self.kind == "lin" else input_shape

    def get_hyperparameters(self):
        return {}

    def get_params(self):
        return self.par

    def set_params(self, params) -> None:
        self.par = params

    def get_state(self):
        return self.st

    def set_state(self, state) -> None:
        self.st = state


class Table(BaseModule):
    """Looks up its parameters: the prediction for a sample is the row of the parameters whose number the sample carries
    (the first entry of its first leaf), as a tree of the type `out`."""
    __version__ = "0.0.0"

    def __init__(self, rows: list = [[0.0]], out: dict = {"s": [1]}, cplx: bool = False) -> None:
        self.out = out
        a = onp.asarray(rows, "c8" if cplx else "f4")
        self.par = like_type(out, jnp.asarray(a))

    @property
    def name(self) -> str:
        return "Table"

    def is_ready(self) -> bool:
        return True

    def _get_callable(self):
        def table(params, data, training, state, rng):
            x = first_leaf(data)
            i = jnp.round(jnp.real(x.reshape(x.shape[0], -1)[:, 0])).astype(jnp.int32)
            return jax.tree.map(lambda p: p[i], params), state
        return table

    def compile(self, rng, input_shape) -> None:
        pass

    def get_output_shape(self, input_shape):
        return type_shapes(self.out)

    def get_hyperparameters(self):
        return {}

    def get_params(self):
        return self.par

    def set_params(self, params) -> None:
        self.par = params


class Store(BaseModule):
    """Parameter arrays whose entries are appended to the data: output = (batches trained, data[1:], re and im parts of all entries)."""
    __version__ = "0.0.0"

    def __init__(self, arrays=(), cplx=()) -> None:
        self.par = [jnp.asarray(a, jnp.complex64 if c else jnp.float32) for a, c in zip(arrays, cplx)]
        self.stp = jnp.zeros((1,), jnp.float32)

    @property
    def name(self) -> str:
        return "Store"

    def is_ready(self) -> bool:
        return True

    def _get_callable(self):
        def store(params, data, training, state, rng):
            b = data.shape[0]
            row = [jnp.stack([q.real, q.imag], -1).reshape(-1) for q in params]
            row = jnp.concatenate(row) if row else jnp.zeros((0,), jnp.float32)
            out = jnp.concatenate([jnp.ones((b, 1), jnp.float32) * state[0], data[:, 1:], jnp.ones((b, 1), jnp.float32) * row[None]], axis=1)
            return out, state + jnp.asarray(training).astype(jnp.float32)
        return store

    def compile(self, rng, input_shape) -> None:
        pass

    def get_output_shape(self, input_shape):
        return (input_shape[0] + 2 * sum(q.size for q in self.par),)

    def get_hyperparameters(self):
        return {}

    def get_params(self):
        return list(self.par)

    def set_params(self, params) -> None:
        self.par = list(params)

    def get_state(self):
        return self.stp

    def set_state(self, state) -> None:
        self.stp = state


class Poly(BaseModule):
    """Outputs that are polynomials of parameters and inputs (spec/Heuristic.tla); parameters and output have given tree types."""
    __version__ = "0.0.0"

    def __init__(self, desc: dict = {"outs": [[{"c": 1, "p": 1, "xs": [1]}]], "theta": [1], "tout": {"s": [1]}, "tpar": {"s": [1]}}) -> None:
        self.desc = desc
        self.par = jax.tree.map(lambda x: x[0], like_type(desc["tpar"], jnp.asarray([desc["theta"]], jnp.float32)))

    @property
    def name(self) -> str:
        return "Poly"

    def is_ready(self) -> bool:
        return True

    def _get_callable(self):
        outs, tout = self.desc["outs"], self.desc["tout"]

        def poly(params, data, training, state, rng):
            x = flat_data(data) * jnp.asarray(self.desc.get("unit", [1]), jnp.float32)
            th = jnp.concatenate([p.reshape(-1) for p in jax.tree.leaves(params)]).astype(x.dtype)
            cols = []
            for f in outs:
                y = jnp.zeros(x.shape[0], x.dtype)
                for t in f:
                    v = jnp.full(x.shape[0], t["c"], x.dtype)
                    if t["p"]:
                        v = v * th[t["p"] - 1]
                    for i in t["xs"]:
                        v = v * x[:, i - 1]
                    y = y + v
                cols.append(y)
            return like_type(tout, jnp.stack(cols, 1)), state
        return poly

    def compile(self, rng, input_shape) -> None:
        pass

    def get_output_shape(self, input_shape):
        return type_shapes(self.desc["tout"])

    def get_hyperparameters(self):
        return {"desc": json.dumps(self.desc)}

    def set_hyperparameters(self, hp) -> None:
        if hp:
            self.desc = json.loads(str(hp["desc"]))

    def get_params(self):
        return self.par

    def set_params(self, params) -> None:
        self.par = params

    def get_state(self):
        return ()

    def set_state(self, state) -> None:
        pass
