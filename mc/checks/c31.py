"""Reduced models.  Predictions of the stored and of synthetic networks on all
stencils over an alphabet, in all batch compositions of a family and for all numbers of rows up to a bound, are compared with
an independent forward pass (weights and scalers read from the network); fluxes of
the reduced flux getter with every base flux, bottom and input dimension, right hand
sides and complete steps of the reduced solvers are compared with the reference
scheme plus that forward pass.  Fit, save, load and predict are explored as a
transition system: all operation sequences up to a depth, with one or two network
types, against a model of the object and of the stored files."""
import itertools
import os
import pickle

import numpy as np
import torch
from torch import nn

import finite_volume
import finite_volume.shallow_water.solver as S
from finite_volume.shallow_water.solver import reduced_model

from .. import networks, ref_fv, states
from ..core import REPO, capture, scratch_directory, silence
from ..worlds import INTEGRATORS, WaterWorld, right_hand_side, solve

ASSUMPTIONS = [
    "predictions are of single precision, the independent forward pass of double precision; they are compared with a relative tolerance of 2e-4",
    "reflecting walls are left out, their second ghost cell is not determined by the property",
    "files of a network are stored and loaded completely; torn files are not explored",
]
STORED = {"reduced-llf": (S.LaxFriedrichsNetwork, "data/reduced-llf"), "reduced-llf-2": (S.LaxFriedrichs2Network, "data/reduced-llf-2")}
ALPHABET = [(2.0, 0.0), (1.9, 0.3), (2.2, -0.4), (1.0, 1.0), (3.0, -2.0)]


def jobs(tier):
    deep = tier == "thorough"
    result = []
    for name in STORED:
        for first in range(len(ALPHABET)):
            result.append(dict(kind="predict", name=name, first=first, deep=deep))
    for dimension in (2, 4, 6):
        for output in (0, 1):
            result.append(dict(kind="selector", dimension=dimension, output=output, deep=deep))
    for base in ("llf", "central", "es", "es1", "low-order"):
        for dimension in (2, 4, 6):
            result.append(dict(kind="getter", base=base, dimension=dimension, deep=deep))
    for name in STORED:
        for boundary in ("periodic", ("outflow", "outflow"), ("inflow", "outflow"), ("outflow", "inflow")):
            for n in (4, 5, 8):
                result.append(dict(kind="solver", name=name, boundary=boundary, n=n, deep=deep))
    depth = 5 if deep else 4
    for start in itertools.product(OPERATIONS, repeat=2 if deep else 1):
        result.append(dict(kind="history", start=start, depth=depth))
    for start in TWO:
        result.append(dict(kind="two", start=[start], depth=4 if deep else 3))
    result.append(dict(kind="missing"))
    for part in range(4):
        result.append(dict(kind="rows", part=part, deep=deep))
    for name in STORED:
        for n in (31, 63, 64, 127, 128, 255, 256) + ((511, 512, 999, 1000) if deep else ()):
            result.append(dict(kind="wide", name=name, n=n))
    for dimension in (2, 4):
        result.append(dict(kind="nearby", dimension=dimension, length=4 if deep else 3))
    return result


def run(job, rec):
    with networks.directory(REPO if job["kind"] in ("predict", "solver", "wide") else scratch_directory()):
        globals()["_" + job["kind"]](job, rec)


# ----------------------------------------------------------------- forward pass
def numbers(network):
    return [p.detach().numpy().astype(float) for p in network.module_.parameters()]


def forward(parameters, x):
    """Linear layers with leaky ReLU in between."""
    layers = list(zip(parameters[::2], parameters[1::2]))
    for k, (weight, bias) in enumerate(layers):
        x = x @ weight.T + bias
        if k < len(layers) - 1:
            x = np.where(x > 0, x, 0.01 * x)
    return x


class Stored:
    """Independent evaluation of a network stored in a directory."""

    def __init__(self, directory):
        state = torch.load(os.path.join(REPO, directory, "model.pkl"), weights_only=False)
        self.parameters = [v.numpy().astype(float) for v in state.values()]
        self.scalers = []
        for name in ("input_scaler.pkl", "output_scaler.pkl"):
            with open(os.path.join(REPO, directory, name), "rb") as f:
                scaler = pickle.load(f)
            self.scalers.append((np.array(scaler.mean_), np.array(scaler.scale_)))

    def __call__(self, x):
        (a, b), (c, d) = self.scalers
        return forward(self.parameters, (np.asarray(x, dtype=float) - a) / b) * d + c


def near(a, b, eps=2e-4):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= eps * (1 + np.abs(b).max(initial=0))))


def _predict(job, rec):
    cls, directory = STORED[job["name"]]
    network = cls()
    with silence():
        network.load_params()
    oracle = Stored(directory)
    words = [np.array([ALPHABET[job["first"]], *w]).ravel() for w in itertools.product(ALPHABET, repeat=3)]
    X = np.array(words, dtype=np.float32)
    copy = X.copy()
    expected = oracle(X)
    got = network.predict(X)
    rec.check(near(got, expected), "prediction differs from the forward pass",
              lambda: dict(name=job["name"], worst=np.abs(got - expected).max(), x=X[np.abs(got - expected).max(axis=1).argmax()]))
    for k, x in enumerate(X):
        single = network.predict(x[None])
        rec.state("predict", job["name"], x)
        rec.step()
        rec.valid()
        rec.check(single.shape == (1, 2) and near(single[0], expected[k]), "prediction of a single stencil",
                  lambda: dict(x=x, got=single, expected=expected[k]))
    for size in (2, 3, 7, 50, 124) if not job["deep"] else range(2, 125):
        for order in (1, -1):
            batch = np.concatenate([network.predict(X[::order][i:i + size]) for i in range(0, len(X), size)])[::order]
            rec.step()
            rec.check(near(batch, expected), "prediction depends on the batch", dict(size=size, order=order))
    double = network.predict(np.concatenate((X, X, X[:5])))
    rec.check(near(double[:len(X)], expected) and near(double[len(X):2 * len(X)], expected), "prediction depends on other rows", dict(name=job["name"]))
    rec.check(np.array_equal(X, copy), "inputs are changed", dict(name=job["name"]))
    rec.outcome(job["name"])


def _rows(job, rec):
    """Numbers of rows: all up to a bound and those around powers of two and ten."""
    top = 1100 if job["deep"] else 300
    counts = [*range(1, top)] + [b + d for b in (512, 1000, 1024, 2048, 4096, 5000) for d in (-1, 0, 1, 2)]
    counts = counts[job["part"]::4] + ([8193, 10001, 16385] if job["deep"] and not job["part"] else [])
    index = np.arange(4 * max(counts))
    X = np.array([2.0, 0.0] * 4, dtype=np.float32) + np.stack(
        [0.3 * np.sin(0.7 * index[k::4] + k) for k in range(4) for _ in range(2)], axis=1).astype(np.float32)[: max(counts)]
    X[:, 1::2] *= np.float32(-1.5)
    for name, (cls, directory) in STORED.items():
        with networks.directory(REPO):
            network = cls(verbose=0)
            with silence():
                network.load_params()
                flux = reduced_model.ApproximatedSubgridFlux(4, cls(verbose=0))
                flux(*X[:1].reshape(1, 4, 2).transpose(1, 0, 2))
        expected = Stored(directory)(X)
        for k, count in enumerate(counts):
            rec.state("rows", name, count)
            rec.step()
            rec.valid()
            # the first or the last rows
            part = slice(0, count) if k % 2 else slice(len(X) - count, len(X))
            got = network.predict(X[part])
            rec.check(near(got, expected[part]), "prediction of many rows", lambda: dict(
                name=name, count=count, rows=np.nonzero(~np.all(np.abs(got - expected[part]) < 1e-3, axis=1))[0][:5] if got.shape == expected[part].shape else got.shape))
            if k % 5 == 0:
                left, right = flux(*X[part].reshape(count, 4, 2).transpose(1, 0, 2))
                rec.check(near(right, expected[part]) and near(left, -expected[part]), "subgrid fluxes of many nodes", lambda: dict(name=name, count=count))
        rec.outcome(f"rows {name}")


# ---------------------------------------------------------- synthetic networks
def tiny(inputs, path="net/"):
    """A new network type of one linear layer with its own files."""

    class Module(nn.Module):
        def __init__(self):
            nn.Module.__init__(self)
            self.layer = nn.Linear(inputs, 2)

        def forward(self, x):
            return self.layer(x)

    os.makedirs(path, exist_ok=True)

    class Network(reduced_model.ReducedNetwork):
        module_type = Module
        data_path = path + "data.csv"
        network_path = path + "model.pkl"
        optimizer_path = path + "opt.pkl"
        history_path = path + "history.json"
        input_scaler_path = path + "input_scaler.pkl"
        output_scaler_path = path + "output_scaler.pkl"

    return Network


def training(inputs, kind=0):
    """Rows whose scalers are the identity for KIND 0."""
    rows = np.array([[(-1.0) ** (r // 2**min(c, 3) if c < 4 else r + r // 2 + c) for c in range(inputs)] for r in range(16)])
    y = np.array([[(-1.0) ** r, (-1.0) ** (r // 2)] for r in range(16)])
    if kind:
        rows = rows * (1 + np.arange(inputs)) * kind + 0.5 * kind
        y = y * [2.0, 0.5] * kind + [1.0, -1.0]
    return rows.astype(np.float32), y.astype(np.float32)


def trained(Network, inputs, weight, bias, kind=0):
    """Stores a network with given weights."""
    network = Network(max_epochs=1, verbose=0)
    X, y = training(inputs, kind)
    with silence():
        network.fit(X, y, epochs=1)
        with torch.no_grad():
            network.module_.layer.weight[:] = torch.tensor(weight, dtype=torch.float32)
            network.module_.layer.bias[:] = torch.tensor(bias, dtype=torch.float32)
        network.save_params()

    def oracle(x):
        a, b, c, d = X.mean(axis=0), X.std(axis=0), y.mean(axis=0), y.std(axis=0)
        return ((np.asarray(x, dtype=float) - a) / b) @ np.array(weight).T * d + np.array(bias) * d + c

    return oracle


def _selector(job, rec):
    """One output is one of the inputs: order of the values of the stencil."""
    dimension, output = job["dimension"], job["output"]
    inputs = 2 * dimension
    letters = ALPHABET[:3] if dimension < 6 else ALPHABET[:2]
    stencils = list(itertools.product(letters, repeat=dimension))
    values = [np.array([s[k] for s in stencils], dtype=float) for k in range(dimension)]
    for chosen in range(inputs):
        for kind in (0, 1, -0.5) if job["deep"] else (0, 1):
            weight = np.zeros((2, inputs))
            weight[output, chosen] = 1.0
            Network = tiny(inputs, f"s{chosen}_{kind}/")
            oracle = trained(Network, inputs, weight, [0.0, 0.0], kind)
            with silence():
                flux = reduced_model.ApproximatedSubgridFlux(dimension, Network(verbose=0))
                rec.check(flux.input_dimension == dimension, "input dimension", dict(got=flux.input_dimension))
                for repeat in range(2):
                    left, right = flux(*values)
            expected = oracle(np.concatenate(values, axis=1))
            for k, s in enumerate(stencils):
                rec.state("selector", dimension, output, chosen, kind, s)
            rec.step(len(stencils))
            rec.valid(len(stencils))
            rec.check(near(right, expected) and near(left, -expected), "subgrid flux is not the prediction with opposite signs",
                      lambda: dict(job=job, chosen=chosen, kind=kind, right=right[:5], left=left[:5], expected=expected[:5]))
            if kind == 0:
                rec.check(near(right[:, output], values[chosen // 2][:, chosen % 2]), "order of the values", lambda: dict(job=job, chosen=chosen))
            # one row alone
            for k in (0, len(stencils) // 2, len(stencils) - 1):
                with silence():
                    single, _ = flux(*[v[k:k + 1] for v in values])
                rec.check(near(single, -expected[k:k + 1]), "subgrid flux of one node", lambda: dict(job=job, chosen=chosen, row=k))
    rec.outcome(f"dimension {dimension}")


def _nearby(job, rec):
    """Sequences of evaluations with nearly equal inputs of a network with large
    weights."""
    dimension = job["dimension"]
    inputs = 2 * dimension
    weight = np.array([[4e4 * (-1.0) ** k for k in range(inputs)], [3e4 * (-1.0) ** (k // 2) for k in range(inputs)]])
    Network = tiny(inputs)
    oracle = trained(Network, inputs, weight, [0.0, 0.0], 0)
    base = np.array([[[1.0 + 0.25 * r, 0.5], [1.0, 0.25 * r]] for r in range(4)]).transpose(1, 0, 2)
    base = [base[k % 2] for k in range(dimension)]
    batches = {"base": base}
    for name, change in [("step", 1e-5), ("small", 4e-6), ("tiny", 1.5e-6)]:
        batches[name] = [v + change * (k == 1) * np.array([[1.0, 0.0]]) for k, v in enumerate(base)]
    batches["row"] = [v + 8e-6 * (k == 0) * np.array([[0.0, 0.0]] * 3 + [[0.0, 1.0]]) for k, v in enumerate(base)]
    batches["fewer"] = [v[:3] for v in base]
    expected = {name: oracle(np.concatenate(v, axis=1).astype(np.float32)) for name, v in batches.items()}
    for word in itertools.product(batches, repeat=job["length"]):
        for in_place in (False, True):
            with silence():
                flux = reduced_model.ApproximatedSubgridFlux(dimension, Network(verbose=0))
                buffer = [v.copy() for v in base]
                for k, name in enumerate(word):
                    values = [v.copy() for v in batches[name]]
                    if in_place and name != "fewer":
                        for a, b in zip(buffer, values):
                            a[:] = b
                        values = buffer
                    left, right = flux(*values)
                    rec.step()
                    rec.check(right.shape == expected[name].shape and np.abs(right - expected[name]).max() <= 0.03
                              and np.array_equal(left, -right), "subgrid flux of nearly equal inputs",
                              lambda: dict(word=word[: k + 1], got=right, expected=expected[name]))
                    left[:] = right[:] = 7.0
            rec.state("nearby", dimension, word, in_place)
            rec.valid()
    rec.outcome(f"nearby {dimension}")


BASE_DIMENSION = 2


def _getter(job, rec):
    base, dimension = job["base"], job["dimension"]
    inputs = 2 * dimension
    rng = np.arange(1, 2 * inputs + 1).reshape(2, inputs)
    weight = np.sin(rng) / 3
    Network = tiny(inputs)
    oracle = trained(Network, inputs, weight, [0.25, -0.5], 1)
    base_getter = S.SHALLOW_WATER_FLUX_GETTER[base]
    letters = states.WET[:3]
    for n in (4, 5) if job["deep"] else (4,):
        h = 1.5
        for bottom_name, bottom in states.bottoms(n).items():
            world = WaterWorld([(1, 0)] * n, bottom=bottom, boundary="periodic", length=h * n, g=2.0)
            getter = reduced_model.ReducedFluxGetter(dimension, Network(verbose=0), flux_getter=base_getter)
            space = finite_volume.get_finite_volume_solution(world, n).space
            for given in (False, True):
                # the bathymetry of the cells may be given
                extra = []
                if given and bottom is not None:
                    extra = [np.array(bottom, dtype=float)]
                elif given:
                    continue
                flux = getter(world, space, *extra)
                base_flux = base_getter(world, space, *extra)
                rec.check(flux.input_dimension == max(dimension, base_flux.input_dimension), "input dimension", dict(job=job))
                radius = flux.input_dimension // 2
                for u in states.all_words(letters, n):
                    e = ref_fv.extend(u, "periodic", 0.0, radius=radius)
                    nodes = n + 1
                    values = [e[k:k + nodes] for k in range(2 * radius)]
                    with silence():
                        left, right = flux(*values)
                        inner = radius - base_flux.input_dimension // 2
                        base_left, base_right = base_flux(*values[inner: len(values) - inner])
                    inner = radius - dimension // 2
                    G = oracle(np.concatenate(values[inner: len(values) - inner], axis=1))
                    rec.state("getter", base, dimension, bottom_name, given, u)
                    rec.step()
                    rec.valid()
                    rec.check(near(left, base_left - G, 1e-4) and near(right, base_right + G, 1e-4),
                              "reduced flux is not base flux plus prediction",
                              lambda: dict(job=job, bottom=bottom_name, given=given, u=u, left=left, right=right, expected=(base_left - G, base_right + G)))
                    if base in ("llf", "central"):
                        L, R = ref_fv.Water(base, 2.0, h, "periodic", bottom).node_fluxes(0.0, u)
                        rec.check(near(left, L - G, 1e-4) and near(right, R + G, 1e-4), "base flux of the reduced flux",
                                  lambda: dict(job=job, bottom=bottom_name, given=given, u=u, left=left, right=right, expected=(L - G, R + G)))
            rec.outcome(bottom_name)


def _solver(job, rec):
    name, n, boundary = job["name"], job["n"], job["boundary"]
    boundary = tuple(boundary) if not isinstance(boundary, str) else boundary
    oracle = Stored(STORED[name][1])
    left, right = (lambda t: np.array([2.1, 0.2 + t])), (lambda t: np.array([1.9, -0.3 - t]))
    h = 2.0
    cls = networks.FACTORIES[name]
    for bottom_name in ("flat", "bump", "step") if not job["deep"] else states.bottoms(n):
        bottom = states.bottoms(n)[bottom_name]
        if bottom_name in ("steep", "pit"):
            continue
        llf = ref_fv.Water("llf", 9.812, h, boundary, bottom, left, right)

        def rhs(t, u):
            L, R = llf.node_fluxes(t, u)
            e = ref_fv.extend(u, boundary, t, left, right, radius=2)
            G = oracle(np.concatenate([e[k:k + n + 1] for k in range(4)], axis=1))
            return (R[:-1] + G[:-1] + L[1:] - G[1:]) / h

        with silence():
            world = WaterWorld([(2, 0)] * n, bottom=bottom, boundary=boundary, length=h * n, left=left, right=right, g=9.812)
            real = right_hand_side(cls(world, mesh_size=n))
        if job.get("wide"):
            _wide_steps(job, rec, cls, rhs, real, bottom, boundary, left, right, h)
            continue
        words = states.all_words(ALPHABET[:3], n) if n <= 5 else states.patterns(ALPHABET[:3], n)
        for u in words:
            with silence():
                got = real(0.25, u.copy())
            expected = rhs(0.25, u)
            rec.state("rhs", name, boundary, bottom_name, u)
            rec.step()
            rec.valid()
            rec.check(near(got, expected, 1e-3), "right hand side of the reduced solver",
                      lambda: dict(job=job, bottom=bottom_name, u=u, got=got, expected=expected))
        for u in list(states.patterns(ALPHABET[:3], n))[::1 if job["deep"] else 5]:
            for integrator in INTEGRATORS:
                dt = 0.01
                world = WaterWorld(u, bottom=bottom, boundary=boundary, length=h * n, left=left, right=right, g=9.812, end_time=2.0 * dt)
                with silence():
                    solver = cls(world, mesh_size=n, cfl_number=dt / h, ode_solver_type=INTEGRATORS[integrator])
                    solve(solver)
                value = u.astype(float)
                for k in range(2):
                    value = ref_fv.rk_step(integrator, rhs, k * dt, value, dt)
                rec.state("steps", name, boundary, bottom_name, integrator, u)
                rec.step(2)
                rec.check(near(solver.solution.value, value, 1e-3), "steps of the reduced solver",
                          lambda: dict(job=job, bottom=bottom_name, integrator=integrator, u=u, got=solver.solution.value, expected=value))
                rec.outcome(integrator)


def _wide(job, rec):
    """Right hand sides and steps on many cells."""
    for boundary in ("periodic", ("inflow", "outflow")):
        _solver(dict(job, boundary=boundary, deep=False, wide=True), rec)


def _wide_steps(job, rec, cls, rhs, real, bottom, boundary, left, right, h):
    n = job["n"]
    index = np.arange(n)
    for shift in range(2):
        u = np.stack([2.1 + 0.2 * np.sin(0.9 * index + shift), 0.3 * np.cos(0.4 * index - shift)], axis=1)
        with silence():
            got = real(0.25, u.copy())
        expected = rhs(0.25, u)
        rec.state("wide", job["name"], n, boundary, bottom, u)
        rec.step()
        rec.valid()
        rec.check(near(got, expected, 1e-3), "right hand side of the reduced solver on many cells",
                  lambda: dict(job=job, boundary=boundary, cells=np.nonzero(np.abs(got - expected).max(axis=1) > 1e-3)[0][:6]))
    dt = 0.01
    world = WaterWorld(u, bottom=bottom, boundary=boundary, length=h * n, left=left, right=right, g=9.812, end_time=2.0 * dt)
    with silence():
        solver = cls(world, mesh_size=n, cfl_number=dt / h, ode_solver_type=INTEGRATORS["heun"])
        solve(solver)
    value = u.astype(float)
    for k in range(2):
        value = ref_fv.rk_step("heun", rhs, k * dt, value, dt)
    rec.step(2)
    rec.check(near(solver.solution.value, value, 1e-3), "steps of the reduced solver on many cells", lambda: dict(job=job, boundary=boundary))
    rec.outcome(f"wide {n}")


# ------------------------------------------------------------------- histories
OPERATIONS = ["fit1", "fit2", "save", "load", "history", "new"]
TWO = [f"{op}{k}" for op in ("fit", "save", "load", "new") for k in (0, 1)]
INPUTS = 4
PROBE = np.array(list(itertools.product([-1.0, 0.0, 2.5], repeat=2)), dtype=np.float32).repeat(2, axis=1)


class Object:
    """A network together with what is known about it."""

    def __init__(self, Network):
        self.Network = Network
        self.disk = None
        self.renew()

    def renew(self):
        self.network = self.Network(max_epochs=2, verbose=0, warm_start=True)
        self.known = None  # (parameters, input scaler, output scaler), if trained
        self.ready = False
        self.epochs = 0

    def enabled(self, op):
        if op == "save":
            return self.known is not None
        return True

    def execute(self, op, rec, trace):
        network = self.network
        text = ""
        if op.startswith("fit"):
            X, y = training(INPUTS, 1 if op == "fit1" else -2)
            with silence():
                before = len(network.history) if hasattr(network, "history_") and self.ready else 0
                network.fit(X, y, epochs=2)
            self.known = (numbers(network), (X.mean(axis=0), X.std(axis=0)), (y.mean(axis=0), y.std(axis=0)))
            self.ready = True
            self.epochs += 2
        elif op == "save":
            with capture() as output:
                network.save_params()
            self.disk = (*self.known, self.epochs)
            rec.check(all(getattr(self.Network, f"{p}_path") in output.text for p in ("network", "optimizer", "history", "input_scaler", "output_scaler")),
                      "messages of saving", lambda: dict(trace=trace, text=output.text))
        elif op in ("load", "history"):
            with capture() as output:
                network.load_params(load_history=op == "history")
            self.ready = True
            if self.disk is None:
                rec.check("could not be loaded" in output.text, "missing files must be reported", lambda: dict(trace=trace, text=output.text))
                self.known = None
                self.epochs = 0
            else:
                rec.check("could not be loaded" not in output.text, "files could not be loaded", lambda: dict(trace=trace, text=output.text))
                self.known = self.disk[:3]
                if op == "history":
                    self.epochs = self.disk[3]
                    rec.check(len(network.history) == self.epochs, "history is not restored", lambda: dict(trace=trace, got=len(network.history), expected=self.epochs))
                else:
                    self.epochs = 0
        elif op == "new":
            self.renew()
        self.look(rec, trace)

    def look(self, rec, trace):
        if self.known is None:
            return
        parameters, (a, b), (c, d) = self.known
        expected = forward(parameters, (PROBE.astype(float) - a) / b) * d + c
        probe = PROBE.copy()
        for repeat in range(2):
            got = self.network.predict(probe)
            rec.check(near(got, expected), "prediction after a sequence of operations", lambda: dict(trace=trace, got=got, expected=expected))
        rec.check(np.array_equal(probe, PROBE), "inputs are changed", dict(trace=trace))
        rec.outcome("known")


def explore(rec, objects, alphabet, target, start, depth, tag):
    """All operation sequences with prefix START; executed again from the beginning
    for every maximal sequence."""
    for tail in itertools.product(alphabet, repeat=depth - len(start)):
        trace = [*start, *tail]
        for obj in objects:
            for name in os.listdir(os.path.dirname(obj.Network.network_path)):
                os.remove(os.path.join(os.path.dirname(obj.Network.network_path), name))
            obj.disk = None
            obj.renew()
        done = []
        for op in trace:
            obj, action = target(op)
            if not obj.enabled(action):
                break
            done.append(op)
            obj.execute(action, rec, list(done))
            rec.step()
            rec.state(tag, tuple(done))
            for other in objects:
                if other is not obj:
                    other.look(rec, list(done))
        else:
            rec.valid()


def _history(job, rec):
    obj = Object(tiny(INPUTS, "one/"))
    explore(rec, [obj], OPERATIONS, lambda op: (obj, op), job["start"], job["depth"], "history")


def _two(job, rec):
    objects = [Object(tiny(INPUTS, "first/")), Object(tiny(INPUTS, "second/"))]
    target = lambda op: (objects[int(op[-1])], op[:-1] + str(1 + int(op[-1])) if op.startswith("fit") else op[:-1])
    explore(rec, objects, TWO, target, job["start"], job["depth"], "two")


def _missing(job, rec):
    """Missing stored files never raise while loading."""
    files = ["model.pkl", "opt.pkl", "history.json", "input_scaler.pkl", "output_scaler.pkl"]
    Network = tiny(INPUTS, "some/")
    for missing in itertools.product([0, 1], repeat=len(files)):
        oracle = trained(Network, INPUTS, np.eye(2, INPUTS), [0.5, 1.0], 1)
        for bit, name in zip(missing, files):
            if bit:
                os.remove("some/" + name)
        for history in (False, True):
            network = Network(verbose=0)
            with capture() as output:
                network.load_params(load_history=history)
            rec.state("missing", missing, history)
            rec.step()
            rec.valid()
            required = missing[0] or missing[3] or missing[4]
            rec.check(("could not be loaded. Use" in output.text) == bool(required), "missing files must be reported",
                      lambda: dict(missing=missing, text=output.text))
            rec.check(("History and optimizer" in output.text) == bool(history and (missing[1] or missing[2])),
                      "missing history must be reported", lambda: dict(missing=missing, history=history, text=output.text))
            if not required:
                rec.check(near(network.predict(PROBE), oracle(PROBE)), "prediction without history", lambda: dict(missing=missing))
            rec.outcome("reported" if required else "loaded")
