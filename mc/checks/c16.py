"""Discrete solutions.  Every word of operations (update, set_value, refused update,
changes of arrays handed in and out) up to a depth is executed on every class of
discrete solutions next to a list of (time, value) pairs; numerical fluxes with
history are explored in the same way."""
import itertools

import numpy as np

import core
import finite_element
import finite_volume
import finite_volume.scalar.solver as SS
from command.generate_data import DiscreteSolutionWithInputData

from .. import swe
from ..worlds import ScalarWorld, WaterWorld

ASSUMPTIONS = ["time steps are dyadic, so that times are compared exactly"]
# a b: update by 0.25, 0.5 with the first, second value; i: update with an integer array
# s t u: set_value at the start, at 0.5, at 0.75; x: refused update; m: change the
# array handed in last; o: change the arrays handed out
OPERATIONS = "abistuxmo"
CLASSES = ["plain", "history", "coarse2", "coarse4", "coarse1", "coarse2-history",
           "coarse4-history", "input-data", "input-data-coarse"]
SHAPES = ["scalar", "system", "three"]


def jobs(tier):
    deep = tier == "thorough"
    return [
        dict(kind="words", name=name, shape=shape, start=start, first=first, deep=deep)
        for name in CLASSES for shape in SHAPES for start in [0.0, -0.5]
        for first in (OPERATIONS if deep else ["*"])
    ] + [
        dict(kind="words", name=name, shape=shape, start=start, first="*", deep=False, unit=unit, scale=scale)
        for name in CLASSES for shape in SHAPES
        for start, unit, scale in [(0.0, 2.0**-60, 2.0**-60), (0.5, 2.0**-40, 2.0**-30), (-0.5, 2.0**-30, 2.0**40),
                                   (0.0, 2.0**40, 2.0**-100)]
    ] + [dict(kind="solvers", deep=deep)] + [
        dict(kind="fluxes", shape=shape, radius=radius, deep=deep) for shape in ["scalar", "system"] for radius in (1, 2)
    ] + [
        dict(kind="long", name=name, steps=20500 if deep else 10250) for name in CLASSES]


def run(job, rec):
    globals()["_" + job["kind"]](job, rec)


class Sums(finite_volume.NumericalFlux):
    """A flux of all its inputs, handing out new arrays or always the same ones."""

    def __init__(self, radius, shared):
        self.input_dimension = 2 * radius
        self._shared = shared
        self._buffers = {}

    def __call__(self, *values):
        assert len(values) == self.input_dimension
        flux = sum((k + 1) * np.asarray(v, dtype=float) for k, v in enumerate(values))
        result = flux + 0.5, -2 * flux
        if self._shared:
            for k, part in enumerate(result):
                buffer = self._buffers.setdefault((k, part.shape), np.zeros(part.shape))
                buffer[:] = part
            return self._buffers[0, result[0].shape], self._buffers[1, result[1].shape]
        return result


def _fluxes(job, rec):
    """Fluxes with a history: all words of calls and of changes of the arrays handed
    in and out; one and two objects around one flux; very many calls."""
    shape, radius, deep = job["shape"], job["radius"], job["deep"]
    rng = np.arange(3 * (1 if shape == "scalar" else 2), dtype=float).reshape((3,) if shape == "scalar" else (3, 2))
    letters = {"a": rng, "b": 7.0 - 2 * rng, "c": 0.0 * rng}
    for shared in (False, True):
        for size in range(0, 6 if deep else 5):
            for word in itertools.product("abcior", repeat=size):
                inner = Sums(radius, shared)
                fluxes = [finite_volume.NumericalFluxWithHistory(inner), finite_volume.NumericalFluxWithHistory(inner)]
                expected, active, handed, returned = [[], []], 0, (), ()
                for letter in word:
                    if letter in letters:
                        handed = tuple(letters[letter] * (k + 1) for k in range(2 * radius))
                        wanted = Sums(radius, False)(*handed)
                        returned = fluxes[active](*handed)
                        expected[active].append(wanted)
                        rec.check(all(np.array_equal(x, y) for x, y in zip(returned, wanted)), "flux differs from the wrapped one", lambda: dict(word=word, got=returned))
                    elif letter == "i":
                        for x in handed:
                            x += 1.0
                    elif letter == "o":
                        for x in returned:
                            x *= 3.0
                    else:
                        active = 1 - active
                    rec.step()
                rec.state("fluxes", shape, radius, shared, word)
                rec.valid()
                for flux, entries in zip(fluxes, expected):
                    for got, k in ((flux.flux_left_history, 0), (flux.flux_right_history, 1)):
                        rec.check(len(got) == len(entries) and all(np.array_equal(x, y[k]) for x, y in zip(got, entries)), "history of fluxes",
                                  lambda: dict(word=word, shared=shared, side=k, got=got, expected=[y[k] for y in entries]))
                    rec.check(flux.input_dimension == 2 * radius, "number of inputs of a flux with history")
                rec.outcome(f"fluxes {len(expected[0])} {len(expected[1])}")
    flux = finite_volume.NumericalFluxWithHistory(Sums(radius, True))
    number = 5000 if deep else 1200
    for k in range(number):
        flux(*[letters["b"] * k + i for i in range(2 * radius)])
    rec.step(number)
    wanted = [Sums(radius, False)(*[letters["b"] * k + i for i in range(2 * radius)]) for k in range(number)]
    for side, got in enumerate((flux.flux_left_history, flux.flux_right_history)):
        rec.check(np.array_equal(got, np.array([w[side] for w in wanted])), "history of many fluxes", lambda: dict(side=side, length=len(got)))


def _values(shape, scale=1):
    base = np.array([1.0, 2.0, -1.0, 0.5, 4.0, 0.0, 3.0, 8.0])
    if shape == "scalar":
        return [base * scale, base[::-1] * 2 * scale, np.array([1, 5, 2, 2, 0, 1, 7, 3]) * scale]
    k = 2 if shape == "system" else 3
    stack = np.array([base * (1 + j) + j for j in range(k)]).T
    return [stack * scale, stack[::-1] * 2 * scale, np.arange(8 * k).reshape(8, k) * scale]


def _coarsen(value, degree):
    """Averages of consecutive blocks."""
    value = np.asarray(value, dtype=float)
    return np.array([sum(value[i : i + degree]) / degree for i in range(0, len(value), degree)])


def _build(name, shape, start, scale=1):
    value = _values(shape, scale)[0].copy()
    space = finite_volume.FiniteVolumeSpace(core.UniformMesh(core.Interval(0, 2), 8))
    plain = core.DiscreteSolution(value, initial_time=start, space=space)
    degree = int(name[6]) if name.startswith("coarse") else 1
    if name == "plain":
        solution = plain
    elif name == "history":
        solution = core.DiscreteSolutionWithHistory(plain)
    elif name.startswith("input-data"):
        # node 2 of the coarse grid with radius one and of the fine grid with radius two
        c = 2 if name.endswith("coarse") else 1
        solution = DiscreteSolutionWithInputData(plain, 2, 1, c, 2)
    elif name.endswith("history"):
        solution = core.CoarseSolutionWithHistory(plain, degree)
    else:
        solution = core.CoarseSolution(plain, degree)
    return solution, degree, value


class _Model:
    def __init__(self, value, time):
        self.records = [(time, np.array(value, dtype=float))]

    def update(self, dt, value):
        self.records.append((self.records[-1][0] + dt, np.array(value, dtype=float)))

    def set_value(self, value, time):
        self.records = [r for r in self.records if r[0] < time]
        self.records.append((time, np.array(value, dtype=float)))


def _agree(rec, solution, model, name, degree, shape, detail, scale=1):
    eps = 1e-14 * scale
    time, value = model.records[-1]
    expected = _coarsen(value, degree) if degree > 1 else value
    ok = solution.time == time
    ok = ok and np.asarray(solution.value).shape == expected.shape
    ok = ok and np.allclose(solution.value, expected, rtol=0, atol=eps)
    if not ok:
        rec.violate("latest state is not reported", dict(detail(), value=solution.value,
                                                         expected=expected, time=solution.time))
    dimension = expected.shape[0] if expected.ndim == 1 else expected.shape
    rec.check(solution.dimension == dimension, "dimension", detail)
    n = len(expected)
    rec.check(len(solution.space.mesh) == n and np.allclose(
        solution.grid if not name.startswith("input") else solution.space.grid,
        (np.arange(n) + 0.5) * 2 / n), "grid", detail)
    if "history" in name or name.startswith("input"):
        times = np.array([r[0] for r in model.records])
        ok = np.array_equal(solution.time_history, times)
        ok = ok and np.array_equal(solution.time_step_history, np.diff(times))
        rec.check(ok, "time history", lambda: dict(detail(), got=solution.time_history,
                                                   expected=times))
    if "history" in name:
        values = np.array([_coarsen(v, degree) if degree > 1 else v for _, v in model.records])
        got = np.asarray(solution.value_history)
        rec.check(got.shape == values.shape and np.allclose(got, values, rtol=0, atol=eps),
                  "value history", lambda: dict(detail(), got=got, expected=values))
    if name.startswith("input"):
        c = 2 if name.endswith("coarse") else 1
        coarse = np.array([_coarsen(v, c)[1:3] for _, v in model.records])
        fine = np.array([v[2 * c - 2 : 2 * c + 2] for _, v in model.records])
        ok = np.allclose(solution.coarse_node_neighbours_history, coarse, rtol=0, atol=eps)
        ok = ok and np.array_equal(solution.fine_node_neighbours_history, fine)
        ok = ok and np.allclose(solution.coarse_node_neighbours, coarse[-1], rtol=0, atol=eps)
        ok = ok and np.array_equal(solution.fine_node_neighbours, fine[-1])
        rec.check(ok, "neighbours of the node", detail)


def _scribble(solution):
    """Changes everything handed out."""
    for name in ["value", "value_history", "coarse_node_neighbours_history",
                 "fine_node_neighbours_history"]:
        if hasattr(solution, name):
            array = getattr(solution, name)
            array[...] = -77


def _words(job, rec):
    name, shape, start = job["name"], job["shape"], job["start"]
    unit, scale = job.get("unit"), job.get("scale", 1)
    values = _values(shape, scale)
    steps = {"a": 0.25, "b": 0.5, "i": 1.0}
    times = {"s": start, "t": 0.5, "u": 0.75}
    if unit:
        # entries of the history close to each other or far away
        steps = {key: dt * unit for key, dt in steps.items()}
        times = {"s": start, "t": start + 0.5 * unit, "u": start + 0.75 * unit}
    depth = 4 if job["deep"] else 3
    firsts = OPERATIONS if job["first"] == "*" else job["first"]
    for first in firsts:
        for rest in itertools.product(OPERATIONS, repeat=depth - 1):
            word = (first, *rest)
            solution, degree, last = _build(name, shape, start, scale)
            model = _Model(values[0], start)
            detail = lambda: dict(name=name, shape=shape, word=word, start=start, unit=unit, scale=scale)
            for operation in word:
                if operation in "abi":
                    dt = steps[operation]
                    last = values["abi".index(operation)].copy()
                    if name.startswith("input") and operation == "i":
                        last = last.astype(float)
                    solution.update(dt, last)
                    model.update(dt, last)
                elif operation in "stu":
                    time = times[operation]
                    last = values["stu".index(operation)].astype(float)
                    solution.set_value(last, time)
                    model.set_value(last, time)
                elif operation == "x":
                    wrong = values[0].astype(float)
                    for bad in (np.nan, np.inf, -np.inf):
                        wrong[2 if shape == "scalar" else (2, 1)] = bad
                        try:
                            solution.update(steps["a"], wrong)
                            rec.violate("value which is not finite is accepted", detail())
                        except ValueError:
                            pass
                elif operation == "m":
                    last[...] = 99
                else:
                    _scribble(solution)
                rec.step()
                _agree(rec, solution, model, name, degree, shape, detail, scale)
            rec.state(name, shape, start, word, unit, scale)
            rec.valid()
    rec.outcome(f"{name} {shape}")


def _long(job, rec):
    """Long runs: the histories contain every update."""
    name, steps = job["name"], job["steps"]
    space = finite_volume.FiniteVolumeSpace(core.UniformMesh(core.Interval(0, 2), 8))
    plain = core.DiscreteSolution(np.arange(8.0), initial_time=0.5, space=space)
    degree = int(name[6]) if name.startswith("coarse") else 1
    if name == "plain":
        solution = plain
    elif name == "history":
        solution = core.DiscreteSolutionWithHistory(plain)
    elif name.startswith("input-data"):
        solution = DiscreteSolutionWithInputData(plain, 2, 1, 2 if name.endswith("coarse") else 1, 2)
    elif name.endswith("history"):
        solution = core.CoarseSolutionWithHistory(plain, degree)
    else:
        solution = core.CoarseSolution(plain, degree)
    values = np.array([np.arange(8.0) + (k % 97) - 0.25 * (k // 97) for k in range(steps + 1)])
    values[0] = np.arange(8.0)
    dts = np.array([0.25, 0.125, 0.5])[np.arange(steps) % 3]
    times = 0.5 + np.concatenate(([0.0], np.cumsum(dts)))
    sparse = {1, 2, 127, 128, 129, 255, 256, 257, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049,
              4095, 4096, 4097, 5000, 5001, 8192, 8193, 10000, 10001, 16384, 16385, 20000, 20001, steps}
    for k in range(1, steps + 1):
        solution.update(dts[k - 1], values[k].copy())
        rec.step()
        if k not in sparse:
            continue
        rec.state("long", name, k)
        rec.valid()
        detail = lambda: dict(name=name, updates=k)
        expected = values[: k + 1].reshape(k + 1, 8 // degree, degree).mean(axis=2)
        rec.check(solution.time == times[k] and np.allclose(solution.value, expected[-1]), "latest state is not reported", detail)
        if "history" in name or name.startswith("input"):
            rec.check(np.array_equal(solution.time_history, times[: k + 1])
                      and np.array_equal(solution.time_step_history, dts[:k]), "time history", detail)
        if "history" in name:
            got = np.asarray(solution.value_history)
            rec.check(got.shape == expected.shape and np.allclose(got, expected, rtol=0, atol=1e-12), "value history", detail)
        if name.startswith("input"):
            c = 2 if name.endswith("coarse") else 1
            coarse = values[: k + 1].reshape(k + 1, 8 // c, c).mean(axis=2)[:, 1:3]
            rec.check(np.allclose(solution.coarse_node_neighbours_history, coarse, rtol=0, atol=1e-12)
                      and np.array_equal(solution.fine_node_neighbours_history, values[: k + 1, 2 * c - 2: 2 * c + 2]),
                      "neighbours of the node", detail)
    rec.outcome(f"long {name}")


def _solvers(job, rec):
    """Initial solutions of the spaces with and without history."""
    for n in range(1, 7):
        for history in [False, True]:
            for start in [0.0, 0.5]:
                data = np.arange(1.0, n + 1)
                world = ScalarWorld("burgers", data, length=2.0, start=start)
                cases = [finite_volume.get_finite_volume_solution(world, n, history)]
                cases.append(SS.MCLSolver(world, mesh_size=n, save_history=history).solution)
                cases.append(finite_element.get_finite_element_solution(world, n, 1, history))
                for i, solution in enumerate(cases):
                    rec.state("solver", n, history, start, i)
                    rec.step()
                    rec.valid()
                    rec.check(solution.time == start and np.allclose(solution.value, data),
                              "initial solution", dict(n=n, case=i, got=solution.value))
                    rec.check(hasattr(solution, "value_history") == history, "history", dict(n=n))
                    rec.check(len(solution.space.mesh) == n, "mesh", dict(n=n))
                for name in swe.FACTORIES:
                    values = [(1.0 + i, 0.5 * i) for i in range(n)]
                    world = WaterWorld(values, length=2.0, start=start)
                    s = swe.FACTORIES[name](world, mesh_size=n, save_history=history).solution
                    rec.check(s.time == start and np.allclose(s.value, values)
                              and hasattr(s, "value_history") == history, "initial solution",
                              dict(n=n, name=name))
    rec.outcome("solvers")
