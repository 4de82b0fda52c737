"""Small closed worlds: benchmarks with given cell values, alphabets of states,
constructors of all solvers and access to their public parts."""
import copy
import itertools
import weakref

import numpy as np

import core
from benchmark.shallow_water import ShallowWaterBenchmark

INTEGRATORS = {
    "euler": core.ForwardEuler,
    "heun": core.Heun,
    "ssp3": core.StrongStabilityPreservingRungeKutta3,
}


class ScalarWorld(core.Benchmark):
    """A scalar problem on [0, length] whose cell values (or nodal values for
    FUNCTION) are given."""

    def __init__(
        self,
        problem,
        values,
        length=1.0,
        start=0.0,
        end_time=1.0,
        boundary="periodic",
        left=None,
        right=None,
        offset=0.0,
    ):
        self.problem = problem
        self.values = values
        self.domain = core.Interval(offset, offset + length)
        self.start_time = start
        self.end_time = end_time
        self._boundary_conditions = boundary
        self._left = left
        self._right = right

    def initial_data(self, x):
        if callable(self.values):
            return self.values(x)
        n = len(self.values)
        h = self.domain.length / n
        i = int(np.clip(np.floor((x - self.domain.a) / h), 0, n - 1))
        return float(self.values[i])

    def inflow_left(self, t):
        return self._left(t) if self._left else super().inflow_left(t)

    def inflow_right(self, t):
        return self._right(t) if self._right else super().inflow_right(t)


class WaterWorld(ShallowWaterBenchmark):
    """A shallow water problem with given cell values and bottom values."""

    def __init__(
        self,
        values,
        bottom=None,
        length=1.0,
        start=0.0,
        end_time=1.0,
        boundary="periodic",
        left=None,
        right=None,
        g=1.0,
        offset=0.0,
    ):
        self.values = values
        self.bottom = bottom
        self.domain = core.Interval(offset, offset + length)
        self.start_time = start
        self.end_time = end_time
        self._boundary_conditions = boundary
        self.gravitational_acceleration = g
        self._left = left
        self._right = right

    def _index(self, x, n):
        h = self.domain.length / n
        return int(np.clip(np.floor((x - self.domain.a) / h), 0, n - 1))

    def initial_data(self, x):
        if callable(self.values):
            return self.values(x)
        return np.array(self.values[self._index(x, len(self.values))], dtype=float)

    def bathymetry(self, x):
        if self.bottom is None:
            return 0.0
        if callable(self.bottom):
            return self.bottom(x)
        return float(self.bottom[self._index(x, len(self.bottom))])

    def inflow_left(self, t):
        return self._left(t) if self._left else super().inflow_left(t)

    def inflow_right(self, t):
        return self._right(t) if self._right else super().inflow_right(t)


# ------------------------------------------------------------------ public parts
def right_hand_side(solver):
    return solver.as_dict()["right_hand_side"]


_strangers = weakref.WeakKeyDictionary()
_built = [0]


def _power_of_two(n):
    return n & (n - 1) == 0


def reset():
    """Called before each job."""
    _built[0] = 0


def _doubled(inflow):
    return inflow and (lambda t: 2 * inflow(t))


def _stranger(world, number):
    """Another world with equally many cells."""
    other = copy.copy(world)
    if hasattr(world, "_left"):
        other._left, other._right = _doubled(world._left), _doubled(world._right)
    a, b = world.domain.a, world.domain.b
    if number % 2 == 0:
        other.domain = core.Interval(a, a + 1.75 * (b - a))
    if isinstance(world, WaterWorld):
        if number % 3 != 1:
            other.gravitational_acceleration = 3.5 * world.gravitational_acceleration
        if number % 2:
            flat = world.bottom is None
            other.bottom = (lambda x: 0.25 + 0.125 * np.sin(x)) if flat else None
    else:
        other.problem = "burgers" if world.problem == "advection" else "advection"
    return other


class Mixed:
    """Builds solvers next to strangers: other solvers of equal size for another domain,
    bottom, gravitation or problem.  They are built before and after the first, second,
    fourth, ... solver of a job and work in turn with it."""

    def __init__(self, factory):
        self._factory = factory

    def __call__(self, world, **kwargs):
        _built[0] += 1
        if not _power_of_two(_built[0]):
            return self._factory(world, **kwargs)
        strangers = []
        strangers.append(self._build(_stranger(world, 1 + _built[0] % 3), kwargs))
        solver = self._factory(world, **kwargs)
        strangers.append(self._build(_stranger(world, 2 + _built[0] % 3), kwargs))
        _strangers[solver] = [
            (right_hand_side(s), s.solution.time, np.array(s.solution.value)) for s in strangers
        ]
        return solver

    def _build(self, world, kwargs):
        return self._factory(world, **{k: v for k, v in kwargs.items() if k != "save_history"})


def mixed(factories):
    return {name: Mixed(factory) for name, factory in factories.items()}


class Reused:
    """The right hand side of a solver, called alternately with new arrays and with the
    array of the call before, changed in place; strangers work before the first, second,
    fourth, ... call, and a slightly different state is evaluated before every fifth."""

    def __init__(self, solver):
        self._rhs, self._buffer, self._number = right_hand_side(solver), None, 0
        self._strangers = _strangers.get(solver, [])

    def __getattr__(self, name):
        return getattr(self._rhs, name)

    def __call__(self, time, value):
        self._number += 1
        if _power_of_two(self._number):
            for rhs, t, v in self._strangers:
                rhs(t, v)
        if self._number % 5 == 0:
            self._rhs(time, np.array(value, dtype=float) * (1 + 2.0**-20))
        if self._number % 2 or np.shape(value) != self._buffer.shape:
            self._buffer = np.array(value, dtype=float)
        else:
            self._buffer[...] = value
        return self._rhs(time, self._buffer)


class Buffers:
    """Delivers copies of vectors, alternately in new arrays and in the array of the call
    before, changed in place."""

    def __init__(self):
        self._number, self._buffer = 0, None

    def __call__(self, value):
        self._number += 1
        if self._number % 2 or np.shape(value) != self._buffer.shape:
            self._buffer = np.array(value, dtype=float)
        else:
            self._buffer[...] = value
        return self._buffer


def ode_solver(solver):
    return solver.as_dict()["ode_solver"]


def time_stepping(solver):
    return solver.as_dict()["time_stepping"]


def close(a, b, rtol=1e-10, atol=1e-11):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(
        np.all(np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b)))
    )


def solve(solver):
    solver.solve(disable=True)
    return solver
