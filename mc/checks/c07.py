"""Lake at rest.  For every bottom of a bounded space (all words over an alphabet
of bottom values on small meshes, structured profiles on larger ones, functions
varying inside of the cells of meshes of all magnitudes), water
levels from barely covering to deep, gravitational accelerations and boundaries
the real right hand side of every well-balanced scheme must vanish, and complete
real runs with every integrator must keep the lake."""
import numpy as np

import core
from benchmark.shallow_water import LakeAtRestBenchmark, LakeAtRestNoBathymetryBenchmark, ShallowWaterBenchmark

from .. import states, swe
from ..worlds import INTEGRATORS, WaterWorld, Reused as right_hand_side, solve

NAMES = ["central", "low-order", "es", "es1", "mcl", "mcl+central", "mcl+es", "mcl+es1",
         "mcl+low-order"]
BOUNDARIES = ["periodic", ("outflow", "outflow"), ("wall", "wall"), ("wall", "outflow"),
              ("outflow", "wall")]
ALPHABET = [0.0, 0.5, -1.0, 2.0, 1e-6]
GENTLE = [3.0, 3.0 + 1e-3, 3.0 - 2e-6, 3.0 + 1e-9]
ASSUMPTIONS = [
    "on periodic domains the bottom agrees in the first and the last cell",
    "roundoff of the balance is relative to g h^2 / step length",
]


def jobs(tier):
    deep = tier == "thorough"
    result = []
    for name in NAMES:
        for boundary in BOUNDARIES:
            result.append(dict(kind="rhs", name=name, boundary=boundary, deep=deep))
        result.append(dict(kind="run", name=name, deep=deep))
        result.append(dict(kind="smooth", name=name, deep=deep))
    return result


def run(job, rec):
    globals()["_" + job["kind"]](job, rec)


def _boundary(b):
    return b if isinstance(b, str) else tuple(b)


def _bottoms(n, boundary, deep, letters=ALPHABET):
    periodic = boundary == "periodic"
    if n <= 3 or (n == 4 and deep):
        space = [*states.all_words(letters, n), *states.all_words(GENTLE, n)]
    elif n == 4:
        space = [*states.all_words(letters[:3], n), *states.all_words(GENTLE[:2], n)]
    else:
        space = [np.array(b) for b in states.bottoms(n).values() if b is not None]
        space += list(states.patterns(letters[:4] if deep else letters[:3], n))
        space += list(states.patterns(GENTLE[:3], n))
    for b in space:
        if periodic:
            b = b.copy()
            b[-1] = b[0]
        yield b


def _rhs(job, rec):
    name, boundary = job["name"], _boundary(job["boundary"])
    for n in [2, 3, 4, 5, 17] if job["deep"] else [2, 3, 4, 9]:
        for bottom in _bottoms(n, boundary, job["deep"]):
            for g, h in [(1.0, 0.5), (9.812, 2.0)]:
                world = WaterWorld([(1, 0)] * n, bottom, boundary=boundary, g=g, length=n * h,
                                   offset=-3.0)
                rhs = right_hand_side(swe.MIXED[name](world, mesh_size=n))
                for depth in [1e-3, 1.0, 50.0]:
                    u = np.zeros((n, 2))
                    u[:, 0] = bottom.max() + depth - bottom
                    value = rhs(0.0, u.copy())
                    rec.state(name, boundary, bottom, g, depth)
                    rec.step()
                    rec.valid()
                    eps = 1e-13 * g * np.max(u[:, 0] + np.abs(bottom)) ** 2 / h
                    if name.endswith("es1"):
                        eps *= 100
                    rec.check(
                        np.shape(value) == (n, 2) and np.all(np.abs(value) <= eps),
                        "lake at rest is not steady",
                        lambda: dict(bottom=bottom, depth=depth, g=g, rhs=value, eps=eps),
                    )
        rec.outcome(f"{name} n={n}")


class Lake(ShallowWaterBenchmark):
    """A lake over a bottom given by a function; heights are pointwise the
    difference to the level."""

    def __init__(self, function, level, boundary, g, domain):
        self.bathymetry, self.level, self.domain = function, level, domain
        self._boundary_conditions = boundary
        self.gravitational_acceleration = g
        self.start_time, self.end_time = 0.0, 0.01

    def initial_data(self, x):
        return np.array([self.level - self.bathymetry(x), 0.0])


SMOOTH = {
    "hump": lambda x: max(0.0, 1 - (x - 5) ** 2),
    "waves": lambda x: 0.5 * float(np.sin(np.pi * x / 5)) ** 2,
    "cusp": lambda x: 0.3 * abs(x - 4.3) ** 0.5 - 1.0,
    "shelf": lambda x: 0.75 if x > 3.3 else 0.1 * (x > 1.2),
    "gentle": lambda x: 2.0 + 1e-4 * x * (10 - x),
}


def _smooth(job, rec):
    """Bottoms which vary inside of the cells, on meshes of all magnitudes."""
    name = job["name"]
    sizes = [2, 3, 7, 16, 50, 99, 128, 200, 333, 400] + ([101, 256, 512, 640, 1000, 1600] if job["deep"] else [])
    for key, function in SMOOTH.items():
        for boundary in BOUNDARIES:
            if boundary == "periodic" and key in ("cusp", "shelf"):
                continue
            for n in sizes:
                for g, level in [(1.0, 2.5), (9.812, 3.0)]:
                    world = Lake(function, level, boundary, g, core.Interval(0.0, 10.0))
                    solver = swe.MIXED[name](world, mesh_size=n)
                    h = 10.0 / n
                    value = right_hand_side(solver)(0.0, solver.solution.value.copy())
                    rec.state("smooth", name, key, boundary, n, g)
                    rec.step()
                    rec.valid()
                    eps = 2e-13 * g * (level + 2) ** 2 / h
                    if name.endswith("es1"):
                        eps *= 100
                    # cell averages of the outermost cells agree on symmetric bottoms only
                    rec.check(np.shape(value) == (n, 2) and np.all(np.abs(value) <= eps), "lake at rest is not steady",
                              lambda: dict(bottom=key, boundary=boundary, n=n, g=g, rhs=np.abs(value).max(), eps=eps))
    for cls in (LakeAtRestBenchmark, LakeAtRestNoBathymetryBenchmark):
        for n in sizes[3:]:
            benchmark = cls(end_time=0.01)
            solver = swe.MIXED[name](benchmark, mesh_size=n, cfl_number=0.01)
            before = solver.solution.value.copy()
            solve(solver)
            rec.state("benchmark", name, cls.__name__, n)
            rec.step()
            rec.check(np.all(np.abs(solver.solution.value - before) <= 1e-10), "lake at rest changes during a run",
                      lambda: dict(benchmark=cls.__name__, n=n, difference=np.abs(solver.solution.value - before).max()))
    rec.outcome(f"smooth {name}")


def _run(job, rec):
    name = job["name"]
    for boundary in BOUNDARIES:
        for n in [3, 8]:
            bottoms = list(_bottoms(n, boundary, False, ALPHABET[:3]))
            if n == 8:
                bottoms = bottoms[:: 1 if job["deep"] else 6]
            for bottom in bottoms:
                for integrator, ode in INTEGRATORS.items():
                    g, h, cfl = 1.0, 0.5, 0.1
                    level = bottom.max() + 0.75
                    values = np.array([(level - b, 0.0) for b in bottom])
                    steps = 100 if job["deep"] else 8
                    world = WaterWorld(values, bottom, boundary=boundary, g=g, length=n * h,
                                       end_time=(steps + 0.5) * cfl * h)
                    solver = solve(swe.MIXED[name](
                        world, mesh_size=n, cfl_number=cfl, ode_solver_type=ode,
                        save_history=True))
                    history = np.asarray(solver.solution.value_history)
                    rec.state("run", name, boundary, bottom, integrator)
                    rec.step(len(history) - 1)
                    rec.valid()
                    rec.check(
                        len(history) == steps + 2
                        and np.all(np.abs(history - values) <= 1e-11),
                        "lake at rest changes during a run",
                        lambda: dict(bottom=bottom, integrator=integrator,
                                     difference=np.abs(history - values).max()),
                    )
    rec.outcome(f"run {name}")
