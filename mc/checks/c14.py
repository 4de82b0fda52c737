"""Reinitializing a solver equals building a new one.  Every word of operations
(complete solve, some steps, solve aborted by an exception inside a stage, solve of a
benchmark which is not solvable, reinitialize with one of several benchmarks) up to a
depth is executed on one real solver object, then the solver is reinitialized and
solved; its history is compared with the one of a new solver in a process of its own.  Benchmarks which
differ only slightly or in scale, meshes with more than a hundred cells and one
benchmark object whose data change between the runs are included."""
import itertools

import numpy as np

from core.time_stepping import TimeStepTooSmallError
import finite_volume.scalar.solver as SS
import finite_volume.shallow_water.solver as SW

from .. import fe, networks, swe
from ..core import Pristine, capture
from ..worlds import INTEGRATORS, ScalarWorld, WaterWorld, ode_solver, time_stepping

ASSUMPTIONS = [
    "benchmarks of one word agree in domain, times, boundary conditions and bottom",
    "values equal up to 1e-12 (they are bitwise equal on the pinned commit)",
]
SCALAR = {
    "llf": SS.LaxFriedrichsSolver,
    "central": SS.CentralFluxSolver,
    "mcl": SS.MCLSolver,
}
# S: solve, P: two steps, A: solve aborted in a stage, 0 1 2: reinitialize with this
# benchmark, X: reinitialize with data which cannot be solved
OPERATIONS = "SPA012X"


class Abort(Exception):
    pass


def jobs(tier):
    deep = tier == "thorough"
    result = []
    for start in [0.0, 0.5]:
        for problem in ["advection", "burgers"]:
            for name in SCALAR:
                for integrator in INTEGRATORS:
                    for boundary in ["periodic", ("inflow", "outflow")]:
                        result.append(dict(kind="scalar", problem=problem, name=name,
                                           integrator=integrator, boundary=boundary,
                                           start=start, deep=deep))
            for name in fe.SOLVERS:
                for n, p in [(4, 1), (2, 2), (2, 3)] + ([(1, 7)] if deep else []):
                    for adaptive in [False, True] if name in ("cg-low", "mcl-fem") else [False]:
                        if p < 7 or name == "cg":
                            result.append(dict(kind="element", problem=problem, name=name, n=n,
                                               p=p, adaptive=adaptive, start=start, deep=deep))
        for name in [*swe.FACTORIES, "coarse", "coarse+central", "coarse-1", "coarse-4+low-order", "reduced-llf", "reduced-llf-2"]:
            for boundary in ["periodic", ("inflow", "wall"), ("outflow", "inflow")]:
                result.append(dict(kind="water", name=name, boundary=boundary, start=start,
                                   deep=deep))
    for name in [*SCALAR, *fe.SOLVERS, *swe.FACTORIES, "coarse"]:
        result.append(dict(kind="same", name=name, deep=deep))
    for name in [*SCALAR, *fe.SOLVERS, *swe.FACTORIES, "coarse"]:
        for integrator in [None] if name in ("cg", "cg-exact", "lw", "coarse") else INTEGRATORS:
            result.append(dict(kind="continued", name=name, integrator=integrator, deep=deep))
    for n in [5, 130]:
        for element in [*SCALAR, *fe.SOLVERS, *swe.FACTORIES]:
            result.append(dict(kind="close", n=n, element=element, deep=deep))
    return result


# what a new solver yields is found out in processes of their own
FRESH = True


def run(job, rec):
    with networks.directory():
        {"same": _same_benchmark}.get(job["kind"], globals().get("_" + job["kind"]))(job, rec)


class _Switch:
    """Prescribed data which raise when armed after some calls."""

    def __init__(self, value):
        self.value, self.left = value, None

    def __call__(self, t):
        if self.left is not None:
            self.left -= 1
            if self.left < 0:
                raise Abort
        return self.value(t)


def _partial(solver, steps):
    """Some time steps, taken as solve takes them."""
    ode, stepping = ode_solver(solver), time_stepping(solver)
    rhs = solver.as_dict()["right_hand_side"]
    for k, dt in enumerate(stepping):
        if hasattr(rhs, "set_time_step"):
            rhs.set_time_step(dt)
        ode.execute(dt)
        solver.solution.update(dt, ode.solution)
        if k + 1 == steps:
            break


def _snapshot(solver):
    s = solver.solution
    values = [np.array(s.value), np.array([s.time])]
    if hasattr(s, "value_history"):
        values += [np.array(s.value_history), np.array(s.time_history),
                   np.array(s.time_step_history)]
    return values


def _same(a, b):
    return len(a) == len(b) and all(
        x.shape == y.shape and np.all(np.abs(x - y) <= 1e-12 * (1 + np.abs(y))) for x, y in zip(a, b)
    )


def _alone(functions):
    """The results of the functions, each of which is called in a process of its own."""
    pristine = Pristine(lambda k: functions[k]())
    try:
        return [pristine(k) for k in range(len(functions))]
    finally:
        pristine.close()


def _new(build):
    """The states and the number of time steps of a new solver."""
    solver = build()
    initial = _snapshot(solver)
    with capture():
        solver.solve(disable=True)
    return initial, _snapshot(solver), time_stepping(solver).time_steps_number


def _explore(job, rec, build, worlds, bad, switch, depth):
    """All words up to DEPTH followed by reinitialize and solve."""
    outcomes = _alone([lambda w=world, h=history: _new(lambda: build(w(), h)) for history in (False, True) for world in worlds])
    for history in (False, True):
        _words(job, rec, build, worlds, bad, switch, history, depth, outcomes[history * len(worlds):][:len(worlds)])


def _words(job, rec, build, worlds, bad, switch, history, depth, outcomes):
    if not job["deep"] and (not history or job["start"]):
        depth = min(depth, 1)
    expected_initial, expected, numbers = zip(*outcomes)
    rec.step(sum(numbers))
    for i, j in itertools.combinations(range(len(worlds)), 2):
        rec.check(not _same(expected[i], expected[j]), "vacuous benchmarks")
    operations = OPERATIONS if switch is not None else OPERATIONS.replace("A", "")
    for length in range(depth + 1):
        for word in itertools.product(operations, repeat=length):
            for final in range(len(worlds)):
                solver = build(worlds[0](), history)
                for operation in word:
                    with capture():
                        try:
                            if operation == "S":
                                solver.solve(disable=True)
                            elif operation == "P":
                                _partial(solver, 2)
                            elif operation == "A":
                                switch.left = 3
                                solver.solve(disable=True)
                            elif operation == "X":
                                solver.reinitialize(bad())
                                solver.solve(disable=True)
                            else:
                                solver.reinitialize(worlds[int(operation)]())
                        except (Abort, ValueError, TimeStepTooSmallError):
                            rec.outcome(f"aborted {operation}")
                    if switch is not None:
                        switch.left = None
                world = worlds[final]()
                before = np.array(world.values) if not callable(world.values) else None
                solver.reinitialize(world)
                rec.state(job, history, word, final)
                rec.step(len(word) + 2)
                rec.valid()
                rec.check(_same(_snapshot(solver), expected_initial[final]),
                          "reinitialized solver does not start from the benchmark",
                          lambda: dict(word=word, final=final, got=_snapshot(solver),
                                       expected=expected_initial[final]))
                with capture():
                    solver.solve(disable=True)
                got = _snapshot(solver)
                rec.check(_same(got, expected[final]),
                          "reinitialized solver yields another solution than a new one",
                          lambda: dict(word=word, final=final, got=got[0],
                                       expected=expected[final][0],
                                       lengths=[len(g) for g in got],
                                       expected_lengths=[len(g) for g in expected[final]]))
                rec.check(before is None or np.array_equal(before, world.values),
                          "data of the benchmark changed", dict(word=word))


# ------------------------------------------------------------------------- worlds
def _scalar(job, rec):
    start, boundary = job["start"], job["boundary"]
    n = 5
    switch = _Switch(lambda t: 0.5 + t) if boundary != "periodic" else None

    def world(values):
        return lambda: ScalarWorld(job["problem"], values, length=2.0, start=start,
                                   end_time=start + 0.19, boundary=boundary, left=switch,
                                   right=lambda t: -t)

    # the cell averages of the last one depend on the quadrature
    worlds = [world([0, 1, 2, -1, 0.5]), world([1.5, -0.5, 0, 0, 3]), world(lambda x: float(1 - x + x**5 / 8 - x**7 / 40))]
    bad = world([1e308, -1e308, 1e308, 1e200, 0])
    _explore(job, rec,
             lambda w, h: SCALAR[job["name"]](w, mesh_size=n, cfl_number=0.1, save_history=h,
                                              ode_solver_type=INTEGRATORS[job["integrator"]]),
             worlds, bad, switch, 2 if not job["deep"] else 3)
    rec.outcome(f"scalar {job['name']}")


def _element(job, rec):
    start, n, p, name = job["start"], job["n"], job["p"], job["name"]
    length = 2.0
    dim = n * p

    def world(values):
        values = np.resize(np.array(values, dtype=float), dim)
        return lambda: ScalarWorld(job["problem"], fe.nodal(values, n, p, length), length=length,
                                   start=start, end_time=start + (0.05 if p < 7 else 0.002))

    worlds = [world([0, 1, 2, -1]), world([1.5, -0.5, 0, 3]), world([0.25, 4, 0.5, 0])]
    bad = world([1e13, -1e13, 0, 1] if name in ("cg-low", "mcl-fem") else [1e308, -1e308, 1e200, 1])

    def build(w, h):
        kwargs = dict(mesh_size=n, polynomial_degree=p, save_history=h)
        if name in ("cg-low", "mcl-fem"):
            kwargs |= dict(cfl_number=0.6, adaptive=job["adaptive"])
        else:
            kwargs |= dict(cfl_number=0.02)
        return fe.SOLVERS[name](w, **kwargs)

    depth = 1 if p > 1 and not job["deep"] else 2 + (job["deep"] and p == 1)
    _explore(job, rec, build, worlds, bad, None, depth)
    rec.outcome(f"element {name}")


def _close(job, rec):
    """Benchmarks which differ slightly, by their scale, or on many cells."""
    n, element = job["n"], job["element"]
    index = np.arange(n)
    base = 1 + 0.5 * np.sin(index)
    for family in ("scalar", "water", "element"):
        if family == "element":
            values = [base, base + 1e-8 * np.cos(index), 1e-6 * base, np.roll(base, 1)]
            worlds = [lambda v=v: ScalarWorld("burgers", fe.nodal(v, n, 1, 2.0), length=2.0, end_time=0.05 if n < 50 else 0.002) for v in values]
            names = fe.SOLVERS
            build = lambda w, name: fe.SOLVERS[name](w, mesh_size=n, polynomial_degree=1, cfl_number=0.02 if name.startswith("cg") and name != "cg-low" else 0.6, save_history=True)
        elif family == "scalar":
            values = [base, base + 1e-8 * np.cos(index), 1e-6 * base, np.roll(base, 1)]
            worlds = [lambda v=v: ScalarWorld("burgers", v, length=2.0, end_time=0.19 if n < 50 else 0.01) for v in values]
            names = SCALAR
            build = lambda w, name: SCALAR[name](w, mesh_size=n, cfl_number=0.1, save_history=True)
        else:
            state = np.stack([base, 0.25 * np.cos(index)], axis=1)
            values = [state, state + 1e-8 * np.cos(index)[:, None], state * np.array([1e-4, 1e-6]), np.roll(state, 1, axis=0)]
            worlds = [lambda v=v: WaterWorld(v, None, length=2.0, end_time=0.14 if n < 50 else 0.005, g=1.0) for v in values]
            names = [k for k in swe.FACTORIES]
            build = lambda w, name: swe.FACTORIES[name](w, mesh_size=n, cfl_number=0.1, save_history=True)
        for name in [k for k in names if element in (None, k)]:
            def outcome(solver):
                """None if the solver fails."""
                with capture():
                    try:
                        solver.solve(disable=True)
                    except ValueError:
                        return None
                return _snapshot(solver)

            expected = _alone([lambda w=world: outcome(build(w(), name)) for world in worlds])
            solver = build(worlds[0](), name)
            for final in CLOSE_WORD if n < 50 or job["deep"] else CLOSE_WORD[:6]:
                solver.reinitialize(worlds[final]())
                got = outcome(solver)
                rec.state("close", family, name, n, final)
                rec.step(time_stepping(solver).time_steps_number)
                rec.valid()
                if got is None:
                    rec.outcome("aborted close")
                if got is None or expected[final] is None:
                    rec.check(got is expected[final], "only one of the reinitialized and the new solver fails",
                              dict(family=family, name=name, n=n, final=final))
                    continue
                scale = [max(np.max(np.abs(e)), 1e-300) for e in expected[final]]
                ok = len(got) == len(scale) and all(
                    a.shape == b.shape and np.all(np.abs(a - b) <= 1e-12 * c) for a, b, c in zip(got, expected[final], scale))
                rec.check(ok, "reinitialized solver yields another solution than a new one",
                          lambda: dict(family=family, name=name, n=n, final=final, got=got[0], expected=expected[final][0]))
    rec.outcome(f"close {n}")


def _same_object(job, rec, family, values, build, world):
    """One benchmark object whose data change between the runs."""
    expected = [new[1] for new in _alone([lambda v=v: _new(lambda: build(world(v))) for v in values])]
    for first, *word in itertools.product(range(len(values)), repeat=4 if job["deep"] else 3):
        for solved in (True, False):
            benchmark = world(values[first])
            solver = build(benchmark)
            for k in word:
                if solved:
                    with capture():
                        solver.solve(disable=True)
                benchmark.values = values[k]
                solver.reinitialize(benchmark)
            with capture():
                solver.solve(disable=True)
            rec.state("same", family, job["name"], first, word, solved)
            rec.step(len(word) + 1)
            rec.valid()
            rec.check(_same(_snapshot(solver), expected[word[-1]]), "reinitialized with the same benchmark, whose data have changed",
                      lambda: dict(family=family, name=job["name"], word=(first, *word), solved=solved,
                                   got=_snapshot(solver)[0], expected=expected[word[-1]][0]))
    rec.outcome(f"same {job['name']}")


def _same_benchmark(job, rec):
    name, n = job["name"], 4
    index = np.arange(n)
    rows = [1 + 0.5 * np.sin(index), np.array([0.5, 2.0, 1.0, 1.0]), 1 + 0.5 * np.sin(index + 1e-5)]
    if name in SCALAR:
        _same_object(job, rec, "scalar", [*rows, lambda x: 1.0 + x**3],
                     lambda w: SCALAR[name](w, mesh_size=n, cfl_number=0.1, save_history=True),
                     lambda v: ScalarWorld("burgers", v, length=2.0, end_time=0.19))
    if name in fe.SOLVERS:
        kwargs = dict(cfl_number=0.6) if name in ("cg-low", "mcl-fem") else dict(cfl_number=0.02)
        _same_object(job, rec, "element", [*[fe.nodal(v, n, 1, 2.0) for v in rows], lambda x: 1.0 + x**3],
                     lambda w: fe.SOLVERS[name](w, mesh_size=n, polynomial_degree=1, save_history=True, **kwargs),
                     lambda v: ScalarWorld("burgers", v, length=2.0, end_time=0.05))
    if name in swe.FACTORIES or name == "coarse":
        factory = swe.FACTORIES.get(name) or (lambda w, **kw: SW.CoarseSolver(w, coarsening_degree=2, **kw))
        states_ = [np.stack([v, 0.25 * np.cos(index)], axis=1) for v in rows]
        _same_object(job, rec, "water", [*states_, lambda x: np.array([1.0 + x**3, 0.5 * x])],
                     lambda w: factory(w, mesh_size=n, cfl_number=0.1, save_history=True),
                     lambda v: WaterWorld(v, None, length=2.0, end_time=0.14, g=1.0))


def _continued(job, rec):
    """The new initial values are those at which the solver stands, the end of a solve
    or of some steps, or the old ones, which may never have changed.  Prescribed data change in time."""
    name, n, start, end = job["name"], 4, 0.5, 0.64
    # constant until the end time
    late = lambda t: 1.0 + (t > end + 1e-9) * (t - end)
    rows = [np.ones(n), 1 + 0.5 * np.sin(np.arange(n))]
    kwargs = dict(mesh_size=n, cfl_number=0.1, save_history=True)
    if job["integrator"]:
        kwargs["ode_solver_type"] = INTEGRATORS[job["integrator"]]
    common = dict(length=2.0, start=start, end_time=end)
    for moving in (False, True):
        inflow = (lambda t: late(t) + t * t) if moving else late
        # some names stand for a scalar and for a shallow water solver
        if name in SCALAR:
            factory = lambda w: SCALAR[name](w, **kwargs)
            world = lambda v: ScalarWorld("burgers", v, boundary=("inflow", "inflow"), left=inflow, right=inflow, **common)
            values = rows
            _continue(rec, name, factory, world, values, moving)
        if name in fe.SOLVERS:
            options = dict(kwargs, polynomial_degree=1, cfl_number=0.6 if name in ("cg-low", "mcl-fem") else 0.02)
            world = lambda v: ScalarWorld("burgers", fe.nodal(v, n, 1, 2.0), **common)
            _continue(rec, name, lambda w: fe.SOLVERS[name](w, **options), world, rows, moving)
        if name in swe.FACTORIES or name == "coarse":
            prescribed = lambda t: np.array([inflow(t), 0.0 if not moving else t])
            boundary = "periodic" if name == "coarse" else ("inflow", "inflow")
            world = lambda v: WaterWorld(np.array(v) if not callable(v) else v, None, g=1.0, boundary=boundary,
                                         left=prescribed, right=prescribed, **common)
            factory = lambda w: (swe.FACTORIES[name](w, **kwargs) if name != "coarse" else SW.CoarseSolver(w, coarsening_degree=2, **kwargs))
            _continue(rec, name, factory, world, [np.stack([r, 0.25 * (r - 1)], axis=1) for r in rows], moving)
    rec.outcome(f"continued {name}")


def _continue(rec, name, build, world, rows, moving):
    n, known = len(rows[0]), {}
    for (k, row), operation, times in itertools.product(enumerate(rows), "SP", (1, 2)):
        for same, old in itertools.product((False, True), repeat=2):
            benchmark = world(row)
            solver = build(benchmark)
            for _ in range(times):
                with capture():
                    solver.solve(disable=True) if operation == "S" else _partial(solver, 2)
                reached = np.array(ode_solver(solver).solution)
                if old:
                    reached = row
                elif name == "coarse":
                    reached = np.repeat(np.array(solver.solution.value), 2, axis=0)
                if same:
                    benchmark.values = reached if not name in fe.SOLVERS else fe.nodal(reached, n, 1, 2.0)
                    following = benchmark
                else:
                    following = world(reached)
                solver.reinitialize(following)
            with capture():
                solver.solve(disable=True)
            key = np.asarray(reached).tobytes()
            if key not in known:
                known[key] = _alone([lambda: _new(lambda: build(world(reached)))])[0][1]
            expected = known[key]
            rec.state("continued", name, k, operation, times, same, old, moving)
            rec.step(times + 1)
            rec.valid()
            rec.check(_same(_snapshot(solver), expected), "reinitialized with the values at which it stands",
                      lambda: dict(name=name, row=row, operation=operation, times=times, moving=moving,
                                   got=_snapshot(solver)[0], expected=expected[0]))


# every benchmark is followed by every other one and by itself
CLOSE_WORD = [1, 0, 1, 1, 2, 0, 2, 1, 3, 2, 2, 3, 3, 1, 2, 3, 0, 0, 3, 0]


def _water(job, rec):
    start, boundary, name = job["start"], job["boundary"], job["name"]
    n = 4
    length, cfl = (40.0, 0.004) if name.startswith("reduced") else (2.0, 0.1)
    switch = _Switch(lambda t: np.array([1.0 + t, 0.5])) if boundary != "periodic" else None
    bottom = None if name.split("+")[0] in ("lw", "llf", "antidiffusion") or (
        name.startswith(("coarse", "reduced"))) else [0.0, 0.25, 0.5, 0.0]

    def world(values):
        if callable(values):
            return lambda: WaterWorld(values, bottom, length=length, start=start, end_time=start + 0.14,
                                      boundary=boundary, left=switch, right=switch)
        values = np.array(values, dtype=float)
        if name.startswith("reduced"):
            # close to the training data
            values = np.array([2.0, 0.0]) + 0.05 * values
        return lambda: WaterWorld(values, bottom, length=length, start=start, end_time=start + 0.14,
                                  boundary=boundary, left=switch, right=switch)

    worlds = [world([(1, 0), (2, 1), (1, 0.5), (3, 0)]), world([(2, -1), (1, 0), (1, 1), (0.5, 0)]),
              # cell averages which depend on the quadrature
              world(lambda x: np.array([2 + 0.05 * (x / length) ** 6, 0.1 * (x / length) ** 5]))]
    bad = world([(1, 0), (-1, 1), (1, 0.5), (1e300, 1e300)])
    if name.startswith("reduced"):
        factory = networks.FACTORIES[name]
    elif name.startswith("coarse"):
        flux = swe.G[name.split("+")[1]] if "+" in name else None
        degree = int(name.split("+")[0].split("-")[1]) if "-" in name.split("+")[0] else 2
        factory = lambda w, **kw: SW.CoarseSolver(w, coarsening_degree=degree, flux_getter=flux, **kw)
    else:
        factory = swe.FACTORIES[name]
    _explore(job, rec,
             lambda w, h: factory(w, mesh_size=n, cfl_number=cfl, save_history=h),
             worlds, bad, switch, (1 if name.startswith(("mcl", "reduced")) else 2) if not job["deep"] else 2)
    rec.outcome(f"water {name}")
