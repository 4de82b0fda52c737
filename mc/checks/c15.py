"""Isolation and determinism.  A controlled scheduler runs two or three real solvers in
one process: every interleaving of their time steps, of the stages of complete
concurrent solves (each solve runs in its own thread, which hands over at every
evaluation of its right hand side), and every word of evaluations of right hand sides
is explored; each solver has to yield what it yields alone in a process of its own.
Solvers with nearly equal data and large meshes are included."""
import itertools
import threading

import numpy as np

import finite_volume.scalar.solver as SS
import finite_volume.shallow_water.solver as SW

from .. import fe, networks, swe
from ..core import Pristine
from ..worlds import INTEGRATORS, ScalarWorld, WaterWorld, ode_solver, right_hand_side, time_stepping

ASSUMPTIONS = [
    "equality up to 1e-11 (1e-5 for networks of single precision)",
    "schedules switch between right hand side evaluations; preemption inside numpy "
    "calls is not explored (the code has no threads of its own)",
]


def jobs(tier):
    deep = tier == "thorough"
    names = list(_kinds())
    result = []
    for i, first in enumerate(names):
        result.append(dict(kind="steps", first=first, seconds=names[i:], deep=deep))
        result.append(dict(kind="stages", first=first, seconds=names[i:], deep=deep))
        result.append(dict(kind="pure", name=first, deep=deep))
        result.append(dict(kind="lifecycle", name=first, deep=deep))
    for first in _changes():
        result.append(dict(kind="apart", name=first, deep=deep))
    for triple in [("llf", "llf", "low-order"), ("mcl", "mcl+es", "antidiffusion"),
                   ("cg", "cg-low", "mcl-fem"), ("mcl-fem", "mcl-fem", "mcl-fem"),
                   ("scalar-mcl", "scalar-mcl", "mcl"), ("lw", "lw", "coarse")]:
        result.append(dict(kind="triples", triple=triple, deep=deep))
    return result


# solvers of one type which differ in a single input
def _changes():
    """name -> changes of a single input"""
    water = [dict(), dict(g=2.0), dict(bottom=[0.2, 0.1, 0.0, 0.3]), dict(bottom=[0.3, 0.1, 0.2, 0.0]),
             dict(length=3.0), dict(offset=5.0), dict(boundary=("wall", "inflow")), dict(left=2.0),
             dict(n=8), dict(values=1), dict(cfl=0.04), dict(start=1.0), dict(end=0.08)]
    result = {}
    for name in [*swe.FACTORIES, "coarse"]:
        flat = name in ("lw", "llf") or name.startswith("antidiffusion")
        result[name] = [c for c in water if not (flat and "bottom" in c)]
        if name == "coarse":
            # the grids of the coarse solver need a constant bottom
            result[name] = [c for c in result[name] if "boundary" not in c] + [dict(degree=4)]
        if name.startswith("antidiffusion"):
            result[name] = result[name] + [dict(gamma=0.3), dict(gamma=0.0)]
        if name != "lw":
            result[name] = result[name] + [dict(ode="heun"), dict(ode="euler")]
    scalar = [dict(), dict(problem="advection"), dict(length=3.0), dict(offset=5.0), dict(n=8), dict(values=1),
              dict(cfl=0.04), dict(start=1.0), dict(end=0.08), dict(ode="ssp3"), dict(ode="euler")]
    for name in ["scalar-llf", "scalar-mcl", "scalar-central"]:
        result[name] = scalar + [dict(boundary=("inflow", "outflow")), dict(left=2.0)]
    for name in fe.SOLVERS:
        options = [c for c in scalar if "ode" not in c or name in ("cg-low", "mcl-fem")]
        result[name] = options + [dict(p=2), dict(n=2, p=2), dict(p=3)]
        if name in ("cg-low", "mcl-fem"):
            result[name] = result[name] + [dict(adaptive=True)]
    return result


def _changed(name, change):
    """The solver of a type with a single input changed."""
    get = lambda key, default: change.get(key, default)
    n, start = get("n", 4), get("start", 0.0)
    kwargs = dict(mesh_size=n, cfl_number=get("cfl", 0.05), save_history=True)
    if "ode" in change:
        kwargs["ode_solver_type"] = INTEGRATORS[change["ode"]]
    common = dict(length=get("length", 2.0), offset=get("offset", -1.0), start=start, end_time=start + 0.7 * get("end", 0.1))
    inflow = get("left", 1.5)
    if name in swe.FACTORIES or name == "coarse":
        words = [[(1, 0), (2, 1), (1, 0.5), (3, 0)], [(2, -1), (1, 0), (1, 1), (0.5, 0)]]
        values = (words[get("values", 0)] * 2)[:n]
        bottom = change.get("bottom", [0.0, 0.1, 0.3, 0.2])
        if name in ("lw", "llf", "coarse") or name.startswith("antidiffusion"):
            bottom = change.get("bottom")
        boundary = "periodic" if name == "coarse" else get("boundary", ("inflow", "wall"))
        world = WaterWorld(values, bottom and (bottom * 2)[:n], g=get("g", 1.0), boundary=boundary,
                           left=lambda t: np.array([inflow + t, 0.5]), right=lambda t: np.array([2.0, t]), **common)
        if name == "coarse":
            return SW.CoarseSolver(world, coarsening_degree=get("degree", 2), **kwargs)
        if "gamma" in change:
            kwargs["gamma"] = change["gamma"]
        return swe.FACTORIES[name](world, **kwargs)
    values = [[0, 1, 2, -1, 0.5, 0.25, -0.5, 1], [1.5, -0.5, 0, 1, 2, 1, -1, 0]][get("values", 0)]
    problem = get("problem", "burgers")
    if name in fe.SOLVERS:
        p = get("p", 1)
        values = (values * 2)[: n * p]
        world = ScalarWorld(problem, fe.nodal(values, n, p, common["length"], common["offset"]), **common)
        kwargs["polynomial_degree"] = p
        if name in ("cg-low", "mcl-fem"):
            kwargs.update(cfl_number=get("cfl", 0.3), adaptive=get("adaptive", False))
        return fe.SOLVERS[name](world, **kwargs)
    solver = {"scalar-llf": SS.LaxFriedrichsSolver, "scalar-mcl": SS.MCLSolver, "scalar-central": SS.CentralFluxSolver}[name]
    world = ScalarWorld(problem, values[:n], boundary=get("boundary", ("inflow", "inflow")),
                        left=lambda t: inflow + t, right=lambda t: -0.5 - t, **common)
    return solver(world, **kwargs)


def _apart_alone(name, change):
    solver = _changed(name, change)
    solver.solve(disable=True)
    return _result(solver)


def _apart(job, rec):
    """Every ordered pair of solvers of a type which differ in one or two inputs, built
    and solved in both orders, one of them a second time."""
    name, changes = job["name"], _changes()[job["name"]]
    expected = [_pristine("_apart_alone", name, c) for c in changes]
    for i, k in itertools.product(range(len(changes)), repeat=2):
        for order in ((0, 1), (1, 0)):
            pair = (i, k)
            solvers = [_changed(name, changes[j]) for j in pair]
            for j in order:
                solvers[j].solve(disable=True)
                rec.step(time_stepping(solvers[j]).time_steps_number)
            rec.state("apart", name, i, k, order)
            rec.valid()
            for j, solver in zip(pair, solvers):
                rec.check(_equal(_result(solver), expected[j], name), "solver is influenced by another one of its type",
                          lambda: dict(name=name, changes=[changes[i], changes[k]], order=order, solver=changes[j],
                                       got=_result(solver)[0], expected=expected[j][0]))
    rec.outcome(f"apart {name}")


# what a solver yields alone is found out in processes of their own
FRESH = True


def run(job, rec):
    global _pristine
    with networks.directory():
        _pristine = Pristine(lambda function, *arguments: globals()[function](*arguments))
        try:
            globals()["_" + job["kind"]](job, rec)
        finally:
            _pristine.close()


# -------------------------------------------------------------------------- solvers


def _kinds():
    """name -> constructor(variant).  Variants differ in data, mesh and parameters."""
    result = {}
    worlds = {}

    def shared(key, build):
        """One benchmark object for all solvers of a variant."""
        if key not in worlds:
            worlds[key] = build()
        return worlds[key]

    def water(factory, wide=False):
        def build(variant):
            n = [4, 4, 6, 6][variant]
            values = [[(1, 0), (2, 1), (1, 0.5), (3, 0)], [(2, -1), (1, 0), (1, 1), (0.5, 0)],
                      [(1, 1), (1, 1), (3, 1), (3, -1), (1, 0), (2, 0)],
                      [(1, 1), (1, 1), (3, 1), (3, -1), (1, 0), (2, 0)]][variant]
            more = 0.5 if variant == 3 else 0.0
            if wide:
                values = np.array([2.0, 0.0]) + 0.05 * np.array(values)
            length = 40.0 if wide else [2.0, 4.0, 2.0, 2.0][variant]
            world = shared(("water", wide, variant), lambda: WaterWorld(
                values, None, length=length, g=[1.0, 9.812, 4.0, 4.0][variant], end_time=0.3,
                boundary=["periodic", ("outflow", "wall"), ("inflow", "inflow"),
                          ("inflow", "inflow")][variant],
                left=lambda t: np.array([1.0 + t + more, 0.5]), right=lambda t: np.array([2.0 + more, t])))
            return factory(world, mesh_size=n, cfl_number=0.002 if wide else 0.05, save_history=True)
        return build

    for name in ["llf", "lw", "central", "low-order", "es", "es1", "mcl", "mcl+es",
                 "antidiffusion"]:
        result[name] = water(swe.FACTORIES[name])
    result["coarse"] = water(lambda w, **kw: SW.CoarseSolver(w, coarsening_degree=2, **kw))
    for name, factory in networks.FACTORIES.items():
        result[name] = water(factory, True)

    def scalar(solver, problem):
        def build(variant):
            values = [[0, 1, 2, -1, 0.5], [1.5, -0.5, 0], [2.0, 2, 1, 0], [1.5, -0.5, 0]][variant]
            world = shared(("scalar", problem, variant), lambda: ScalarWorld(
                problem, values, length=2.0, end_time=0.3,
                boundary=["periodic", ("inflow", "outflow"), "periodic", ("inflow", "outflow")][variant],
                left=lambda t: (-1.0 if variant == 3 else 0.5) + t))
            return solver(world, mesh_size=len(values), cfl_number=0.05, save_history=True)
        return build

    result["scalar-llf"] = scalar(SS.LaxFriedrichsSolver, "burgers")
    result["scalar-mcl"] = scalar(SS.MCLSolver, "burgers")
    result["scalar-central"] = scalar(SS.CentralFluxSolver, "advection")

    def element(name):
        def build(variant):
            n, p = [(4, 1), (2, 2), (5, 1), (4, 1)][variant]
            problem = ["burgers", "advection", "burgers", "advection"][variant]
            values = [0, 1, 2, -1, 0.5][: n * p]
            world = shared(("element", variant), lambda: ScalarWorld(
                problem, fe.nodal(values, n, p, 2.0), length=2.0, end_time=0.1))
            kwargs = dict(cfl_number=0.02)
            if name in ("cg-low", "mcl-fem"):
                kwargs = dict(cfl_number=0.3, adaptive=variant == 2)
            return fe.SOLVERS[name](world, mesh_size=n, polynomial_degree=p, save_history=True,
                                    **kwargs)
        return build

    for name in fe.SOLVERS:
        result[name] = element(name)
    return result


def _stepper(solver, steps):
    """Generator taking one time step at a time, as solve does."""
    ode, rhs = ode_solver(solver), right_hand_side(solver)
    for k, dt in enumerate(time_stepping(solver)):
        if k == steps:
            return
        if hasattr(rhs, "set_time_step"):
            rhs.set_time_step(dt)
        ode.execute(dt)
        solver.solution.update(dt, ode.solution)
        yield


def _result(solver):
    s = solver.solution
    return [np.array(s.value), np.array(s.value_history), np.array(s.time_history)]


def _close(a, b, name):
    eps = 1e-5 if name.startswith("reduced") else 1e-11
    return a.shape == b.shape and np.all(np.abs(a - b) <= eps * (1 + np.abs(b)))


def _equal(a, b, name):
    return all(_close(x, y, name) for x, y in zip(a, b))


_alone = {}


def _expected(kinds, name, variant, steps):
    key = name, variant, steps
    if key not in _alone:
        _alone[key] = _pristine("_result_alone", *key)
    return _alone[key]


def _result_alone(name, variant, steps):
    solver = _kinds()[name](variant)
    if steps is None:
        solver.solve(disable=True)
    else:
        for _ in _stepper(solver, steps):
            pass
    return _result(solver)


def _value_alone(name, variant, dt, t, vector):
    rhs = right_hand_side(_kinds()[name](variant))
    if dt:
        rhs.set_time_step(dt)
    return np.array(rhs(t, vector))


def _schedules(counts):
    """All words with the given number of each letter."""
    if not any(counts):
        yield ()
        return
    for i, c in enumerate(counts):
        if c:
            rest = list(counts)
            rest[i] -= 1
            for word in _schedules(rest):
                yield (i, *word)


# ----------------------------------------------------------------------------- steps
def _interleave(rec, kinds, members, steps, construct):
    """All interleavings of construction and time steps of the members."""
    expected = [_expected(kinds, name, v, steps) for name, v in members]
    for word in _schedules([steps + construct] * len(members)):
        # without construct all solvers are built first
        solvers = [None if construct else kinds[name](v) for name, v in members]
        steppers = [None if construct else _stepper(s, steps) for s in solvers]
        for i in word:
            if solvers[i] is None:
                solvers[i] = kinds[members[i][0]](members[i][1])
                steppers[i] = _stepper(solvers[i], steps)
            else:
                next(steppers[i])
        rec.state("steps", members, word, construct)
        rec.step(len(word))
        rec.valid()
        for i, solver in enumerate(solvers):
            rec.check(_equal(_result(solver), expected[i], members[i][0]),
                      "solver is influenced by another one",
                      lambda: dict(members=members, schedule=word, solver=members[i],
                                   got=_result(solver)[0], expected=expected[i][0]))


def _steps(job, rec):
    kinds = _kinds()
    for second in job["seconds"]:
        variants = [(0, 0), (0, 1), (1, 0), (0, 2)] if job["deep"] else [(0, 1)]
        if second == job["first"]:
            variants = [(0, 0), (0, 1), (0, 2), (1, 2), (1, 0), (2, 3), (1, 3)]
        for v, w in variants:
            members = [(job["first"], v), (second, w)]
            _interleave(rec, kinds, members, 2 if not job["deep"] else 3, False)
            if job["deep"] or second == job["first"]:
                _interleave(rec, kinds, members, 2, True)
        rec.outcome(f"steps {job['first']} {second}")


def _triples(job, rec):
    kinds = _kinds()
    for variants in itertools.product(range(3), repeat=3) if job["deep"] else [
            (0, 1, 2), (0, 0, 1), (2, 1, 0)]:
        members = list(zip(job["triple"], variants))
        _interleave(rec, kinds, members, 2, False)
        rec.outcome(f"triple {job['triple']}")


# ---------------------------------------------------------------------------- stages
class _Scheduler:
    """Runs threads one at a time; each hands over at its scheduling points."""

    def __init__(self, word):
        self.word, self.position = list(word), 0
        self.condition = threading.Condition()
        self.finished = set()
        self.errors = []

    def _turn(self):
        while self.position < len(self.word) and self.word[self.position] in self.finished:
            self.position += 1
        return self.word[self.position] if self.position < len(self.word) else None

    def wait(self, i):
        with self.condition:
            self.condition.wait_for(lambda: self._turn() in (i, None), timeout=60)

    def point(self, i):
        with self.condition:
            self.position += 1
            self.condition.notify_all()
        self.wait(i)

    def end(self, i):
        with self.condition:
            self.finished.add(i)
            self.condition.notify_all()

    def execute(self, tasks):
        """The threads are started one after the other, each runs until its first
        scheduling point when it is its turn."""
        def body(i, task):
            try:
                self.wait(i)
                task(lambda: self.point(i))
            except BaseException as error:
                self.errors.append(error)
            finally:
                self.end(i)

        threads = [threading.Thread(target=body, args=(i, t)) for i, t in enumerate(tasks)]
        for thread in threads:
            thread.start()
        for thread in threads:
            thread.join()
        if self.errors:
            raise self.errors[0]


def _points(rhs, point):
    """The right hand side with a scheduling point before each evaluation."""
    def wrapped(time, value):
        point()
        return rhs(time, value)
    return wrapped


def _task(kinds, name, variant, results, i, steps):
    """STEPS time steps with the solver's right hand side and integrator type."""
    solver = kinds[name](variant)

    def task(point):
        rhs = right_hand_side(solver)
        ode = type(ode_solver(solver))(
            _points(rhs, point), np.array(ode_solver(solver).solution),
            initial_time=solver.solution.time)
        for k, dt in enumerate(time_stepping(solver)):
            if k == steps:
                break
            if hasattr(rhs, "set_time_step"):
                rhs.set_time_step(dt)
            ode.execute(dt)
            solver.solution.update(dt, ode.solution)
        results[i] = _result(solver)

    return task


def _stages(job, rec):
    kinds = _kinds()
    steps = 1
    for second in job["seconds"]:
        pairs = [(0, 1)] if second != job["first"] else [(0, 0), (0, 1), (1, 2)]
        for v, w in pairs:
            members = [(job["first"], v), (second, w)]
            expected = [_expected(kinds, *m, steps) for m in members]
            # every scheduling point of two stages and the start
            for word in _schedules([3, 3]):
                results = [None, None]
                tasks = [_task(kinds, *m, results, i, steps) for i, m in enumerate(members)]
                _Scheduler(word).execute(tasks)
                rec.state("stages", members, word)
                rec.step(len(word))
                rec.valid()
                for i in range(2):
                    rec.check(_equal(results[i], expected[i], members[i][0]),
                              "solver is influenced by a stage of another one",
                              lambda: dict(members=members, schedule=word, solver=members[i],
                                           got=results[i], expected=expected[i]))
        rec.outcome(f"stages {job['first']} {second}")


# ------------------------------------------------------------------------------ pure
def _pure(job, rec):
    """Words of evaluations: (vector, time) and changes of a vector in place."""
    kinds = _kinds()
    for variant in range(3):
        name = job["name"]
        fine = lambda: kinds[name](variant)
        base = fine()
        start = np.array(ode_solver(base).solution)
        vectors = [start, np.roll(start, 1, axis=0), start.copy()]
        vectors[2][0] = 0.5 * (start[0] + start[-1])
        times = [0.0, 0.75]
        steps = [0.1, 0.01] if name == "lw" else [None]
        expected = {}
        for i, v in enumerate(vectors):
            for t in times:
                for dt in steps:
                    expected[i, t, dt] = _pristine("_value_alone", name, variant, dt, t, v)
        letters = [(i, t, dt, mode) for i in range(3) for t in times for dt in steps
                   for mode in ("new", "place")]
        depth = 3 if not job["deep"] else 4
        if len(letters) > 12:
            depth -= 1
        elif name.startswith("reduced") and not job["deep"]:
            depth = 2
        rhs = right_hand_side(base)
        for word in itertools.product(letters, repeat=depth):
            buffer = start.copy()
            held = []
            for i, t, dt, mode in word:
                if mode == "place":
                    # the same array object with new contents
                    buffer[:] = vectors[i]
                    argument = buffer
                else:
                    argument = vectors[i].copy()
                if dt:
                    rhs.set_time_step(dt)
                value = rhs(t, argument)
                rec.step()
                ok = _close(value, expected[i, t, dt], name)
                ok = ok and np.array_equal(argument, vectors[i])
                held.append((value, expected[i, t, dt]))
                rec.check(ok, "right hand side depends on earlier evaluations or changes its argument",
                          lambda: dict(name=name, variant=variant, word=word, got=value,
                                       expected=expected[i, t, dt]))
            # results handed out earlier stay as they were
            rec.check(all(_close(a, b, name) for a, b in held),
                      "result handed out is changed by a later evaluation",
                      lambda: dict(name=name, variant=variant, word=word))
            rec.state("pure", name, variant, word)
            rec.valid()
        _nearly(rec, name, variant, fine, start)
    rec.outcome(f"pure {job['name']}")


def _nearly(rec, name, variant, build, start):
    """Words of evaluations at close vectors and times."""
    if name.startswith("reduced"):
        return
    wave = 1e-8 * (1 + np.cos(np.arange(start.size)).reshape(start.shape) ** 2)
    vectors = [start, start + wave * (start != 0), start * 1e-3]
    times = [0.25, 0.25 + 1e-8]

    def new():
        rhs = right_hand_side(build())
        if name == "lw":
            rhs.set_time_step(0.1)
        return rhs

    letters = list(itertools.product(range(3), range(2)))
    dt = 0.1 if name == "lw" else None
    expected = {(i, k): _pristine("_value_alone", name, variant, dt, times[k], vectors[i]) for i, k in letters}
    rhs = new()
    for word in itertools.product(letters, repeat=2):
        for i, k in word:
            value = rhs(times[k], vectors[i].copy())
            rec.step()
            rec.check(value.shape == expected[i, k].shape and np.all(np.abs(value - expected[i, k]) <= 1e-12 * np.max(np.abs(expected[i, k]))),
                      "right hand side depends on earlier evaluations at close vectors or times",
                      lambda: dict(name=name, variant=variant, word=word, got=value, expected=expected[i, k]))
        rec.state("nearly", name, variant, word)
        rec.valid()


# ------------------------------------------------------------------------- lifecycle
def _lifecycle(job, rec):
    """Complete solves in every order, repeated, of one process."""
    kinds = _kinds()
    name = job["name"]
    expected = {v: _pristine("_result_alone", name, v, None) for v in range(3)}
    for order in itertools.permutations(range(3)):
        for repeat in range(2):
            solvers = {v: kinds[name](v) for v in order}
            for v in order:
                solvers[v].solve(disable=True)
                rec.step(time_stepping(solvers[v]).time_steps_number)
            for v in order:
                result = _result(solvers[v])
                rec.check(_equal(result, expected[v], name),
                          "a second run yields another solution",
                          lambda: dict(name=name, variant=v, order=order))
            rec.state("lifecycle", name, order, repeat)
            rec.valid()
    rec.outcome(f"lifecycle {name}")


