"""Solves end at the end time and CFL violations are reported.  Complete real solves of
every solver type and of the benchmarks of the repository are executed and their
recorded histories judged; for the finite element solvers with a cfl check every step
of every run over all initial words is replayed by the reference model, which
predicts the steps with a violated stage; words of calls of the cfl checker with
changing states and time steps are enumerated; the optimal time step of finite volume
schemes is compared for all short words of states, all boundary conditions and two
times.  Very short and long time intervals are
included."""
import importlib
import itertools

import numpy as np

import core
import finite_volume
import finite_volume.scalar.solver as SS
import finite_volume.shallow_water.solver as SW
from benchmark import advection, burgers, shallow_water

swe_core = importlib.import_module("finite_volume.shallow_water.core")
swe_core_boundary = importlib.import_module("finite_volume.shallow_water.boundary").get_boundary_conditions

from .. import fe, ref_fe, states, swe
from ..core import capture
from ..worlds import INTEGRATORS, ScalarWorld, WaterWorld

ASSUMPTIONS = [
    "steps in which a stage has an optimal time step within 1e-9 (relative) of the "
    "used one are not compared",
]
SCALAR = {
    "llf": SS.LaxFriedrichsSolver,
    "central": SS.CentralFluxSolver,
    "mcl": SS.MCLSolver,
}
BENCHMARKS = {
    "advection": [
        advection.OneHillBenchmark,
        advection.TwoHillsBenchmark,
        advection.CosineBenchmark,
    ],
    "burgers": [burgers.SmoothBenchmark, burgers.SchockBenchmark],
}


def jobs(tier):
    deep = tier == "thorough"
    result = []
    for problem in BENCHMARKS:
        for name in [*SCALAR, *fe.SOLVERS]:
            result.append(dict(kind="scalar", problem=problem, name=name, deep=deep))
        for scheme in ["cg-low", "mcl-fem"]:
            for integrator in INTEGRATORS:
                for adaptive in [False, True]:
                    for n, p in [(3, 1), (4, 1), (2, 2)] + ([(2, 3), (5, 1)] if deep else []):
                        result.append(dict(kind="warnings", problem=problem, scheme=scheme,
                                           integrator=integrator, adaptive=adaptive, n=n, p=p,
                                           deep=deep))
                for n, p, scale in [(3, 1, 1e-4), (2, 2, 1e-6), (3, 1, 1e5)]:
                    result.append(dict(kind="warnings", problem=problem, scheme=scheme, integrator=integrator,
                                       adaptive=n == 3, n=n, p=p, scale=scale, deep=deep))
    for problem in ["advection", "burgers", 1.0, 9.81] + ([0.25, 100.0] if deep else []):
        result.append(dict(kind="volumes", problem=problem, deep=deep))
    result.append(dict(kind="command", deep=deep))
    for scheme in ["cg-low", "mcl-fem"]:
        result.append(dict(kind="collapse", scheme=scheme))
    for first in range(3):
        result.append(dict(kind="checker", first=first, deep=deep))
    for name in [*swe.FACTORIES, "coarse"]:
        result.append(dict(kind="water", name=name, deep=deep))
    return result


def run(job, rec):
    globals()["_" + job["kind"]](job, rec)


def _judge(rec, solver, start, end, limit, detail, degree=1, values=True):
    """History of a complete solve."""
    s = solver.solution
    times, steps = np.asarray(s.time_history), np.asarray(s.time_step_history)
    stepping = solver.as_dict()["time_stepping"]
    rec.step(len(steps))
    rec.valid()
    ok = len(times) == len(steps) + 1 == len(s.value_history)
    # times are sums of steps
    eps = 1e-10 * (end - start) + 1e-15 * len(steps) * (abs(start) + abs(end))
    ok = ok and times[0] == start and abs(times[-1] - end) <= eps and abs(s.time - end) <= eps
    ok = ok and np.allclose(np.diff(times), steps, rtol=0, atol=eps)
    ok = ok and np.all(steps > 0) and stepping.time == end
    ok = ok and stepping.time_steps_number == len(steps)
    if limit is not None:
        # recorded steps may be differences of times
        roundoff = limit * 1e-12 + 1e-15 * (abs(start) + abs(end))
        ok = ok and np.all(steps <= limit + roundoff)
        ok = ok and np.all(steps[:-1] >= limit - roundoff)
        ok = ok and len(steps) == int(np.ceil(round((end - start) / limit, 9)))
    if values:
        ok = ok and np.array_equal(s.value_history[-1], s.value)
    rec.check(ok, "solve does not end at the end time with one update per step",
              lambda: dict(detail, start=start, end=end, times=times[-3:], number=len(steps),
                           expected_step=limit))


def _scalar(job, rec):
    problem, name = job["problem"], job["name"]
    for cls in BENCHMARKS[problem]:
        for end in [None, 0.03, 0.11]:
            benchmark = cls() if end is None else cls(end_time=end)
            expected_end = benchmark.end_time
            rec.check(end is None or expected_end == end, "end time of the benchmark", dict(end=end))
            start = benchmark.start_time
            for n in [5, 8]:
                for cfl in [0.02, 0.1]:
                    kwargs = dict(mesh_size=n, cfl_number=cfl, save_history=True)
                    length = benchmark.domain.length
                    if name in SCALAR:
                        solver = SCALAR[name](benchmark, **kwargs)
                        limit = cfl * length / n
                    else:
                        kwargs["polynomial_degree"] = p = 1 + n % 2
                        if name in ("cg-low", "mcl-fem"):
                            kwargs["cfl_number"] = 0.5
                        solver = fe.SOLVERS[name](benchmark, **kwargs)
                        limit = cfl * length / n if name.startswith("cg") and name != "cg-low" else None
                    if (expected_end - start) / (limit or 1) > 4000:
                        continue
                    with capture():
                        try:
                            solver.solve(disable=True)
                        except ValueError:
                            # the central and Galerkin schemes may blow up
                            rec.check(name in ("central", "cg", "cg-exact"), "not finite",
                                      dict(name=name))
                            rec.outcome(f"{name} unstable")
                            continue
                    rec.state(problem, name, cls.__name__, end, n, cfl)
                    _judge(rec, solver, start, expected_end, limit,
                           dict(benchmark=cls.__name__, n=n, cfl=cfl))
    rec.outcome(f"scalar {name}")


def _water(job, rec):
    name = job["name"]
    flat = name in ("lw", "llf") or name.startswith("antidiffusion")
    for start, end in [(0.0, 0.3), (0.5, 0.75), (-1.0, -0.9)]:
        for cfl in [0.05, 0.1]:
            for boundary in ["periodic", ("outflow", "wall")]:
                for bottom in [None, [0.0, 0.1, 0.2, 0.0]]:
                    if bottom and flat:
                        continue
                    values = [(1.0, 0.0), (1.5, 0.5), (1.0, 0.25), (0.75, 0.0)]
                    world = WaterWorld(values, bottom, boundary=boundary, start=start,
                                       end_time=end, length=2.0, g=1.0)
                    kwargs = dict(mesh_size=4, cfl_number=cfl, save_history=True)
                    if name == "coarse":
                        solver = SW.CoarseSolver(world, coarsening_degree=2, **kwargs)
                    else:
                        solver = swe.FACTORIES[name](world, **kwargs)
                    with capture():
                        solver.solve(disable=True)
                    rec.state(name, start, end, cfl, boundary, bottom)
                    _judge(rec, solver, start, end, cfl * 0.5,
                           dict(name=name, cfl=cfl, boundary=boundary))
    # short, long and late times, many cells
    for n, length, start, duration in [(4, 2e-5, 0.0, 1e-6), (4, 2e4, 0.0, 1e3), (4, 2.0, 1e4, 0.25), (120, 2.0, 0.0, 0.01), (4, 2e-9, 0.0, 1e-10),
                                       (4, 2.0, 0.0, 12.0)]:
        values = [[(1.0, 0.0), (1.5, 0.5), (1.0, 0.25), (0.75, 0.0)][k % 4] for k in range(n)]
        world = WaterWorld(values, None, boundary="periodic", start=start, end_time=start + duration, length=length, g=1.0)
        kwargs = dict(mesh_size=n, cfl_number=0.07, save_history=True)
        with capture():
            solver = SW.CoarseSolver(world, coarsening_degree=2, **kwargs) if name == "coarse" else swe.FACTORIES[name](world, **kwargs)
            try:
                solver.solve(disable=True)
            except ValueError:
                rec.check(name in ("central", "es", "lw") or name.startswith("antidiffusion"), "not finite", dict(name=name, n=n, length=length))
                rec.outcome(f"{name} unstable")
                continue
        rec.state(name, n, length, start, duration)
        _judge(rec, solver, start, start + duration, 0.07 * length / n, dict(name=name, n=n, length=length))
    rec.outcome(f"water {name}")


def _warnings(job, rec):
    n, p, problem, scheme = job["n"], job["p"], job["problem"], job["scheme"]
    integrator, adaptive, deep = job["integrator"], job["adaptive"], job["deep"]
    length, a = 2.0 * job.get("scale", 1.0), -job.get("scale", 1.0)
    ref = ref_fe.Space(n, p, length, a)
    model = fe.reference(ref, scheme, problem)
    words = states.all_words(states.SCALAR_SMALL, n * p)
    for u in words:
        if adaptive and problem == "burgers" and not np.any(u):
            continue
        for cfl in [0.5, 1 - 1e-6, 1 + 1e-6, 1.3] + ([0.9, 1.0, 1.01, 2.0] if deep else []):
            end = 0.1 * length if problem == "advection" else 0.06 * length
            world = ScalarWorld(problem, fe.nodal(u, n, p, length, a), length=length, offset=a,
                                start=0.5, end_time=0.5 + end)
            solver = fe.SOLVERS[scheme](
                world, mesh_size=n, polynomial_degree=p, cfl_number=cfl, save_history=True,
                ode_solver_type=INTEGRATORS[integrator], adaptive=adaptive)
            with capture() as output:
                solver.solve(disable=True)
            if "scale" in job or deep:
                # a second solve of the same benchmark reports the same
                text = output.text
                solver.reinitialize(world)
                with capture() as output:
                    solver.solve(disable=True)
                rec.check(output.text == text, "reports of a second solve", lambda: dict(u=u, cfl=cfl, first=text, second=output.text))
            history = np.asarray(solver.solution.value_history)
            steps = np.asarray(solver.solution.time_step_history)
            rec.state("warnings", problem, scheme, integrator, adaptive, n, p, u, cfl)
            _judge(rec, solver, 0.5, 0.5 + end, None, dict(u=u, cfl=cfl))
            # prediction of the model
            expected, unsure, t = [], False, 0.5
            for v, dt in zip(history, steps):
                stages = [v]
                if integrator != "euler":
                    stages.append(v + dt * model(t, v))
                if integrator == "ssp3":
                    u1 = stages[1]
                    stages.append(0.75 * v + 0.25 * (u1 + dt * model(t + dt, u1)))
                limits = np.array([ref.time_step(problem, s) for s in stages])
                margin = limits / dt - 1
                t += dt
                if np.any(np.abs(margin) < 1e-9):
                    unsure = True
                    break
                expected.append(bool(np.any(margin < 0)))
            warned = output.text.count("CFL condition is violated")
            rec.outcome(f"{scheme} {integrator} adaptive={adaptive} warnings={min(warned, 3)}")
            if unsure:
                # the step equals the optimal one
                rec.outcome("not compared")
                continue
            rec.check(warned == sum(expected), "warnings do not belong to violated steps",
                      lambda: dict(u=u, cfl=cfl, warned=warned, expected=expected,
                                   integrator=integrator, adaptive=adaptive, text=output.text))
            rec.check(len(expected) == len(steps), "number of steps", dict(u=u))


def _checker(job, rec):
    """One checker and all words of calls: steps with one to three stages at equal and
    different times, vectors in new arrays or in one array changed in place."""
    limit = lambda time, u: (1.0 + (time > 0.25)) / np.max(np.abs(u))
    vectors = [np.array(v) for v in ([0.5, 1.0], [1.0, 2.0], [0.5, 1.0 + 1e-9])]
    stages = [[(0.0, i)] for i in range(3)] + [[(0.5, i)] for i in range(3)]
    stages += [[(0.0, i), (0.5, k)] for i in range(3) for k in range(3)] + [[(0.5, i), (1.0, 0)] for i in range(3)]
    stages += [[(0.0, i), (0.0, k)] for i in range(2) for k in range(2)] + [[(0.0, 0), (0.5, i), (0.25, k)] for i in range(2) for k in range(2)]
    letters = [(dt, s) for s in stages for dt in (0.4, 0.75, 1.0, 1.5)]
    for place in (False, True):
        for rest in itertools.product(letters, repeat=2 if job["deep"] else 1):
            for first in letters[job["first"] :: 3]:
                checker, buffers, answers, word = core.CFLChecker(limit), {}, [], (first, *rest)
                for dt, s in word:
                    dofs = []
                    for k, (_, i) in enumerate(s):
                        buffer = buffers.setdefault(k, np.zeros(2)) if place else np.zeros(2)
                        buffer[:] = vectors[i]
                        dofs.append(buffer)
                    try:
                        checker(dt, [t for t, _ in s], *dofs)
                        answers.append(False)
                    except core.CFLConditionViolatedError:
                        answers.append(True)
                    rec.step()
                expected = [any(dt > limit(t, vectors[i]) for t, i in s) for dt, s in word]
                rec.state("checker", place, word)
                rec.valid()
                rec.outcome(f"checker {expected}")
                rec.check(answers == expected, "violations reported by a checker", lambda: dict(word=word, place=place, got=answers, expected=expected))


def _volumes(job, rec):
    """The optimal time step of finite volume schemes: all words of states, all
    boundary conditions, several times."""
    problem, deep = job["problem"], job["deep"]
    water = not isinstance(problem, str)
    if water:
        letters = [np.array([h, h * v]) for h, v in [(1.0, 0.0), (0.25, 1.0), (2.25, -4.0), (1e-6, 0.5), (0.0, 0.0), (1.0, 1e-3)]]
        speeds = [("maximum", swe_core.MaximumWaveSpeed(problem)), ("one-sided", swe_core.WaveSpeed(problem)), ("default", None)]
        solvers = [(name, lambda w=w: swe_core.RiemannSolver(problem, w)) for name, w in speeds]
        build, kinds = swe_core_boundary, ["periodic", "outflow", "inflow", "wall"]
        speed = lambda u: abs(u[1] / u[0] if u[0] else 0.0) + np.sqrt(problem * u[0])
        inflows = lambda t: np.array([1.0 + t, 3.0 * t - 1.0]), lambda t: np.array([2.0 - t, 1.0 + t])
    else:
        letters = [-2.0, -0.5, 0.0, 1e-9, 1.0, 3.0]
        solvers = [("scalar", lambda: finite_volume.scalar.get_riemann_solver(problem))]
        build, kinds = core.get_boundary_conditions, ["periodic", "outflow", "inflow"]
        speed = lambda u: 1.0 if problem == "advection" else abs(u)
        inflows = lambda t: 4.0 * t - 1.0, lambda t: 2.0 - t
    pairs = [("periodic",)] + [pair for pair in itertools.product(kinds[1:], repeat=2)]
    for pair, (name, solver), step in itertools.product(pairs, solvers, [0.1, 1.0, 3e3]):
        time_step = finite_volume.OptimalTimeStep(solver(), build(*pair, inflow_left=inflows[0], inflow_right=inflows[1]), step)
        checker = core.CFLChecker(time_step)
        for size in range(1, 4 if deep or not water else 3):
            for word in itertools.product(letters, repeat=size):
                u = np.array(word)
                for time in [0.0, 0.75]:
                    ghosts = [inflows[k](time) for k in range(2) if pair != ("periodic",) and pair[k] == "inflow"]
                    fastest = max(speed(s) for s in [*word, *ghosts])
                    with np.errstate(divide="ignore"):
                        got = time_step(time, u)
                    rec.state("volumes", problem, pair, name, step, word, time)
                    rec.step()
                    rec.valid()
                    if fastest == 0:
                        rec.check(got >= 1e300, "time step without waves", lambda: dict(word=word, got=got))
                        rec.outcome("no waves")
                        continue
                    expected = step / fastest
                    rec.check(abs(got - expected) <= 1e-11 * expected, "optimal time step of finite volume schemes",
                              lambda: dict(problem=problem, boundary=pair, speeds=name, step=step, word=word, time=time, got=got, expected=expected))
                    for factor in (1 - 1e-6, 1 + 1e-6):
                        try:
                            checker(factor * expected, [time], u)
                            violated = False
                        except core.CFLConditionViolatedError:
                            violated = True
                        rec.check(violated == (factor > 1), "violation of finite volume schemes", lambda: dict(problem=problem, boundary=pair, word=word, time=time, factor=factor))
        rec.outcome(f"finite volumes {pair} {name}")


def _command(job, rec):
    """The command solves every solver it is given, once and in order."""
    from command import Calculate

    values = [(1.0, 0.0), (1.5, 0.5), (1.0, 0.25), (0.75, 0.0)]
    ends = [0.25, 0.5, 0.125, 0.3, 0.26, 0.4, 0.1]
    steps = []

    class Watched(SW.LaxFriedrichsSolver):
        def solve(self, **kwargs):
            steps.append(self)
            return super().solve(**kwargs)

    def build(k, number):
        if number % 2 == k % 2:
            world = WaterWorld(values, None, boundary="periodic", start=0.0, end_time=ends[k % 7], length=2.0, g=1.0)
            return Watched(world, mesh_size=4, cfl_number=0.1, save_history=k % 3 == 0)
        world = ScalarWorld("burgers", fe.nodal([0.5, 1.0, -0.25, 0.0], 4, 1, 2.0), length=2.0, end_time=ends[k % 7])
        return fe.SOLVERS["cg-low"](world, mesh_size=4, cfl_number=0.5)

    for number in [0, 1, 2, 3, 4, 5, 6, 8, 12] + ([20, 33] if job["deep"] else []):
        for given in ["list", "tuple", "one"]:
            if given == "one" and number != 1:
                continue
            for kwargs in [dict(), dict(leave=False), dict(disable=True)]:
                solvers = [build(k, number) for k in range(number)]
                expected = [build(k, number) for k in range(number)]
                steps.clear()
                with capture():
                    for solver in expected:
                        solver.solve(disable=True)
                    steps.clear()
                    Calculate(solvers[0] if given == "one" else solvers if given == "list" else tuple(solvers), **kwargs).execute()
                rec.state("command", number, given, *kwargs)
                rec.step(number)
                rec.valid()
                rec.check(steps == [s for s in solvers if isinstance(s, Watched)], "solvers are solved once and in order", lambda: dict(number=number, given=given))
                for k, (solver, other) in enumerate(zip(solvers, expected)):
                    rec.check(abs(solver.solution.time - ends[k % 7]) <= 1e-12 and solver.solution.time == other.solution.time
                              and np.array_equal(solver.solution.value, other.solution.value),
                              "solution of one of several solvers", lambda: dict(number=number, given=given, k=k, time=solver.solution.time))
    rec.outcome("command")


def _collapse(job, rec):
    """The adaptive time step becomes too small."""
    scheme = job["scheme"]
    for size in [1e12, 1e13, 1e15, 1e8]:
        for integrator, ode in INTEGRATORS.items():
            u = np.array([size, 0.0, -size, 1.0])
            n, length = 4, 2.0
            ref = ref_fe.Space(n, 1, length)
            world = ScalarWorld("burgers", fe.nodal(u, n, 1, length), length=length,
                                end_time=3.3 * 0.5 * ref.time_step("burgers", u) if size < 1e9 else 1.0)
            solver = fe.SOLVERS[scheme](world, mesh_size=n, cfl_number=0.5, adaptive=True,
                                        ode_solver_type=ode, save_history=True)
            with capture() as output:
                solver.solve(disable=True)
            small = 0.5 * ref.time_step("burgers", u) < 1e-12
            rec.state("collapse", scheme, size, integrator)
            rec.step()
            rec.valid()
            rec.outcome(f"collapse {small}")
            rec.check(("too small" in output.text) == small, "collapse of the time step",
                      lambda: dict(size=size, text=output.text, time=solver.solution.time))
            if small:
                rec.check(solver.solution.time == 0.0 and np.array_equal(solver.solution.value, u),
                          "solution after a collapse", dict(size=size))
            else:
                rec.check(abs(solver.solution.time - world.end_time) < 1e-12, "end time",
                          dict(size=size))
