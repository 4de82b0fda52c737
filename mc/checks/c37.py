"""Conformance of the scalar finite volume solvers with reference models written
from the published formulas.  Right hand sides are compared in every state of a
bounded space (all words over an alphabet on small meshes, structured states on
larger ones, all boundary pairs); complete runs of the real solvers are replayed
step by step by the model for all small initial words, boundary pairs,
integrators and cfl numbers: times and all recorded states have to agree."""
import numpy as np

import finite_volume.scalar.solver as SS

from .. import ref_fv, ref_ode, states
from ..worlds import INTEGRATORS, ScalarWorld, mixed, Reused as right_hand_side, solve

SOLVERS = {
    "llf": SS.LaxFriedrichsSolver,
    "central": SS.CentralFluxSolver,
    "mcl": SS.MCLSolver,
}
ASSUMPTIONS = ["comparison up to roundoff relative to the size of the states"]
LEFT = lambda t: 1.5 + 0.25 * t
RIGHT = lambda t: -0.5 - t
BOUNDARIES = [
    "periodic",
    ("outflow", "outflow"),
    ("inflow", "outflow"),
    ("outflow", "inflow"),
    ("inflow", "inflow"),
]


def jobs(tier):
    deep = tier == "thorough"
    result = []
    for problem in ["advection", "burgers"]:
        for scheme in SOLVERS:
            for boundary in BOUNDARIES:
                for n in [1, 2, 3, 4, 9, 40, 300] + ([5, 6, 100, 513, 1024] if deep else []):
                    result.append(dict(kind="rhs", problem=problem, scheme=scheme,
                                       boundary=boundary, n=n))
                result.append(dict(kind="scaled", problem=problem, scheme=scheme,
                                   boundary=boundary, deep=deep))
                result.append(dict(kind="run", problem=problem, scheme=scheme,
                                   boundary=boundary, deep=deep))
        result.append(dict(kind="defaults", problem=problem))
    return result


def run(job, rec):
    globals()["_" + job["kind"]](job, rec)


def _boundary(job):
    b = job["boundary"]
    return b if isinstance(b, str) else tuple(b)


def _rhs(job, rec):
    n, problem, scheme, boundary = job["n"], job["problem"], job["scheme"], _boundary(job)
    length, offset = (2.0, -1.0) if n % 2 else (0.5, 0.25)
    world = ScalarWorld(problem, [0] * n, boundary=boundary, left=LEFT, right=RIGHT,
                        length=length, offset=offset)
    rhs = right_hand_side(mixed(SOLVERS)[scheme](world, mesh_size=n))
    model = ref_fv.scalar_rhs(scheme, problem, boundary, length / n, LEFT, RIGHT)
    if n == 1 and boundary == "periodic":
        return
    letters = states.SCALAR + ([0.7, -3.0] if n <= 3 else [])
    space = states.all_words(letters, n) if n <= 6 else states.patterns(states.SCALAR, n)
    for u in space:
        for t in [0.0, 0.75] if n <= 3 else [0.25]:
            value, expected = rhs(t, u.copy()), model(t, u)
            rec.state(problem, scheme, boundary, u, t)
            rec.step()
            rec.valid()
            rec.check(
                np.shape(value) == (n,)
                and np.all(np.abs(value - expected) <= 1e-12 * (1 + np.max(np.abs(u)) ** 2) * n / length),
                "right hand side differs from the scheme",
                lambda: dict(u=u, t=t, got=value, expected=expected),
            )
    rec.outcome(f"rhs {scheme} {boundary}")


def _scaled(job, rec):
    """Large, small and nearly constant states, long and short domains."""
    problem, scheme, boundary = job["problem"], job["scheme"], _boundary(job)
    power = 1 if problem == "advection" else 2
    for n in [2, 3, 4] + ([5] if job["deep"] else []):
        for factor, shift, length in [(1e-4, 0, 2.0), (1e3, 0, 0.5), (1e6, 0, 1e3), (1e-8, 1.5, 1.0),
                                      (2e-6, -3.0, 1e-3), (1e-4, 0.5, 30.0),
                                      (1e-9, 0, 2.0), (1e-13, 0, 1.0)]:
            letters = [shift + factor * w for w in states.SCALAR[: 5 if n < 4 else 4]]
            left, right = (lambda t: shift + factor * LEFT(t)), (lambda t: shift + factor * RIGHT(t))
            world = ScalarWorld(problem, [0] * n, boundary=boundary, left=left, right=right,
                                length=length)
            rhs = right_hand_side(mixed(SOLVERS)[scheme](world, mesh_size=n))
            model = ref_fv.scalar_rhs(scheme, problem, boundary, length / n, left, right)
            size = (abs(shift) + 3 * factor) ** power
            for u in states.all_words(letters, n):
                value, expected = rhs(0.25, u.copy()), model(0.25, u)
                rec.state("scaled", problem, scheme, boundary, u)
                rec.step()
                rec.valid()
                rec.check(
                    np.shape(value) == (n,)
                    and np.all(np.abs(value - expected) <= 1e-14 * size * n / length * 10),
                    "right hand side differs from the scheme",
                    lambda: dict(u=u, got=value, expected=expected, length=length),
                )
    rec.outcome(f"scaled {scheme}")


def _replay(rec, solver, model, name, u, start, end, cfl, h, detail):
    t, v = start, np.array(u, dtype=float)
    times, values = [t], [v]
    while end - t > 1e-12:
        dt = min(cfl * h, end - t)
        v = ref_ode.step(name, model, t, v, dt)
        t += dt
        times.append(t)
        values.append(v)
    solution = solver.solution
    history = np.asarray(solution.value_history)
    rec.step(len(history) - 1)
    rec.valid()
    scale = 1e-11 * (1 + np.max(np.abs(values)) ** 2)
    rec.check(
        history.shape == np.shape(values)
        and np.allclose(solution.time_history, times, rtol=0, atol=1e-11)
        and np.all(np.abs(history - values) <= scale)
        and np.array_equal(solution.value, history[-1])
        and abs(solution.time - end) < 1e-11,
        "run differs from the scheme",
        lambda: dict(detail, u=u, cfl=cfl, times=times, values=values,
                     got_times=solution.time_history, got=history),
    )


def _run(job, rec):
    problem, scheme, boundary = job["problem"], job["scheme"], _boundary(job)
    start, length, offset = 0.5, 2.0, -1.0
    for n in [3, 4] + ([5] if job["deep"] else []):
        model = ref_fv.scalar_rhs(scheme, problem, boundary, length / n, LEFT, RIGHT)
        for integrator, ode in INTEGRATORS.items():
            for cfl, steps in [(0.2, 3.5), (0.25, 2)] + ([(0.04, 10.2)] if job["deep"] else []):
                for u in states.all_words(states.SCALAR_SMALL, n):
                    end = start + steps * cfl * length / n
                    world = ScalarWorld(problem, u, start=start, end_time=end, length=length,
                                        boundary=boundary, left=LEFT, right=RIGHT, offset=offset)
                    solver = solve(
                        mixed(SOLVERS)[scheme](world, mesh_size=n, cfl_number=cfl,
                                        ode_solver_type=ode, save_history=True)
                    )
                    rec.state("run", problem, scheme, boundary, integrator, cfl, u)
                    _replay(rec, solver, model, integrator, u, start, end, cfl, length / n,
                            dict(integrator=integrator))
    rec.outcome(f"run {scheme} {boundary}")


def _defaults(job, rec):
    """Default time integrator and cfl number."""
    import defaults

    for scheme in SOLVERS:
        n, u = 5, np.array([1.0, 0.0, 2.0, -1.0, 0.5])
        world = ScalarWorld(job["problem"], u, end_time=0.2)
        solver = solve(mixed(SOLVERS)[scheme](world, mesh_size=n, save_history=True))
        model = ref_fv.scalar_rhs(scheme, job["problem"], "periodic", 1 / n)
        rec.state("defaults", job["problem"], scheme)
        _replay(rec, solver, model, "heun", u, 0.0, 0.2,
                defaults.FINITE_VOLUME_CFL_NUMBER, 1 / n, dict(defaults=True))
    rec.outcome("defaults")
