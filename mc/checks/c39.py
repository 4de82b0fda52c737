"""Conformance of the finite element solvers with reference models written from
the definition of the schemes (exact rational element integrals, dense
matrices).  Right hand sides are compared in every state of a bounded space;
complete runs of the real solvers are replayed step by step by the model for
all small initial words, integrators, adaptivity and cfl numbers: time steps,
number of steps and all recorded states have to agree."""
import numpy as np

from .. import fe, ref_fe, ref_fv, ref_ode, states
from ..worlds import INTEGRATORS, ScalarWorld, Reused as right_hand_side, solve

ASSUMPTIONS = ["polynomial degree at most seven"]


def jobs(tier):
    deep = tier == "thorough"
    sizes = [(1, 2), (2, 1), (3, 1), (4, 1), (5, 1), (2, 2), (3, 2), (2, 3), (12, 1), (7, 2), (3, 4), (2, 7), (130, 1), (65, 2)]
    if deep:
        sizes += [(1, 3), (6, 1), (7, 1), (4, 2), (3, 3), (2, 5), (2, 6), (3, 7), (40, 1), (20, 2)]
    result = []
    for problem in ["advection", "burgers"]:
        for scheme in fe.SOLVERS:
            for n, p in sizes:
                result.append(dict(kind="rhs", problem=problem, scheme=scheme, n=n, p=p,
                                   limit=3000 if deep else 500))
        for n, p in [(3, 1), (4, 1), (2, 2), (2, 3), (2, 4)] + ([(2, 6), (2, 7), (3, 2)] if deep else []):
            for scheme in ["cg", "cg-exact"]:
                result.append(dict(kind="run", problem=problem, scheme=scheme, n=n, p=p,
                                   integrator=None, adaptive=False, deep=deep))
        for scheme in ["cg-low", "mcl-fem"]:
            for n, p in [(3, 1), (2, 2)] + ([(4, 1), (2, 3)] if deep else []):
                for integrator in INTEGRATORS:
                    for adaptive in [False, True]:
                        result.append(
                            dict(kind="run", problem=problem, scheme=scheme, n=n, p=p,
                                 integrator=integrator, adaptive=adaptive, deep=deep)
                        )
        result.append(dict(kind="defaults", problem=problem))
    return result


def run(job, rec):
    globals()["_" + job["kind"]](job, rec)


def _rhs(job, rec):
    n, p, problem, scheme = job["n"], job["p"], job["problem"], job["scheme"]
    length, a = (2.0, -1.0) if n % 2 else (0.5, 0.25)
    ref = ref_fe.Space(n, p, length, a)
    model = fe.reference(ref, scheme, problem)
    world = ScalarWorld(problem, lambda x: 0.0, length=length, offset=a)
    rhs = right_hand_side(fe.MIXED[scheme](world, mesh_size=n, polynomial_degree=p))
    tolerance = 1e-13 * 8**p
    alphabets = [states.SCALAR_SMALL, [0.3, 1.0, 1.1], [1e4, -3e4, 2e4], [1.0, 1.0 + 1e-8, 1.0 - 3e-8],
                 [1e-3, 4e-3, -2e-3]]
    for k, letters in enumerate(alphabets):
        if n * p > 100 and k in (0, 4):
            continue
        limit = job["limit"] if k < 2 else job["limit"] // 2
        if k >= 2:
            tolerance = 3e-14 * 8**p * n / length
            size = max(map(abs, letters)) ** (1 if problem == "advection" else 2)
        for u in fe.space_of_states(n * p, limit, letters):
            value, expected = rhs(0.5, u.copy()), model(0.5, u)
            rec.state(problem, scheme, n, p, u)
            rec.step()
            rec.valid()
            rec.check(
                np.shape(value) == (n * p,)
                and np.all(np.abs(value - expected) <= tolerance * ((1 + np.max(np.abs(expected))) if k < 2 else size)),
                "right hand side differs from the scheme",
                lambda: dict(u=u, got=value, expected=expected),
            )
    rec.outcome(f"rhs {scheme} p={p}")


def _run(job, rec):
    n, p, problem, scheme = job["n"], job["p"], job["problem"], job["scheme"]
    integrator, adaptive = job["integrator"], job["adaptive"]
    length, a, start = 2.0, -1.0, 0.5
    ref = ref_fe.Space(n, p, length, a)
    model = fe.reference(ref, scheme, problem)
    kwargs = {}
    if integrator:
        kwargs = dict(ode_solver_type=INTEGRATORS[integrator], adaptive=adaptive)
    name = integrator or ref_ode.optimal(p)
    letters = states.SCALAR_SMALL if n * p <= 4 else [-1.0, 2.0]
    for cfl in [0.9, 0.31] if job["deep"] or p == 1 else [0.9]:
        space = states.all_words(letters, n * p)
        if n * p > 6 and not job["deep"]:
            space = states.patterns(letters, n * p)
        for u in space:
            end = start + 0.05 * length
            if integrator is None:
                # mesh dependent time steps
                cfl_number = cfl * 0.1
                end = start + 0.25 * length * cfl_number / 0.3
            else:
                cfl_number = cfl
            world = ScalarWorld(
                problem, fe.nodal(u, n, p, length, a), length=length, offset=a,
                start=start, end_time=end,
            )
            solver = solve(
                fe.MIXED[scheme](
                    world, mesh_size=n, polynomial_degree=p, cfl_number=cfl_number,
                    save_history=True, **kwargs,
                )
            )
            t, v = start, u.copy()
            times, values = [t], [v]
            fixed = (
                length / n if integrator is None else ref.time_step(problem, u)
            )
            while end - t > 1e-12:
                dt = ref.time_step(problem, v) if adaptive else fixed
                dt = min(cfl_number * dt, end - t)
                v = ref_ode.step(name, model, t, v, dt)
                t += dt
                times.append(t)
                values.append(v)
            solution = solver.solution
            history = np.asarray(solution.value_history)
            rec.state("run", problem, scheme, name, adaptive, n, p, u, cfl)
            rec.step(len(history) - 1)
            rec.valid()
            scale = 1e-12 * 8**p * (1 + np.max(np.abs(values)) ** 2) * len(values)
            rec.check(
                history.shape == np.shape(values)
                and np.allclose(solution.time_history, times, rtol=0, atol=1e-11)
                and np.all(np.abs(history - values) <= scale)
                and np.array_equal(solution.value, history[-1])
                and abs(solution.time - end) < 1e-11,
                "run differs from the scheme",
                lambda: dict(u=u, cfl=cfl, times=times, values=values,
                             got_times=solution.time_history, got=history),
            )
    rec.outcome(f"run {scheme} {name} {adaptive}")


def _defaults(job, rec):
    """Default time integrators and parameters."""
    import defaults

    for scheme in fe.SOLVERS:
        n = 4
        world = ScalarWorld(job["problem"], fe.nodal([1.0, 0.0, 2.0, -1.0], n, 1, 1.0),
                            end_time=0.05)
        solver = solve(fe.MIXED[scheme](world, mesh_size=n, polynomial_degree=1,
                                           save_history=True))
        ref = ref_fe.Space(n, 1, 1.0)
        model = fe.reference(ref, scheme, job["problem"])
        v, t, values = np.array([1.0, 0.0, 2.0, -1.0]), 0.0, []
        fixed = ref.h if scheme.startswith("cg") and scheme != "cg-low" else ref.time_step(job["problem"], v)
        values.append(v)
        while 0.05 - t > 1e-12:
            dt = min(defaults.FINITE_ELEMENT_CFL_NUMBER * fixed, 0.05 - t)
            v = ref_ode.step("heun", model, t, v, dt)
            t += dt
            values.append(v)
        history = np.asarray(solver.solution.value_history)
        rec.state("defaults", job["problem"], scheme)
        rec.step(len(history) - 1)
        rec.valid()
        rec.check(history.shape == np.shape(values) and np.allclose(history, values, atol=1e-10),
                  "run with default options differs from the scheme",
                  lambda: dict(scheme=scheme, got=history, expected=values))
        del fixed
    rec.outcome("defaults")
