"""Conservation of the finite element schemes.  The real right hand sides are
evaluated in every state of a bounded space (all words over an alphabet of
nodal values on small spaces, structured states on larger ones, scaled ones and
small disturbances of constants) and complete
runs are executed; the integral of the discrete solution, computed with exact
weights of the basis functions, must not change."""
import numpy as np

from .. import fe, ref_fe, states
from ..worlds import INTEGRATORS, ScalarWorld, Reused as right_hand_side, solve

ASSUMPTIONS = ["polynomial degree at most seven"]


def jobs(tier):
    deep = tier == "thorough"
    sizes = [(1, 2), (2, 1), (3, 1), (4, 1), (5, 1), (2, 2), (3, 2), (2, 3), (12, 1), (7, 2), (3, 4), (2, 7), (130, 1), (40, 2)]
    if deep:
        sizes += [(6, 1), (4, 2), (3, 3), (2, 5), (2, 6), (3, 7), (40, 1), (20, 2)]
    result = []
    for problem in ["advection", "burgers"]:
        for scheme in fe.SOLVERS:
            for n, p in sizes:
                result.append(dict(kind="rhs", problem=problem, scheme=scheme, n=n, p=p,
                                   limit=3000 if deep else 300))
            for n, p in [(3, 1), (2, 2)] + ([(4, 1), (2, 3)] if deep else []):
                result.append(dict(kind="run", problem=problem, scheme=scheme, n=n, p=p))
    return result


def run(job, rec):
    n, p, problem = job["n"], job["p"], job["problem"]
    length, a = (2.0, -1.0) if n % 2 else (0.5, 0.25)
    ref = ref_fe.Space(n, p, length, a)
    if job["kind"] == "rhs":
        world = ScalarWorld(problem, lambda x: 0.0, length=length, offset=a)
        rhs = right_hand_side(
            fe.MIXED[job["scheme"]](world, mesh_size=n, polynomial_degree=p)
        )
        limit = job["limit"] if n * p < 64 else 30
        for u in states.magnified(fe.space_of_states(n * p, limit), 3):
            value = rhs(0.0, u.copy())
            rec.state(problem, job["scheme"], n, p, u)
            rec.step()
            rec.valid()
            total = ref.integral(value)
            m = np.max(np.abs(u))
            scale = 1e-13 * 10**p * (m + m**2)
            rec.check(
                np.all(np.isfinite(value)) and abs(total) <= scale * (1 + n),
                "integral is not conserved",
                lambda: dict(u=u, rhs=value, total=total),
            )
        rec.outcome(f"rhs {job['scheme']} p={p}")
        return

    for integrator, ode in INTEGRATORS.items():
        if job["scheme"].startswith("cg") and job["scheme"] != "cg-low":
            if integrator != "euler":
                continue
            kwargs = {}
        else:
            kwargs = dict(ode_solver_type=ode)
        for u in states.all_words(states.SCALAR_SMALL, n * p):
            world = ScalarWorld(
                problem, fe.nodal(u, n, p, length, a), length=length, offset=a,
                end_time=0.04 * length,
            )
            solver = solve(
                fe.MIXED[job["scheme"]](
                    world, mesh_size=n, polynomial_degree=p, cfl_number=0.3 if p == 1 else 0.6,
                    save_history=True, **kwargs,
                )
            )
            history = np.asarray(solver.solution.value_history)
            totals = np.array([ref.integral(v) for v in history])
            rec.state("run", problem, job["scheme"], integrator, n, p, u)
            rec.step(len(totals) - 1)
            rec.valid()
            rec.check(
                np.all(np.abs(totals - ref.integral(u)) <= 1e-11 * (1 + np.abs(history).max())),
                "integral changes during a run",
                lambda: dict(u=u, integrator=integrator, totals=totals),
            )
    rec.outcome(f"run {job['scheme']}")
