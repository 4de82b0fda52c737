"""Bounds of the finite element schemes cg-low and mcl-fem.  Every state of a
bounded space (all words over an alphabet of nodal values on small spaces,
structured states on larger ones) is advanced with the real right hand side by
a forward Euler step of the optimal step, a slightly smaller and a quarter of
it; the result must lie within the local bounds, which are enumerated from the
cells independently.  Complete real runs over all small initial words are
monitored step by step, too: time steps must obey the condition and states the
local (Euler) respectively global (Heun, ssp3) bounds unless the run warned."""
import numpy as np

from .. import fe, ref_fe, states
from ..core import capture
from ..worlds import INTEGRATORS, ScalarWorld, Reused as right_hand_side, solve

ASSUMPTIONS = ["polynomial degree at most seven, lumped masses are not positive beyond"]


def jobs(tier):
    deep = tier == "thorough"
    sizes = [(2, 1), (3, 1), (4, 1), (5, 1), (2, 2), (3, 2), (2, 3), (12, 1), (7, 2), (3, 4), (2, 7), (130, 1), (40, 2)]
    if deep:
        sizes += [(6, 1), (7, 1), (4, 2), (3, 3), (2, 5), (2, 6), (3, 7), (40, 1), (20, 2)]
    result = []
    for problem in ["advection", "burgers"]:
        for scheme in ["cg-low", "mcl-fem"]:
            for n, p in sizes:
                result.append(dict(kind="rhs", problem=problem, scheme=scheme, n=n, p=p,
                                   limit=3000 if deep else 800))
            for integrator in INTEGRATORS:
                for adaptive in [False, True]:
                    for n, p in [(3, 1), (4, 1), (2, 2)] + ([(3, 2), (2, 3)] if deep else []):
                        result.append(
                            dict(kind="run", problem=problem, scheme=scheme, n=n, p=p,
                                 integrator=integrator, adaptive=adaptive, deep=deep)
                        )
    return result


def run(job, rec):
    n, p, problem, scheme = job["n"], job["p"], job["problem"], job["scheme"]
    length, a = (2.0, -1.0) if n % 2 else (0.5, 0.25)
    ref = ref_fe.Space(n, p, length, a)
    tolerance = 1e-13 * 10**p
    if job["kind"] == "rhs":
        world = ScalarWorld(problem, lambda x: 0.0, length=length, offset=a)
        rhs = right_hand_side(
            fe.MIXED[scheme](world, mesh_size=n, polynomial_degree=p)
        )
        for letters in [states.SCALAR_SMALL, [0.3, 1.0, 1.1], [0.0, 2e-5, -1e-5], [1.0, 1.0 + 2e-5, 1.0 - 3e-6]]:
            for u in fe.space_of_states(n * p, job["limit"] if n * p < 64 else 30, letters):
                top, bottom = ref.bounds(u)
                dt = min(ref.time_step(problem, u), 1e6)
                rate = rhs(0.0, u.copy())
                rec.state(problem, scheme, n, p, u)
                rec.valid()
                for fraction in [1.0, 0.25]:
                    new = u + fraction * dt * rate
                    rec.step()
                    eps = tolerance * np.max(np.abs(u)) * (1 + (dt == 1e6) * 1e6)
                    rec.check(
                        np.all(new <= top + eps) and np.all(new >= bottom - eps),
                        "local bounds are violated by a step of the optimal size",
                        lambda: dict(u=u, new=new, top=top, bottom=bottom, dt=dt,
                                     fraction=fraction),
                    )
        rec.outcome(f"rhs {scheme} p={p}")
        return

    integrator, adaptive = job["integrator"], job["adaptive"]
    for cfl in [1.0] if p > 1 and not job["deep"] else [1.0, 0.4]:
        for u in states.all_words(states.SCALAR_SMALL, n * p):
            world = ScalarWorld(
                problem, fe.nodal(u, n, p, length, a), length=length, offset=a,
                end_time=0.06 * length,
            )
            solver = fe.MIXED[scheme](
                world, mesh_size=n, polynomial_degree=p, cfl_number=cfl,
                save_history=True, ode_solver_type=INTEGRATORS[integrator],
                adaptive=adaptive,
            )
            with capture() as output:
                solve(solver)
            warned = "violated" in output.text
            history = np.asarray(solver.solution.value_history)
            steps = np.asarray(solver.solution.time_step_history)
            rec.state("run", problem, scheme, integrator, adaptive, n, p, u, cfl)
            rec.step(len(steps))
            rec.valid()
            rec.outcome(f"run {scheme} {integrator} {adaptive} warned={warned}")
            eps = 10 * tolerance * (1 + np.max(np.abs(u)))
            if adaptive:
                for v, dt in zip(history, steps):
                    rec.check(
                        dt <= cfl * ref.time_step(problem, v) * (1 + 1e-9),
                        "adaptive time step exceeds the optimal one",
                        lambda: dict(u=u, v=v, dt=dt),
                    )
            rec.check(
                not (warned and integrator == "euler" and adaptive and cfl < 1),
                "warning in an adaptive run",
                lambda: dict(u=u),
            )
            if warned:
                continue
            rec.check(
                history.max() <= u.max() + eps and history.min() >= u.min() - eps,
                "global bounds are violated",
                lambda: dict(u=u, history=history, steps=steps),
            )
            if integrator == "euler":
                for v, w in zip(history, history[1:]):
                    top, bottom = ref.bounds(v)
                    rec.check(
                        np.all(w <= top + eps) and np.all(w >= bottom - eps),
                        "local bounds are violated in a run",
                        lambda: dict(u=u, v=v, w=w),
                    )
