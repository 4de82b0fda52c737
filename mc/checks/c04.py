"""Bounds of the scalar finite volume schemes llf and mcl-fv.  Every state of a
bounded space (all words over alphabets of cell values on small meshes,
structured states on larger ones, all boundaries with time dependent inflow) is
advanced with the real right hand side by forward Euler steps of the largest
admissible step and of a third of it and compared with the minima and maxima of
the neighbours; complete real runs with Heun and ssp3 from all small initial
words are monitored step by step."""
import numpy as np

import finite_volume.scalar.solver as SS

from .. import ref_fv, states
from ..worlds import INTEGRATORS, ScalarWorld, mixed, Reused as right_hand_side, solve

SCHEMES = {"llf": SS.LaxFriedrichsSolver, "mcl": SS.MCLSolver}
BOUNDARIES = [
    "periodic",
    ("outflow", "outflow"),
    ("inflow", "outflow"),
    ("outflow", "inflow"),
    ("inflow", "inflow"),
]
LEFT = lambda t: 1.5 + 0.25 * t
RIGHT = lambda t: -0.5 - t
ALPHABETS = {
    "mixed": states.SCALAR,
    "positive": [0.25, 1.0, 1.5, 4.0],
    "negative": [-0.25, -1.0, -1.5, -4.0],
    "close": [1.0, 1.0 + 1e-6, 1.0 - 1e-7, 0.0],
    "opposite": [-1.0, 1.0, -0.999, 0.5],
    "small": [0.0, 1e-5, -2e-5, 3e-9, 1e-4],
    "disturbed": [1.0, 1.0 + 2e-5, 1.0 - 1e-5, 1.0 + 3e-4],
}
ASSUMPTIONS = ["bounds hold up to roundoff"]


def jobs(tier):
    deep = tier == "thorough"
    result = []
    for problem in ["advection", "burgers"]:
        for scheme in SCHEMES:
            for boundary in BOUNDARIES:
                for alphabet in ALPHABETS:
                    result.append(dict(kind="step", problem=problem, scheme=scheme,
                                       boundary=boundary, alphabet=alphabet, deep=deep))
                result.append(dict(kind="run", problem=problem, scheme=scheme,
                                   boundary=boundary, deep=deep))
    return result


def run(job, rec):
    globals()["_" + job["kind"]](job, rec)


def _boundary(job):
    b = job["boundary"]
    return b if isinstance(b, str) else tuple(b)


def _step(job, rec):
    problem, scheme, boundary = job["problem"], job["scheme"], _boundary(job)
    letters, deep = ALPHABETS[job["alphabet"]], job["deep"]
    for n in [1, 2, 3, 4, 5, 11, 150] + ([6, 7, 50, 401] if deep else []):
        length = 2.0 if n % 2 else 0.5
        h = length / n
        world = ScalarWorld(problem, [0] * n, boundary=boundary, left=LEFT, right=RIGHT,
                            length=length)
        rhs = right_hand_side(mixed(SCHEMES)[scheme](world, mesh_size=n))
        if n <= 5 or (deep and n <= (7 if len(letters) < 5 else 6)):
            space = states.all_words(letters, n)
        else:
            space = states.patterns(letters, n)
        for u in space:
            for t in [0.5] if boundary == "periodic" or n > 4 else [0.0, 2.0]:
                e = ref_fv.extend(u, boundary, t, LEFT, RIGHT)
                speed = np.max(ref_fv.speed(problem, e))
                dt = h / (2 * speed) if speed > 0 else 1.0
                rate = rhs(t, u.copy())
                top = np.max([e[:-2], e[1:-1], e[2:]], axis=0)
                bottom = np.min([e[:-2], e[1:-1], e[2:]], axis=0)
                rec.state(problem, scheme, boundary, t, u)
                rec.valid()
                eps = 1e-13 * np.max(np.abs(e))
                for fraction in [1.0, 1 / 3]:
                    new = u + fraction * dt * rate
                    rec.step()
                    rec.check(
                        np.all(new <= top + eps) and np.all(new >= bottom - eps),
                        "local bounds are violated by an admissible step",
                        lambda: dict(u=u, new=new, top=top, bottom=bottom, dt=dt, t=t),
                    )
                rec.outcome(
                    f"{scheme} touches a bound: "
                    f"{bool(np.any(np.abs(new - top) < eps) or np.any(np.abs(new - bottom) < eps))}"
                )


def _run(job, rec):
    problem, scheme, boundary = job["problem"], job["scheme"], _boundary(job)
    left = lambda t: 1.5 - 0.5 * min(t, 4)
    right = lambda t: -1.0 + 0.25 * min(t, 4)
    for n in [3, 4] + ([5, 6] if job["deep"] else []):
        h = 0.5
        for integrator, ode in INTEGRATORS.items():
            for u in states.all_words(states.SCALAR_SMALL, n):
                start = 0.25
                data = list(u)
                if boundary != "periodic" and boundary[0] == "inflow":
                    data += [1.5, -0.5]
                if boundary != "periodic" and boundary[1] == "inflow":
                    data += [-1.0, 0.0]
                speed = max(ref_fv.speed(problem, np.array(data)))
                speed = max(speed, 0.5)
                cfl = 0.5 / speed
                world = ScalarWorld(problem, u, boundary=boundary, left=left, right=right,
                                    length=n * h, start=start, end_time=start + 5.5 * cfl * h)
                solver = solve(mixed(SCHEMES)[scheme](
                    world, mesh_size=n, cfl_number=cfl, ode_solver_type=ode, save_history=True))
                history = np.asarray(solver.solution.value_history)
                rec.state("run", problem, scheme, boundary, integrator, u)
                rec.step(len(history) - 1)
                rec.valid()
                rec.check(len(history) == 7, "number of steps", lambda: dict(u=u, k=len(history)))
                rec.check(
                    np.all(np.isfinite(history))
                    and history.max() <= max(data) + 1e-12
                    and history.min() >= min(data) - 1e-12,
                    "global bounds are violated during a run",
                    lambda: dict(u=u, integrator=integrator, history=history),
                )
                if integrator == "euler":
                    times = solver.solution.time_history
                    for t, v, w in zip(times, history, history[1:]):
                        e = ref_fv.extend(v, boundary, t, left, right)
                        top = np.max([e[:-2], e[1:-1], e[2:]], axis=0)
                        bottom = np.min([e[:-2], e[1:-1], e[2:]], axis=0)
                        rec.check(
                            np.all(w <= top + 1e-12) and np.all(w >= bottom - 1e-12),
                            "local bounds are violated during a run",
                            lambda: dict(u=u, v=v, w=w, t=t),
                        )
    rec.outcome(f"run {scheme}")
