"""Conservation of the finite volume schemes.  The real right hand side of every
solver is evaluated in every state of a bounded space (all words over an
alphabet of cell values on tiny meshes, structured states on larger ones), the
real solvers are run over all initial words and integrators, and the change of
the totals is compared with the telescoped boundary fluxes of the reference
model."""
import itertools
import os

import numpy as np

import finite_volume.scalar.solver as SS
import finite_volume.shallow_water.solver as SW

from .. import ref_fv, states, swe
from ..core import REPO
from ..worlds import (
    INTEGRATORS,
    ScalarWorld,
    WaterWorld,
    mixed, Reused as right_hand_side,
    solve,
    ode_solver,
)

SCALAR = {
    "llf": SS.LaxFriedrichsSolver,
    "central": SS.CentralFluxSolver,
    "mcl": SS.MCLSolver,
}
ASSUMPTIONS = [
    "conservation is checked to roundoff relative to the size of the fluxes",
]
LEFT = lambda t: 1.5 + 0.25 * t
RIGHT = lambda t: -0.5 - t
WLEFT = lambda t: np.array([1.0 + t, 0.3])
WRIGHT = lambda t: np.array([2.0, -0.5 - t])


def jobs(tier):
    deep = tier == "thorough"
    result = []
    for problem in ["advection", "burgers"]:
        for scheme in SCALAR:
            for boundary in [
                "periodic",
                ("outflow", "outflow"),
                ("inflow", "outflow"),
                ("outflow", "inflow"),
            ]:
                sizes = [2, 3, 4, 9, 64, 300] + ([5, 33, 1025] if deep else [])
                result.append(
                    dict(kind="scalar", problem=problem, scheme=scheme,
                         boundary=boundary, sizes=sizes, deep=deep)
                )
            result.append(dict(kind="scalar-run", problem=problem, scheme=scheme,
                               deep=deep))
    for name in swe.FACTORIES:
        for boundary in [
            "periodic",
            ("outflow", "outflow"),
            ("wall", "wall"),
            ("inflow", "wall"),
            ("outflow", "inflow"),
        ]:
            result.append(dict(kind="water", name=name, boundary=boundary, deep=deep))
        result.append(dict(kind="water-run", name=name, deep=deep))
        result.append(dict(kind="sizes", name=name, deep=deep))
    result.append(dict(kind="coarse", deep=deep))
    for key in ["reduced-llf", "reduced-llf-2"]:
        result.append(dict(kind="reduced", name=key, deep=deep))
    return result


def _boundary(job):
    b = job["boundary"]
    return b if isinstance(b, str) else tuple(b)


def run(job, rec):
    globals()["_" + job["kind"].replace("-", "_")](job, rec)


def _scalar_ripples(n):
    """Nearly constant states: the changes are tiny compared with the fluxes."""
    if n > 5:
        return states.patterns(1.5 + 0.7e-8 * np.array([0.0, 1.0, 3.0]), n)
    return states.all_words(1.5 + 0.7e-8 * np.array([0.0, 1.0, 3.0, 1e3]), min(n, 5))


def _scalar(job, rec):
    problem, scheme, boundary = job["problem"], job["scheme"], _boundary(job)
    for n in job["sizes"]:
        length = 2.0 if n % 2 else 0.5
        world = ScalarWorld(
            problem, [0] * n, boundary=boundary, left=LEFT, right=RIGHT, length=length
        )
        rhs = right_hand_side(mixed(SCALAR)[scheme](world, mesh_size=n))
        h = length / n
        if n <= 5:
            space = states.all_words(states.SCALAR, n)
        else:
            space = states.patterns(states.SCALAR, n)
        for u in itertools.chain(space, _scalar_ripples(n)):
            value = rhs(0.25, u.copy())
            rec.state("scalar", problem, scheme, boundary, u)
            rec.step()
            rec.valid()
            total = h * np.sum(value)
            if boundary == "periodic":
                expected = 0.0
            else:
                e = ref_fv.extend(u, boundary, 0.25, LEFT, RIGHT)
                f = ref_fv.scalar_node_flux(scheme, problem, e)
                expected = f[0] - f[-1]
            scale = 1 + n * np.max(np.abs(u)) ** 2
            rec.check(
                abs(total - expected) <= 1e-12 * scale,
                "total of cell values is not conserved",
                lambda: dict(u=u, rhs=value, total=total, expected=expected, n=n),
            )
        rec.outcome(f"scalar n={n}")


def _scalar_run(job, rec):
    """Complete runs with history: every step conserves the total."""
    for n in [3, 4] + ([5] if job["deep"] else []):
        for integrator, ode in INTEGRATORS.items():
            for u in states.all_words(states.SCALAR_SMALL, n):
                world = ScalarWorld(job["problem"], u, end_time=0.5)
                solver = solve(
                    mixed(SCALAR)[job["scheme"]](
                        world,
                        mesh_size=n,
                        cfl_number=0.3,
                        ode_solver_type=ode,
                        save_history=True,
                    )
                )
                history = np.asarray(solver.solution.value_history)
                totals = history.sum(axis=1)
                rec.state(job["problem"], job["scheme"], integrator, u)
                rec.step(len(totals) - 1)
                rec.valid()
                rec.check(len(totals) > 2, "no history", history.shape)
                rec.check(
                    np.all(np.isfinite(totals)) and
                    np.all(np.abs(totals - np.sum(u)) <= 1e-11 * (1 + np.abs(history).max())),
                    "total changes during a run",
                    lambda: dict(u=u, integrator=integrator, totals=totals),
                )
    rec.outcome("scalar run")


def _water_space(name, n, deep):
    es = "es" in name
    letters = [w for w in states.WATER if not (es and w[0] == 0)]
    if n <= 3 or (deep and n == 4):
        return states.all_words(letters, n)
    if n == 4:
        return states.all_words(letters[1:5], n)
    return states.patterns(letters[:4], n)


RIPPLES = [(1.0, 0.5), (1.0 + 0.7e-8, 0.5), (1.0, 0.5 + 2e-8), (1.0 + 1e-6, 0.5 - 1e-6)]


def _water_ripples(n):
    """Nearly constant states: the changes are tiny compared with the fluxes."""
    if n <= 3:
        return states.all_words(RIPPLES, n)
    return states.patterns(RIPPLES if n < 33 else RIPPLES[:3], n)


def _scale(u, g):
    h, q = u[:, 0], u[:, 1]
    v = ref_fv.velocity(u)
    f = np.abs(q) + np.abs(q * v) + g * h * h + np.sqrt(g * h) * (h + np.abs(q))
    return 1 + 10 * len(u) * np.max(f)


def _water(job, rec):
    name, boundary = job["name"], _boundary(job)
    base, _, high = name.partition("+")
    for n in [2, 3, 4, 10, 33]:
        bottoms = states.bottoms(n)
        keys = ["flat", "step"] if n in (4, 33) and not job["deep"] else [
            "flat", "level", "step", "steep"
        ]
        for key in keys:
            bottom = bottoms[key]
            g = {"flat": 9.812, "level": 2.0, "step": 1.0, "steep": 1.0}[key]
            length = n * (0.5 if n % 2 else 2.0)
            world = WaterWorld(
                [(1, 0)] * n, bottom, boundary=boundary, left=WLEFT, right=WRIGHT,
                g=g, length=length,
            )
            rhs = right_hand_side(swe.MIXED[name](world, mesh_size=n))
            time_step = 0.0
            if base == "lw":
                time_step = 0.125
                rhs.set_time_step(time_step)
            h = length / n
            ref = ref_fv.Water(
                base, g, h, boundary, None if base == "lw" else bottom, WLEFT, WRIGHT,
                high=high or None, time_step=time_step,
            )
            flat = key in ("flat", "level") or base == "lw"
            for u in itertools.chain(_water_space(name, n, job["deep"]), _water_ripples(n)):
                value = rhs(0.25, u.copy())
                rec.state(name, boundary, key, u)
                rec.step()
                rec.valid()
                total = h * np.sum(value, axis=0)
                if boundary == "periodic":
                    expected = np.zeros(2)
                else:
                    e = ref_fv.extend(u, boundary, 0.25, WLEFT, WRIGHT)
                    expected = _boundary_fluxes(ref, e)
                error = np.abs(total - expected)
                scale = _scale(
                    np.concatenate([u, [WLEFT(0.25), WRIGHT(0.25)]]), g
                )
                rec.check(
                    np.isfinite(total[0]) and error[0] <= 1e-13 * scale,
                    "water volume is not conserved",
                    lambda: dict(u=u, n=n, bottom=key, total=total, expected=expected),
                )
                if flat:
                    rec.check(
                        np.isfinite(total[1]) and error[1] <= 1e-13 * scale,
                        "momentum is not conserved over flat bottom",
                        lambda: dict(u=u, n=n, total=total, expected=expected),
                    )
                if boundary == ("wall", "wall") and base != "lw":
                    rec.check(
                        abs(total[0]) <= 1e-13 * scale,
                        "water flows through a wall",
                        lambda: dict(u=u, n=n, bottom=key, total=total),
                    )
        rec.outcome(f"water {base} n={n}")


def _sizes(job, rec):
    """Thin and deep layers between walls and in periodic domains, relative to their
    size."""
    name, deep = job["name"], job["deep"]
    base = name.partition("+")[0]
    wet = np.array(states.WET + [(1.0, 1e-7), (1.0, -1e-3)])
    for size, slow in itertools.product([1e-3, 1e-6, 1e-9, 1e-12, 1e3, 1e6], [1.0, 1e-4]):
        letters = wet * [size, size**1.5 * slow]
        for boundary in ["periodic"] + ([("wall", "wall")] if base != "lw" else []):
            for n in (2, 3, 6):
                for key in ["flat", "step"] if n < 6 else ["flat"]:
                    bottom = states.bottoms(n)[key]
                    bottom = bottom if bottom is None else [0.1 * size * b for b in bottom]
                    length = n * (0.5 if n % 2 else 2.0)
                    world = WaterWorld([(1, 0)] * n, bottom, boundary=boundary, g=9.812, length=length)
                    rhs = right_hand_side(swe.MIXED[name](world, mesh_size=n))
                    if base == "lw":
                        rhs.set_time_step(0.125 / np.sqrt(size))
                    for u in states.all_words(letters, n) if n <= 2 + deep else states.patterns(letters[:5], n):
                        value = rhs(0.25, u.copy())
                        rec.state("sizes", name, boundary, key, u)
                        rec.step()
                        rec.valid()
                        total = length / n * np.sum(value, axis=0)
                        h = np.max(u[:, 0])
                        # intermediate states of lw may be faster than all cells
                        flux = length * np.max(np.abs(value), axis=0)
                        speed = np.max(np.abs(ref_fv.velocity(u))) + np.sqrt(9.812 * h) + (base == "antidiffusion")
                        rec.check(
                            np.isfinite(total[0]) and abs(total[0]) <= 1e-12 * (n * h * speed + flux[0]),
                            "water volume is not conserved",
                            lambda: dict(u=u, n=n, bottom=key, boundary=boundary, total=total, scale=h * speed),
                        )
                        if boundary == "periodic" and (key == "flat" or base == "lw"):
                            rec.check(
                                np.isfinite(total[1]) and abs(total[1]) <= 1e-11 * (n * h * speed**2 + flux[1]),
                                "momentum is not conserved over flat bottom",
                                lambda: dict(u=u, n=n, total=total, scale=h * speed**2),
                            )
    rec.outcome(f"sizes {base}")


def _boundary_fluxes(ref, e):
    L, R = ref.fluxes(ref.scheme, e)
    return R[0] + L[-1]


def _water_run(job, rec):
    name = job["name"]
    letters = states.WET[:3] if "es" in name else states.WET[:2] + states.DRY
    integrators = INTEGRATORS if not name.startswith("lw") else {"euler": None}
    for n in [3] + ([4] if job["deep"] else []):
        for integrator, ode in integrators.items():
            for key in ["flat", "step"]:
                bottom = states.bottoms(n)[key]
                for u in states.all_words(letters, n):
                    kwargs = {} if ode is None else dict(ode_solver_type=ode)
                    world = WaterWorld(u, bottom, end_time=0.1, g=1.0, length=n * 0.5)
                    solver = swe.MIXED[name](
                        world, mesh_size=n, cfl_number=0.05, save_history=True, **kwargs
                    )
                    try:
                        solve(solver)
                    except ValueError:
                        # the scheme does not preserve positivity
                        rec.check(
                            name.split("+")[0]
                            in ("central", "es", "es1", "antidiffusion", "lw", "llf"),
                            "negative height",
                            dict(u=u),
                        )
                        continue
                    history = np.asarray(solver.solution.value_history)
                    totals = history.sum(axis=1)
                    rec.state(name, integrator, key, u)
                    rec.step(len(totals) - 1)
                    rec.valid()
                    columns = [0, 1] if key == "flat" or name == "lw" else [0]
                    scale = 1e-11 * _scale(u, 1.0)
                    rec.check(
                        np.all(
                            np.abs(totals[:, columns] - u.sum(axis=0)[columns]) <= scale
                        ),
                        "total changes during a run",
                        lambda: dict(u=u, integrator=integrator, totals=totals, bottom=key),
                    )
    rec.outcome("water run")


def _coarse(job, rec):
    for key in [None, "low-order", "central"]:
        for degree in [1, 2, 4]:
            for n in [2, 3]:
                for u in states.all_words(states.WET[:3], n):
                    world = WaterWorld(u, end_time=0.05, length=float(n), g=1.0)
                    solver = solve(
                        SW.CoarseSolver(
                            world, mesh_size=n * degree, coarsening_degree=degree,
                            cfl_number=0.2, save_history=True,
                            flux_getter=swe.G[key] if key else None,
                        )
                    )
                    history = np.asarray(solver.solution.value_history)
                    rec.state("coarse", key, degree, u)
                    rec.step(len(history) - 1)
                    rec.valid()
                    rec.check(
                        history.shape[1] == n
                        and np.allclose(history.sum(axis=1), u.sum(axis=0), atol=1e-11),
                        "coarse solution loses mass",
                        lambda: dict(u=u, degree=degree, history=history),
                    )
    rec.outcome("coarse")


def _reduced(job, rec):
    old = os.getcwd()
    os.chdir(REPO)
    try:
        factory = {
            "reduced-llf": SW.ReducedLaxFriedrichsSolver,
            "reduced-llf-2": SW.ReducedLaxFriedrichs2Solver,
        }[job["name"]]
        for n in [4, 5, 12]:
            world = WaterWorld([(1, 0)] * n, boundary="periodic", length=2.0 * n)
            solver = factory(world, mesh_size=n)
            rhs = right_hand_side(solver)
            space = (
                states.all_words(states.WET[:3], n)
                if n <= 5
                else states.patterns(states.WET, n)
            )
            for u in space:
                value = rhs(0.0, u.copy())
                rec.state(job["name"], u)
                rec.step()
                rec.valid()
                total = 2.0 * np.sum(value, axis=0)
                # network predictions are of single precision and depend on the
                # batch only by roundoff of single precision
                rec.check(
                    np.all(np.abs(total) <= 1e-5 * _scale(u, 9.812) / n),
                    "reduced model is not conservative",
                    lambda: dict(u=u, total=total),
                )
        rec.outcome(job["name"])
    finally:
        os.chdir(old)
