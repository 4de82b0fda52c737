"""Constant states.  The real right hand side and numerical flux of every solver is
evaluated in every constant state of an alphabet (zero, negative, dry, nearly dry,
supercritical), on meshes of all small sizes, with all boundaries which admit the
state; complete runs with every integrator must keep it; every flux at equal
neighbours must be the physical flux.  The reduced models are left out, their
networks predict a subgrid flux of constant states, too.  Scaled and large constant
states and meshes with hundreds of cells are included."""
import numpy as np

import finite_volume.scalar.solver as SS
import finite_volume.shallow_water.solver as SW

from .. import fe, ref_fv, swe
from ..worlds import INTEGRATORS, ScalarWorld, WaterWorld, mixed, Reused as right_hand_side, solve

SCALAR = {
    "llf": SS.LaxFriedrichsSolver,
    "central": SS.CentralFluxSolver,
    "mcl": SS.MCLSolver,
}
ASSUMPTIONS = ["equalities hold up to roundoff relative to the physical flux"]
VALUES = [0.0, 1.0, -1.0, 0.3, -2.5, 1e-4, 1e-8, 1e6, 3.0, -0.125, 7.7, 1 + 1e-9]
HEIGHTS = [0.0, 1e-12, 1e-6, 1e-3, 0.1, 1.0, 2.7, 1e3]
VELOCITIES = [0.0, 1.0, -0.3, 20.0, -7.5, -3e3]
WATER = [(h, h * v) for h in HEIGHTS for v in VELOCITIES if h > 0 or v == 0]


def jobs(tier):
    deep = tier == "thorough"
    result = []
    for problem in ["advection", "burgers"]:
        for scheme in SCALAR:
            result.append(dict(kind="scalar", problem=problem, scheme=scheme, deep=deep))
        for scheme in fe.SOLVERS:
            result.append(dict(kind="element", problem=problem, scheme=scheme, deep=deep))
    for name in swe.FACTORIES:
        result.append(dict(kind="water", name=name, deep=deep))
        result.append(dict(kind="water-run", name=name, deep=deep))
    result.append(dict(kind="coarse", deep=deep))
    return result


def run(job, rec):
    globals()["_" + job["kind"].replace("-", "_")](job, rec)


def _scalar(job, rec):
    problem, scheme = job["problem"], job["scheme"]
    sizes = [1, 2, 3, 5, 16, 210] + ([4, 7, 33, 100, 1000] if job["deep"] else [])
    for c in VALUES:
        data = lambda t: c
        for boundary in ["periodic", ("outflow", "outflow"), ("inflow", "outflow"),
                         ("outflow", "inflow"), ("inflow", "inflow")]:
            for n in sizes:
                for length in [1.0, 3.0]:
                    world = ScalarWorld(problem, [c] * n, boundary=boundary, left=data,
                                        right=data, length=length)
                    rhs = right_hand_side(mixed(SCALAR)[scheme](world, mesh_size=n))
                    scale = 1e-12 * (abs(c) + c * c) * n / length
                    value = rhs(0.5, np.full(n, c))
                    rec.state("scalar", problem, scheme, c, boundary, n, length)
                    rec.step()
                    rec.valid()
                    rec.check(np.shape(value) == (n,) and np.all(np.abs(value) <= scale),
                              "constant state is not steady",
                              lambda: dict(c=c, n=n, boundary=boundary, rhs=value))
                flux = rhs.as_dict()["numerical_flux"]
                left, right = flux(*[np.full(n + 1, c)] * flux.input_dimension)
                expected = ref_fv.flux(problem, np.full(n + 1, c))
                eps = 1e-12 * (abs(c) + c * c)
                rec.check(
                    np.all(np.abs(right - expected) <= eps)
                    and np.all(np.abs(left + expected) <= eps),
                    "numerical flux is not consistent",
                    lambda: dict(c=c, left=left, right=right, expected=expected))
    for c in VALUES:
        for integrator, ode in INTEGRATORS.items():
            for n in [2, 3, 5] + ([130] if c in (0.3, 1e-4) else []):
                size = max(1.0, abs(c)) if problem == "burgers" else 1.0
                world = ScalarWorld(problem, [c] * n, end_time=0.5 / size)
                solver = solve(mixed(SCALAR)[scheme](world, mesh_size=n, cfl_number=0.3 / size,
                                              ode_solver_type=ode, save_history=True))
                history = np.asarray(solver.solution.value_history)
                rec.state("run", problem, scheme, integrator, n, c)
                rec.step(len(history) - 1)
                rec.valid()
                rec.check(len(history) > 2 and np.all(np.abs(history - c) <= 1e-11 * (abs(c) + c * c)),
                          "constant state changes during a run",
                          lambda: dict(c=c, integrator=integrator, history=history))
    rec.outcome(f"scalar {scheme}")


def _element(job, rec):
    problem, scheme = job["problem"], job["scheme"]
    spaces = [(1, 1), (2, 1), (1, 2), (3, 1), (5, 1), (2, 2), (4, 2), (2, 3), (3, 4), (12, 1), (140, 1), (60, 2)]
    if job["deep"]:
        spaces += [(2, 5), (2, 6), (2, 7), (5, 3), (40, 1)]
    if scheme in ("cg-low", "mcl-fem"):
        # neighbours wrap around to the node itself
        spaces = [s for s in spaces if s[0] * s[1] > 1]
    for c in VALUES:
        for n, p in spaces:
            world = ScalarWorld(problem, lambda x: c, length=2.0, offset=-1.0)
            rhs = right_hand_side(fe.MIXED[scheme](world, mesh_size=n, polynomial_degree=p))
            value = rhs(0.0, np.full(n * p, c))
            rec.state("element", problem, scheme, c, n, p)
            rec.step()
            rec.valid()
            rec.check(
                np.shape(value) == (n * p,)
                and np.all(np.abs(value) <= 1e-12 * 10**p * (abs(c) + c * c) * n),
                "constant state is not steady",
                lambda: dict(c=c, n=n, p=p, rhs=value))
        for n, p in [(3, 1), (2, 2), (2, 3)]:
            for integrator, ode in INTEGRATORS.items():
                kwargs = dict(ode_solver_type=ode)
                if scheme in ("cg", "cg-exact"):
                    if integrator != "euler":
                        continue
                    kwargs = {}
                adaptive = [dict()] if kwargs == {} else [dict(), dict(adaptive=True)]
                for option in adaptive:
                    size = max(1.0, abs(c)) if problem == "burgers" else 1.0
                    world = ScalarWorld(problem, lambda x: c, length=2.0, offset=-1.0,
                                        end_time=0.3 / size)
                    solver = solve(fe.MIXED[scheme](
                        world, mesh_size=n, polynomial_degree=p, save_history=True,
                        cfl_number=0.1 / size if not kwargs else 0.5, **kwargs, **option))
                    history = np.asarray(solver.solution.value_history)
                    rec.state("run", problem, scheme, integrator, n, p, c, bool(option))
                    rec.step(len(history) - 1)
                    rec.valid()
                    rec.check(len(history) > 1 and np.all(np.abs(history - c) <= 1e-10 * (abs(c) + c * c)),
                              "constant state changes during a run",
                              lambda: dict(c=c, integrator=integrator, history=history))
    rec.outcome(f"element {scheme}")


def _admissible(name, letter):
    # averages of heights below the square root of the smallest number
    return not ("es" in name and letter[0] < 1e-9 and letter != (0.0, 0.0))


def _water(job, rec):
    name = job["name"]
    sizes = [1, 2, 3, 8, 150] + ([4, 5, 40] if job["deep"] else [])
    for g in [1.0, 9.812, 0.1]:
        for letter in WATER:
            if not _admissible(name, letter):
                continue
            u0 = np.array(letter)
            data = lambda t: u0.copy()
            mirrored = np.array([1.0, -1.0]) * u0
            boundaries = ["periodic", ("outflow", "outflow"), ("inflow", "outflow"),
                          ("inflow", "inflow")]
            if letter[1] == 0:
                boundaries += [("wall", "wall"), ("wall", "outflow")]
            expected = ref_fv.physical_flux(u0[None], g)[0]
            speed = np.abs(ref_fv.velocity(u0[None]))[0] + np.sqrt(g * u0[0])
            eps = 1e-12 * (np.abs(expected).sum() + speed * np.abs(u0).sum())
            for boundary in boundaries:
                for n in sizes:
                    for bottom in [None, [0.7] * n]:
                        world = WaterWorld([letter] * n, bottom, boundary=boundary,
                                           left=data, right=data, g=g, length=n * 0.5)
                        rhs = right_hand_side(swe.MIXED[name](world, mesh_size=n))
                        if name == "lw":
                            rhs.set_time_step(0.1)
                        value = rhs(0.5, np.tile(u0, (n, 1)))
                        rec.state(name, g, letter, boundary, n, bottom is None)
                        rec.step()
                        rec.valid()
                        rec.check(np.shape(value) == (n, 2) and np.all(np.abs(value) <= 4 * eps),
                                  "constant state is not steady",
                                  lambda: dict(u=letter, n=n, g=g, boundary=boundary, rhs=value))
            rhs = right_hand_side(swe.MIXED[name](
                WaterWorld([letter] * 3, g=g), mesh_size=3))
            if name == "lw":
                rhs.set_time_step(0.1)
            flux = rhs.as_dict()["numerical_flux"]
            left, right = flux(*[np.tile(u0, (4, 1))] * flux.input_dimension)
            rec.step()
            rec.check(
                np.all(np.abs(right - expected) <= eps) and np.all(np.abs(left + expected) <= eps),
                "numerical flux is not consistent",
                lambda: dict(u=letter, g=g, left=left, right=right, expected=expected))
    rec.outcome(f"water {name}")


def _water_run(job, rec):
    name = job["name"]
    integrators = INTEGRATORS if not name.startswith("lw") else {"euler": None}
    for letter in [(0.0, 0.0), (1.0, 0.0), (1.0, 0.5), (0.25, -2.0), (2.0, 6.0)]:
        u0 = np.array(letter)
        for boundary in ["periodic", ("outflow", "outflow")]:
            for integrator, ode in integrators.items():
                for n in ([2, 5, 130] if letter == (1.0, 0.5) else [2, 5]) if not job["deep"] else [1, 2, 3, 5, 10, 130]:
                    kwargs = {} if ode is None else dict(ode_solver_type=ode)
                    world = WaterWorld([letter] * n, g=1.0, boundary=boundary, end_time=0.2,
                                       length=n * 1.0)
                    solver = solve(swe.MIXED[name](
                        world, mesh_size=n, cfl_number=0.05, save_history=True, **kwargs))
                    history = np.asarray(solver.solution.value_history)
                    rec.state("run", name, letter, boundary, integrator, n)
                    rec.step(len(history) - 1)
                    rec.valid()
                    rec.check(len(history) == 5 and np.all(np.abs(history - u0) <= 1e-11),
                              "constant state changes during a run",
                              lambda: dict(u=letter, integrator=integrator, history=history))
    rec.outcome(f"water run {name}")


def _coarse(job, rec):
    for letter in [(1.0, 0.0), (1.0, 0.5), (0.25, -2.0)]:
        for key in [None, "central", "es", "low-order"]:
            for degree in [1, 2, 4]:
                for boundary in ["periodic", ("outflow", "outflow")]:
                    world = WaterWorld([letter] * 8, g=1.0, end_time=0.2, length=8.0,
                                       boundary=boundary)
                    solver = solve(SW.CoarseSolver(
                        world, mesh_size=8, coarsening_degree=degree, cfl_number=0.05,
                        save_history=True, flux_getter=swe.G[key] if key else None))
                    history = np.asarray(solver.solution.value_history)
                    rec.state("coarse", letter, key, degree, boundary)
                    rec.step(len(history) - 1)
                    rec.valid()
                    rec.check(history.shape == (5, 8 // degree, 2)
                              and np.all(np.abs(history - np.array(letter)) <= 1e-11),
                              "constant state changes during a run",
                              lambda: dict(u=letter, degree=degree, history=history))
    rec.outcome("coarse")
