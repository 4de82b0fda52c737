"""Translation and mirror equivariance.  For every initial state of a bounded space the
real solver is run on the state and on all its shifts by whole cells (periodic) and
on its mirror image (all boundary pairs, mirrored); right hand sides are compared in
the same way in every state of a larger space.  Runs on larger meshes and of scaled
and nearly constant states are included."""
import os

import numpy as np

import finite_volume.scalar.solver as SS
import finite_volume.shallow_water.solver as SW

from .. import fe, ref_fv, states, swe
from ..core import REPO
from ..worlds import INTEGRATORS, ScalarWorld, WaterWorld, mixed, Reused as right_hand_side, solve

SCALAR = {
    "llf": SS.LaxFriedrichsSolver,
    "central": SS.CentralFluxSolver,
    "mcl": SS.MCLSolver,
}
ASSUMPTIONS = [
    "equality up to roundoff",
    "with a periodic boundary the bottom agrees in the cells which meet at the seam",
    "advection moves to the right, so only Burgers is mirrored",
    "states in which a bar state of mcl has a positive height below 1e-9 are left "
    "out, velocities are ratios of roundoff there",
]
MIRRORED = {"periodic": "periodic"}
BOUNDARIES = ["periodic", ("outflow", "outflow"), ("wall", "wall"), ("inflow", "wall"),
              ("outflow", "inflow"), ("wall", "outflow")]
SCALAR_BOUNDARIES = ["periodic", ("outflow", "outflow"), ("inflow", "outflow"),
                     ("outflow", "inflow"), ("inflow", "inflow")]
WLEFT = lambda t: np.array([1.0 + t, 0.3])
WRIGHT = lambda t: np.array([2.0, -0.5 - t])
LEFT = lambda t: 1.5 + 0.25 * t
RIGHT = lambda t: -0.5 - t


def jobs(tier):
    deep = tier == "thorough"
    result = []
    for problem in ["advection", "burgers"]:
        for name in SCALAR:
            result.append(dict(kind="scalar-shift", problem=problem, name=name, deep=deep))
        for name in fe.SOLVERS:
            for n, p in [(4, 1), (2, 2), (3, 2), (2, 3), (12, 1), (130, 1), (40, 2)] + (
                [(5, 1), (3, 3), (2, 5), (4, 2)] if deep else []
            ):
                result.append(dict(kind="element", problem=problem, name=name, n=n, p=p,
                                   deep=deep))
    for name in SCALAR:
        result.append(dict(kind="scalar-mirror", name=name, deep=deep))
    for name in swe.FACTORIES:
        result.append(dict(kind="water-shift", name=name, deep=deep))
        for boundary in BOUNDARIES if not name.startswith("mcl") else []:
            result.append(dict(kind="water-mirror", name=name, boundary=boundary, deep=deep))
    for flux in [None, "central", "low-order"]:
        result.append(dict(kind="coarse", flux=flux, deep=deep))
    for name in ["reduced-llf", "reduced-llf-2"]:
        result.append(dict(kind="reduced", name=name, deep=deep))
    return result


def run(job, rec):
    globals()["_" + job["kind"].replace("-", "_")](job, rec)


def _mirror(boundary):
    return boundary if isinstance(boundary, str) else (boundary[1], boundary[0])


def _water_mirror_state(u):
    return u[::-1] * np.array([1.0, -1.0])


def _compare(rec, message, a, b, eps, detail):
    rec.valid()
    rec.check(a.shape == b.shape and np.all(np.isfinite(a)) and np.all(np.abs(a - b) <= eps),
              message, lambda: dict(detail, got=a, expected=b))


# ------------------------------------------------------------------------ scalar
def _scalar_shift(job, rec):
    problem, name, deep = job["problem"], job["name"], job["deep"]
    for n in [2, 3, 4, 13, 140] + ([5, 6, 400] if deep else []):
        world = ScalarWorld(problem, [0] * n, length=2.0)
        rhs = right_hand_side(mixed(SCALAR)[name](world, mesh_size=n))
        letters = states.SCALAR
        space = states.all_words(letters, n) if n <= 6 else states.patterns(letters, n)
        for u in states.magnified(space, 3 if n > 3 else 1):
            value = rhs(0.0, u.copy())
            eps = 1e-13 * n * np.max(np.abs(u)) ** (1 if problem == "advection" else 2)
            rec.state(problem, name, u)
            rec.step()
            for k in range(1, n) if n <= 4 else (1, n // 2, n - 1):
                _compare(rec, "right hand side of the shifted state is not shifted",
                         rhs(0.0, np.roll(u, k)), np.roll(value, k), eps, dict(u=u, k=k))
    for n in [3, 4] if deep else [3]:
        for integrator, ode in INTEGRATORS.items():
            runs = {}
            for u in states.all_words(states.SCALAR_SMALL, n):
                world = ScalarWorld(problem, u, length=2.0, end_time=0.6)
                solver = solve(mixed(SCALAR)[name](world, mesh_size=n, cfl_number=0.2,
                                            ode_solver_type=ode, save_history=True))
                runs[tuple(u)] = np.asarray(solver.solution.value_history)
                rec.state("run", problem, name, integrator, u)
                rec.step(len(runs[tuple(u)]) - 1)
            for u in runs:
                for k in range(1, n):
                    _compare(rec, "solution of the shifted data is not shifted",
                             runs[tuple(np.roll(u, k))], np.roll(runs[u], k, axis=1),
                             1e-10, dict(u=u, k=k, integrator=integrator))
    rec.outcome(f"shift {name}")


def _scalar_mirror(job, rec):
    name, deep = job["name"], job["deep"]
    for boundary in SCALAR_BOUNDARIES:
        for n in [1, 2, 3, 4, 13, 140] + ([5, 400] if deep else []):
            world = ScalarWorld("burgers", [0] * n, length=2.0, boundary=boundary, left=LEFT,
                                right=RIGHT)
            mirror = ScalarWorld("burgers", [0] * n, length=2.0, boundary=_mirror(boundary),
                                 left=lambda t: -RIGHT(t), right=lambda t: -LEFT(t))
            rhs = right_hand_side(mixed(SCALAR)[name](world, mesh_size=n))
            mirrored = right_hand_side(mixed(SCALAR)[name](mirror, mesh_size=n))
            letters = states.SCALAR
            space = states.all_words(letters, n) if n <= 5 else states.patterns(letters, n)
            for u in states.magnified(space, 3 if n > 3 else 1):
                rec.state(name, boundary, u)
                rec.step(2)
                size = np.max(np.abs(u)) if boundary in ("periodic", ("outflow", "outflow")) else 2 + np.max(np.abs(u))
                _compare(rec, "right hand side of the mirrored state is not mirrored",
                         mirrored(0.5, -u[::-1]), -rhs(0.5, u.copy())[::-1],
                         1e-13 * n * size**2, dict(u=u, boundary=boundary))
        for integrator, ode in INTEGRATORS.items():
            n = 3
            for u in states.all_words(states.SCALAR_SMALL, n):
                results = []
                for data, b, left, right in [
                    (u, boundary, LEFT, RIGHT),
                    (-u[::-1], _mirror(boundary), lambda t: -RIGHT(t), lambda t: -LEFT(t)),
                ]:
                    world = ScalarWorld("burgers", data, length=2.0, end_time=0.3, boundary=b,
                                        left=left, right=right)
                    solver = solve(mixed(SCALAR)[name](world, mesh_size=n, cfl_number=0.1,
                                                ode_solver_type=ode, save_history=True))
                    results.append(np.asarray(solver.solution.value_history))
                rec.state("run", name, boundary, integrator, u)
                rec.step(2 * len(results[0]) - 2)
                _compare(rec, "solution of the mirrored data is not mirrored",
                         results[1], -results[0][:, ::-1], 1e-10,
                         dict(u=u, boundary=boundary, integrator=integrator))
    rec.outcome(f"mirror {name}")


def _element(job, rec):
    problem, name, n, p, deep = (job[k] for k in ["problem", "name", "n", "p", "deep"])
    dim = n * p
    world = ScalarWorld(problem, lambda x: 0.0, length=2.0)
    rhs = right_hand_side(fe.MIXED[name](world, mesh_size=n, polynomial_degree=p))
    reflect = lambda u: -np.roll(u[::-1], 1)
    space = fe.space_of_states(dim, 3000 if deep else 750 if dim < 50 else 30)
    for u in states.magnified(space, 5):
        value = rhs(0.0, u.copy())
        eps = 1e-13 * 10**p * n * np.max(np.abs(u)) ** (1 if problem == "advection" else 2)
        rec.state(problem, name, n, p, u)
        rec.step()
        for k in range(1, n) if n <= 4 else (1, n // 2, n - 1):
            _compare(rec, "right hand side of the shifted state is not shifted",
                     rhs(0.0, np.roll(u, k * p)), np.roll(value, k * p), eps, dict(u=u, k=k))
            rec.step()
        if problem == "burgers":
            _compare(rec, "right hand side of the mirrored state is not mirrored",
                     rhs(0.0, reflect(u)), reflect(value), eps, dict(u=u))
            rec.step()
    if dim > (6 if deep else 4):
        return
    integrators = INTEGRATORS if name in ("cg-low", "mcl-fem") else {"optimal": None}
    for integrator, ode in integrators.items():
        runs = {}
        for u in states.all_words(states.SCALAR_SMALL, dim) if dim <= 4 or deep else (
            fe.space_of_states(dim, 100)
        ):
            variants = [np.roll(u, k * p) for k in range(n)]
            if problem == "burgers":
                variants.append(reflect(u))
            results = []
            for data in variants:
                key = tuple(data + 0.0)
                if key not in runs:
                    world = ScalarWorld(problem, fe.nodal(data, n, p, 2.0), length=2.0,
                                        end_time=0.05)
                    kwargs = {} if ode is None else dict(ode_solver_type=ode)
                    solver = solve(fe.MIXED[name](
                        world, mesh_size=n, polynomial_degree=p, cfl_number=0.02 if ode is None
                        else 0.5, save_history=True, **kwargs))
                    runs[key] = np.asarray(solver.solution.value_history)
                    rec.step(len(runs[key]) - 1)
                results.append(runs[key])
            rec.state("run", problem, name, n, p, integrator, u)
            for k in range(1, n):
                _compare(rec, "solution of the shifted data is not shifted", results[k],
                         np.roll(results[0], k * p, axis=1), 1e-10 * 4**p,
                         dict(u=u, k=k, integrator=integrator))
            if problem == "burgers":
                _compare(rec, "solution of the mirrored data is not mirrored", results[n],
                         np.array([reflect(v) for v in results[0]]), 1e-10 * 4**p,
                         dict(u=u, integrator=integrator))
    rec.outcome(f"element {name} p={p}")


# ----------------------------------------------------------------- shallow water
def _letters(name):
    if "es" in name:
        return [w for w in states.WATER if w[0] > 0.01] + states.FAST[:1]
    return states.WATER


def _ill(name, u, g, bottom, boundary, rec):
    """The limited scheme is not comparable up to roundoff in this state."""
    if not name.startswith("mcl"):
        return False
    model = ref_fv.Water("mcl", g, 1.0, boundary, bottom, WLEFT, WRIGHT, high="central")
    model(0.25, u)
    if model.ill:
        rec.outcome(f"not compared {name}")
    return model.ill


def _scaled(name, space, n):
    """The states, thin layers and nearly constant states."""
    for k, u in enumerate(space):
        yield u
        if k % (3 if n < 4 else 8) == 0:
            if "es" not in name:
                yield u * 2.0**-12
                yield u * np.array([2.0**-16, 2.0**-24])
            yield np.array([1.0, 0.5]) + u * 2.0**-13
            yield np.array([0.25, 0.0]) + u * 2.0**-22


def _roundoff(u, g, bottom):
    """Roundoff of the right hand side of the height and the discharge."""
    h = np.max(u[:, 0]) + (np.ptp(bottom) if bottom is not None else 0.0)
    q = np.max(np.abs(u[:, 1]))
    wet = u[u[:, 0] > 0]
    speed = np.max(np.abs(wet[:, 1] / wet[:, 0]), initial=0.0) + np.sqrt(g * h)
    return 1e-11 * np.array([speed * h + q, speed * (speed * h + q)])


def _seam(n):
    """Bottoms and shifts such that both seams are level."""
    yield None, range(1, n)
    if n >= 4:
        yield [0.0] * (n // 2 - 1) + [0.5, 0.5, 0.0] + [0.0] * (n - n // 2 - 2), None


def _water_shift(job, rec):
    name, deep = job["name"], job["deep"]
    g = 2.0
    for n in [2, 3, 4, 10, 120] + ([5, 300] if deep else []):
        letters = _letters(name)
        h = 0.5
        for bottom, shifts in _seam(n):
            if shifts is None:
                if name == "lw":
                    continue
                shifts = [k for k in range(1, n)
                          if np.roll(bottom, k)[0] == np.roll(bottom, k)[-1]
                          and bottom[0] == bottom[-1]]
            elif n > 4:
                shifts = [1, n // 2, n - 1]
            sides = {}
            for k in [0, *shifts]:
                b = None if bottom is None else list(np.roll(bottom, k))
                world = WaterWorld([(1, 0)] * n, b, g=g, length=n * h)
                sides[k] = right_hand_side(swe.MIXED[name](world, mesh_size=n))
                if name == "lw":
                    sides[k].set_time_step(0.1)
            if n <= 3:
                space = states.all_words(letters, n)
            elif n <= 5:
                space = states.all_words(letters if deep and n == 4 else letters[2:5] if n == 4
                                         else letters[:4], n)
            else:
                space = states.patterns(letters[:4] if n < 50 else letters[:2], n)
            for u in _scaled(name, space, n):
                if _ill(name, u, g, bottom, "periodic", rec):
                    continue
                value = sides[0](0.0, u.copy())
                rec.state(name, bottom, u)
                rec.step()
                for k in shifts:
                    rec.step()
                    _compare(rec, "right hand side of the shifted state is not shifted",
                             sides[k](0.0, np.roll(u, k, axis=0)), np.roll(value, k, axis=0),
                             _roundoff(u, g, bottom), dict(u=u, k=k, bottom=bottom))
    n, h = 3, 0.5
    letters = states.WET[:3] if "es" in name else states.WET[:2] + states.DRY
    for integrator, ode in INTEGRATORS.items() if name != "lw" else [("euler", None)]:
        runs = {}
        for u in states.all_words(letters, n):
            if _ill(name, u, g, None, "periodic", rec):
                continue
            world = WaterWorld(u, g=g, length=n * h, end_time=4 * 0.05 * h)
            kwargs = {} if ode is None else dict(ode_solver_type=ode)
            solver = swe.MIXED[name](world, mesh_size=n, cfl_number=0.05,
                                         save_history=True, **kwargs)
            try:
                solve(solver)
            except ValueError:
                continue
            runs[tuple(u.ravel())] = np.asarray(solver.solution.value_history)
            rec.state("run", name, integrator, u)
        for key in runs:
            u = np.array(key).reshape(n, 2)
            if np.min(np.where(runs[key][:, :, 0] > 0, runs[key][:, :, 0], 1)) < 1e-6:
                continue
            for k in range(1, n):
                other = tuple(np.roll(u, k, axis=0).ravel())
                if rec.check(other in runs, "shifted data fail", lambda: dict(u=u, k=k)):
                    _compare(rec, "solution of the shifted data is not shifted",
                             runs[other], np.roll(runs[key], k, axis=1), 1e-8,
                             dict(u=u, k=k, integrator=integrator))
    rec.outcome(f"shift {name}")


def _water_mirror(job, rec):
    name, deep = job["name"], job["deep"]
    boundary = job["boundary"]
    boundary = boundary if isinstance(boundary, str) else tuple(boundary)
    g, h = 2.0, 0.5
    flip = np.array([1.0, -1.0])
    left, right = lambda t: flip * WRIGHT(t), lambda t: flip * WLEFT(t)
    for n in [1, 2, 3, 4, 9, 120] + ([300] if deep else []):
        for key in ["flat", "step", "steep", "pit"] if n <= 3 or deep else ["flat", "step"]:
            bottom = states.bottoms(n)[key]
            if name == "lw" and key != "flat":
                continue
            world = WaterWorld([(1, 0)] * n, bottom, g=g, length=n * h, boundary=boundary,
                               left=WLEFT, right=WRIGHT)
            mirror = WaterWorld([(1, 0)] * n, bottom[::-1] if bottom else None, g=g,
                                length=n * h, boundary=_mirror(boundary), left=left, right=right)
            rhs = right_hand_side(swe.MIXED[name](world, mesh_size=n))
            mirrored = right_hand_side(swe.MIXED[name](mirror, mesh_size=n))
            if name == "lw":
                rhs.set_time_step(0.1)
                mirrored.set_time_step(0.1)
            letters = _letters(name)
            if n <= 3:
                space = states.all_words(letters if n < 3 or deep else letters[:5], n)
            elif n == 4:
                space = states.all_words(letters if deep else letters[2:5], n)
            else:
                space = states.patterns(letters[:4] if n < 50 else letters[:2], n)
            for u in _scaled(name, space, n):
                if _ill(name, u, g, bottom, boundary, rec):
                    continue
                rec.state(name, boundary, key, u)
                rec.step(2)
                _compare(rec, "right hand side of the mirrored state is not mirrored",
                         mirrored(0.25, _water_mirror_state(u)),
                         _water_mirror_state(rhs(0.25, u.copy())),
                         _roundoff(u, g, bottom) if boundary in ("periodic", ("outflow", "outflow"), ("wall", "wall"), ("wall", "outflow"))
                         else 1e-10 * (2 + np.max(np.abs(u))) ** 3,
                         dict(u=u, bottom=key, boundary=boundary))
    n = 3
    letters = states.WET[:3]
    for integrator, ode in INTEGRATORS.items() if name != "lw" else [("euler", None)]:
        for u in states.all_words(letters, n):
            results = []
            for data, b, l, r in [(u, boundary, WLEFT, WRIGHT),
                                  (_water_mirror_state(u), _mirror(boundary), left, right)]:
                world = WaterWorld(data, g=g, length=n * h, end_time=4 * 0.05 * h, boundary=b,
                                   left=l, right=r)
                kwargs = {} if ode is None else dict(ode_solver_type=ode)
                solver = swe.MIXED[name](world, mesh_size=n, cfl_number=0.05,
                                             save_history=True, **kwargs)
                try:
                    results.append(np.asarray(solve(solver).solution.value_history))
                except ValueError:
                    results.append(None)
            rec.state("run", name, boundary, integrator, u)
            if results[0] is None or results[1] is None:
                rec.check(results[0] is results[1], "only one of both runs fails",
                          lambda: dict(u=u))
                continue
            rec.step(2 * len(results[0]) - 2)
            _compare(rec, "solution of the mirrored data is not mirrored", results[1],
                     np.array([_water_mirror_state(v) for v in results[0]]), 1e-8,
                     dict(u=u, boundary=boundary, integrator=integrator))
    rec.outcome(f"mirror {name}")


def _coarse(job, rec):
    key, degree = job["flux"], 2
    g, h = 2.0, 0.5
    runs = {}
    for n in [4, 6] if job["deep"] else [4]:
        for u in states.all_words(states.WET[:3], n):
            world = WaterWorld(u, g=g, length=n * h, end_time=4 * 0.05 * h)
            solver = solve(SW.CoarseSolver(world, mesh_size=n, coarsening_degree=degree,
                                           cfl_number=0.05, save_history=True,
                                           flux_getter=swe.G[key] if key else None))
            runs[tuple(u.ravel())] = np.asarray(solver.solution.value_history)
            rec.state("coarse", key, u)
            rec.step(len(runs[tuple(u.ravel())]) - 1)
        for data in runs:
            u = np.array(data).reshape(-1, 2)
            for k in range(1, len(u) // degree):
                _compare(rec, "coarse solution of the shifted data is not shifted",
                         runs[tuple(np.roll(u, k * degree, axis=0).ravel())],
                         np.roll(runs[data], k, axis=1), 1e-9, dict(u=u, k=k))
            _compare(rec, "coarse solution of the mirrored data is not mirrored",
                     runs[data], runs[data], 0.0, dict(u=u))
    rec.outcome("coarse")


def _reduced(job, rec):
    old = os.getcwd()
    os.chdir(REPO)
    try:
        factory = {
            "reduced-llf": SW.ReducedLaxFriedrichsSolver,
            "reduced-llf-2": SW.ReducedLaxFriedrichs2Solver,
        }[job["name"]]
        for n in [4, 5, 9]:
            world = WaterWorld([(1, 0)] * n, boundary="periodic", length=2.0 * n)
            rhs = right_hand_side(factory(world, mesh_size=n))
            for u in states.all_words(states.WET[:3], n) if n <= 5 else states.patterns(
                states.WET, n
            ):
                value = rhs(0.0, u.copy())
                rec.state(job["name"], u)
                rec.step(2)
                for k in (1, n - 1):
                    # predictions are of single precision
                    _compare(rec, "right hand side of the shifted state is not shifted",
                             rhs(0.0, np.roll(u, k, axis=0)), np.roll(value, k, axis=0),
                             2e-4 * (1 + np.abs(value).max()), dict(u=u, k=k))
        rec.outcome(job["name"])
    finally:
        os.chdir(old)
