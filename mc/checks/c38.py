"""Conformance of the shallow water solvers with reference models written from
the formulas of the schemes.  Right hand sides of every solver variant are
compared in every state of a bounded space (all words over an alphabet of wet,
fast, nearly dry and dry cells on small meshes, structured states on larger
ones, bottoms, boundary pairs); complete runs of the real solvers, the coarse
solver included, are replayed step by step by the model."""
import itertools

import numpy as np

import finite_volume.shallow_water.solver as SW

from .. import ref_fv, ref_ode, states, swe
from ..worlds import INTEGRATORS, WaterWorld, Reused as right_hand_side, solve

ASSUMPTIONS = [
    "comparison up to roundoff; states in which a bar state of mcl has a positive "
    "height below 1e-9 are executed but not compared, velocities are ratios of "
    "roundoff there",
]
WLEFT = lambda t: np.array([1.0 + t, 0.3])
WRIGHT = lambda t: np.array([2.0, -0.5 - t])
BOUNDARIES = [
    "periodic",
    ("outflow", "outflow"),
    ("wall", "wall"),
    ("inflow", "wall"),
    ("outflow", "inflow"),
]
BOTTOMS = ["flat", "level", "step", "steep", "bump", "pit", "tiny", "gentle"]


def jobs(tier):
    deep = tier == "thorough"
    result = []
    for name in swe.FACTORIES:
        for boundary in BOUNDARIES:
            result.append(dict(kind="rhs", name=name, boundary=boundary, deep=deep))
            result.append(dict(kind="scaled", name=name, boundary=boundary, deep=deep))
            result.append(dict(kind="run", name=name, boundary=boundary, deep=deep))
    for boundary in BOUNDARIES:
        result.append(dict(kind="resteps", boundary=boundary, deep=deep))
    for key in [None, "central", "low-order", "es", "es1", "llf"]:
        result.append(dict(kind="coarse", flux=key, deep=deep))
    result.append(dict(kind="parameters"))
    return result


def run(job, rec):
    globals()["_" + job["kind"]](job, rec)


def _boundary(job):
    b = job["boundary"]
    return b if isinstance(b, str) else tuple(b)


def _letters(name):
    if "es" in name:
        return [w for w in states.WATER if w[0] > 0.01] + states.FAST[:1]
    return states.WATER


def _scale(u, g):
    h, q = np.abs(u[:, 0]), u[:, 1]
    v = ref_fv.velocity(u)
    return 1 + np.max(np.abs(q) + np.abs(q * v) + g * h * h + np.sqrt(g * h) * (h + np.abs(q)))


def _rhs(job, rec):
    name, boundary, deep = job["name"], _boundary(job), job["deep"]
    base, _, high = name.partition("+")
    letters = _letters(name)
    for n in [2, 3, 4, 12, 260] + ([1025] if deep else []):
        bottoms = states.bottoms(n)
        keys = BOTTOMS if n in (2, 3) or deep else ["flat", "bump"]
        for key in keys:
            bottom = bottoms[key]
            g = {"flat": 9.812, "level": 2.0}.get(key, 1.0)
            length = n * (0.5 if n % 2 else 2.0)
            world = WaterWorld([(1, 0)] * n, bottom, boundary=boundary, left=WLEFT,
                               right=WRIGHT, g=g, length=length, offset=-1.0)
            rhs = right_hand_side(swe.MIXED[name](world, mesh_size=n))
            time_step = 0.0
            if base == "lw":
                time_step = 0.125
                rhs.set_time_step(time_step)
            model = ref_fv.Water(base, g, length / n, boundary,
                                 None if base == "lw" else bottom, WLEFT, WRIGHT,
                                 high=high or None, time_step=time_step)
            if n <= 2 or (n == 3 and key in ("flat", "step", "bump")) or (deep and n <= 3):
                space = states.all_words(letters, n)
            elif n == 3:
                space = states.all_words(letters[:2] + letters[-2:], n)
            elif n == 4:
                space = states.all_words((letters if deep else letters[1:4]), n)
            elif n == 12:
                space = states.patterns(letters if deep else letters[:4], n)
            else:
                space = states.patterns(letters[:3], n)
            for u in space:
                t = 0.25
                model.ill = False
                value, expected = rhs(t, u.copy()), model(t, u)
                rec.state(name, boundary, key, u)
                rec.step()
                if model.ill:
                    rec.outcome(f"not compared {name}")
                    rec.check(np.all(np.isfinite(value)), "not finite", lambda: dict(u=u))
                    continue
                rec.valid()
                scale = 1e-12 * _scale(np.concatenate([u, [WLEFT(t), WRIGHT(t)]]), g) * n / length
                # the velocity of nearly dry cells amplifies roundoff
                if base == "mcl":
                    scale *= 100
                rec.check(
                    np.shape(value) == (n, 2)
                    and np.all(np.abs(value - expected) <= scale * 10),
                    "right hand side differs from the scheme",
                    lambda: dict(u=u, bottom=key, got=value, expected=expected),
                )
        rec.outcome(f"rhs {base} n={n}")


def _scaled(job, rec):
    """Deep and shallow water (Froude numbers as in the other states), nearly constant
    states, long and short domains."""
    name, boundary, deep = job["name"], _boundary(job), job["deep"]
    base, _, high = name.partition("+")
    wet = np.array(states.WET)
    cases = [  # letters, scale of height and discharge, length
        (wet * [1e-3, 1e-3**1.5], 1e-3, 2.0),
        (wet * [1e3, 1e3**1.5], 1e3, 500.0),
        (np.array([1.0, 0.5]) + 1e-7 * (wet - 1), 1.0, 1e-2),
        (np.array([40.0, -3.0]) + 1e-5 * (wet - 1), 40.0, 1e5),
    ]
    for n in [2, 3] + ([4] if deep else []):
        for k, (letters, size, length) in enumerate(cases):
            left, right = (lambda t: letters[1] * (1 + 0.1 * t)), (lambda t: letters[2])
            for key in ["flat", "step", "steep"] if deep else ["flat", "step"]:
                bottom = states.bottoms(n)[key]
                bottom = bottom if bottom is None else [0.1 * size * b for b in bottom]
                g = 9.812
                world = WaterWorld([(1, 0)] * n, bottom, boundary=boundary, left=left, right=right,
                                   g=g, length=length, offset=-1.0)
                rhs = right_hand_side(swe.MIXED[name](world, mesh_size=n))
                time_step = 0.0
                if base == "lw":
                    time_step = 0.125 * length
                    rhs.set_time_step(time_step)
                model = ref_fv.Water(base, g, length / n, boundary, None if base == "lw" else bottom,
                                     left, right, high=high or None, time_step=time_step)
                for u in states.all_words(letters, n):
                    model.ill = False
                    value, expected = rhs(0.5, u.copy()), model(0.5, u)
                    rec.state("scaled", name, boundary, k, key, u)
                    rec.step()
                    if model.ill:
                        rec.outcome(f"not compared {name}")
                        continue
                    rec.valid()
                    speed = np.sqrt(g * size) * 4
                    # antidiffusion is not relative to the speed
                    diffusion = 10 * n / length if base == "antidiffusion" else 0.0
                    bound = 3e-13 * size * np.array([1.0, speed]) * (speed + diffusion) * n / length
                    rec.check(
                        np.shape(value) == (n, 2) and np.all(np.abs(value - expected) <= bound),
                        "right hand side differs from the scheme",
                        lambda: dict(u=u, case=k, bottom=key, got=value, expected=expected, bound=bound),
                    )
    rec.outcome(f"scaled {base}")


def _resteps(job, rec):
    """Words of time steps of one Lax-Wendroff flux: equal, close and very small ones."""
    boundary, n = _boundary(job), 3
    steps = [0.1, 0.1 * (1 + 1e-2), 0.1 * (1 - 1e-5), 0.095, 1e-6, 1.05e-6, 1e-12, 2e-12, 0.0]
    for u in [np.array(states.WET[:3]), np.array([(1.0, 0.0), (2.0, 1.0), (1.5, -0.5)])]:
        h, g = 0.5, 2.0
        world = WaterWorld(u, None, boundary=boundary, left=WLEFT, right=WRIGHT, g=g, length=n * h)
        rhs = swe.FACTORIES["lw"](world, mesh_size=n)
        rhs = right_hand_side(rhs)
        expected = []
        for dt in steps:
            model = ref_fv.Water("lw", g, h, boundary, None, WLEFT, WRIGHT, time_step=dt)
            expected.append(model(0.25, u))
        for word in itertools.product(range(len(steps)), repeat=4 if job["deep"] else 3):
            for i in word:
                rhs.set_time_step(steps[i])
                value = rhs(0.25, u.copy())
                rec.step()
                rec.check(np.all(np.abs(value - expected[i]) <= 1e-13 * _scale(np.concatenate([u, [WLEFT(0.25), WRIGHT(0.25)]]), g) * n),
                          "right hand side of a time step", lambda: dict(u=u, steps=[steps[k] for k in word], got=value, expected=expected[i]))
            rec.state("resteps", boundary, u, word)
            rec.valid()
    rec.outcome("resteps")


def _trace(model, name, u, start, end, dt0, lw):
    """Times and states of the model, None if a height becomes negative."""
    t, v = start, np.array(u, dtype=float)
    times, values = [t], [v]
    rhs = _Guard(model)
    while end - t > 1e-12:
        dt = min(dt0, end - t)
        if lw:
            model.time_step = dt
        v = ref_ode.step(name, rhs, t, v, dt)
        if not rhs.ok:
            return None
        t += dt
        times.append(t)
        values.append(v)
    return times, values


class _Guard:
    def __init__(self, model):
        self.model, self.ok = model, True

    def __call__(self, t, u):
        # heights down to roundoff may have either sign
        if not self.ok or np.any(u[:, 0] < 1e-9):
            dry = np.all((u[:, 0] >= 1e-9) | (u[:, 0] == 0))
            if not dry or not self.ok:
                self.ok = False
                return 0 * u
        return self.model(t, u)


def _compare(rec, solution, trace, end, g, detail, degree=1):
    times, values = trace
    history = np.asarray(solution.value_history)
    expected = np.array(values)
    if degree > 1:
        expected = expected.reshape(len(values), -1, degree, 2).mean(axis=2)
    scale = 1e-10 * max(_scale(v, g) for v in values)
    rec.step(len(history) - 1)
    rec.valid()
    rec.check(
        history.shape == expected.shape
        and np.allclose(solution.time_history, times, rtol=0, atol=1e-11)
        and np.all(np.abs(history - expected) <= scale)
        and np.allclose(solution.value, expected[-1], rtol=0, atol=scale)
        and abs(solution.time - end) < 1e-11,
        "run differs from the scheme",
        lambda: dict(detail, times=times, values=expected,
                     got_times=solution.time_history, got=history),
    )


def _run(job, rec):
    name, boundary, deep = job["name"], _boundary(job), job["deep"]
    base, _, high = name.partition("+")
    letters = _letters(name)[:3] if "es" in name else states.WET[:2] + states.DRY
    if deep:
        letters = letters + [(0.5, -1.0)]
    start, g = 0.5, 2.0
    integrators = {"euler": None} if base == "lw" else INTEGRATORS
    for n in [3] + ([4] if deep else []):
        h = 0.5
        for key in ["flat", "step"]:
            bottom = states.bottoms(n)[key]
            for integrator, ode in integrators.items():
                for cfl, steps in [(0.05, 2.4)] + ([(0.05, 1.95)] if base == "lw" else []) + ([(0.1, 4), (0.05, 2.99)] if deep else []):
                    model = ref_fv.Water(base, g, h, boundary, None if base == "lw" else bottom,
                                         WLEFT, WRIGHT, high=high or None)
                    for u in states.all_words(letters, n):
                        end = start + steps * cfl * h
                        world = WaterWorld(u, bottom, start=start, end_time=end, length=n * h,
                                           boundary=boundary, left=WLEFT, right=WRIGHT, g=g,
                                           offset=-1.0)
                        kwargs = {} if ode is None else dict(ode_solver_type=ode)
                        solver = swe.MIXED[name](world, mesh_size=n, cfl_number=cfl,
                                                     save_history=True, **kwargs)
                        model.ill = False
                        trace = _trace(model, integrator, u, start, end, cfl * h, base == "lw")
                        rec.state("run", name, boundary, integrator, key, cfl, u)
                        if trace is None or model.ill:
                            rec.outcome(f"run not compared {name}")
                            continue
                        solve(solver)
                        _compare(rec, solver.solution, trace, end, g,
                                 dict(u=u, integrator=integrator, bottom=key))
    rec.outcome(f"run {base}")


def _coarse(job, rec):
    key, deep = job["flux"], job["deep"]
    start, g = 0.25, 2.0
    for degree in [1, 2, 3]:
        for n in [2, 3]:
            if n * degree > 6 and not deep:
                continue
            for bottom_key in ["flat", "step"]:
                m = n * degree
                bottom = states.bottoms(m)[bottom_key]
                h = 0.5
                model = ref_fv.Water(key or "llf", g, h, "periodic", bottom)
                space = (
                    states.all_words(states.WET[:2], m)
                    if m <= 4 or deep
                    else states.patterns(states.WET[:3], m)
                )
                for u in space:
                    end = start + 0.05 * h * 3.5
                    world = WaterWorld(u, bottom, start=start, end_time=end, length=m * h, g=g)
                    solver = SW.CoarseSolver(
                        world, mesh_size=m, coarsening_degree=degree, cfl_number=0.05,
                        save_history=True, flux_getter=swe.G[key] if key else None,
                    )
                    trace = _trace(model, "heun", u, start, end, 0.05 * h, False)
                    rec.state("coarse", key, degree, bottom_key, u)
                    if trace is None:
                        rec.outcome("coarse not compared")
                        continue
                    solve(solver)
                    rec.check(len(solver.solution.grid) == n and np.allclose(
                        solver.solution.grid, (np.arange(n) + 0.5) * degree * h, atol=1e-12),
                        "grid of the coarse solution", lambda: dict(grid=solver.solution.grid))
                    _compare(rec, solver.solution, trace, end, g, dict(u=u, degree=degree), degree)
    rec.outcome("coarse")


def _parameters(job, rec):
    """Antidiffusion parameter and defaults."""
    import defaults

    n, h, g = 4, 0.5, 2.0
    u = np.array([(1.0, 0.0), (1.0, 2.0), (0.5, -1.0), (3.0, 0.25)])
    for gamma, n, h, g in itertools.product(
            [None, 0, 0.0, 1e-12, 1e-6, 0.01, 0.05, -0.05, 0.3, 1.0, 1.5, 3, 40.0, -2.0],
            (1, 2, 4), (0.5, 2.0**-10, 64.0), (2.0, 9.81, 0.01)):
        u = np.array([(1.0, 0.0), (1.0, 2.0), (0.5, -1.0), (3.0, 0.25)])[:n]
        for high in [None, "central", "es"]:
            model = ref_fv.Water("antidiffusion", g, h, "periodic", None, high=high,
                                 gamma=defaults.ANTIDIFFUSION_GAMMA if gamma is None else gamma)
            world = WaterWorld(u, end_time=0.02, length=n * h, g=g)
            solver = SW.LinearAntidiffusiveSolver(
                world, mesh_size=n, gamma=gamma, flux_getter=swe.G[high] if high else None)
            value, expected = right_hand_side(solver)(0.0, u.copy()), model(0.0, u)
            rec.state("gamma", gamma, high, n, h, g)
            rec.step()
            rec.valid()
            size = (1.0 + abs(gamma or 0)) * 10 * (1 + g) / h
            rec.check(np.allclose(value, expected, rtol=1e-11, atol=1e-12 * size),
                      "antidiffusion parameter", dict(gamma=gamma, high=high, got=value, expected=expected))
    n, h, g = 4, 0.5, 2.0
    u = np.array([(1.0, 0.0), (1.0, 2.0), (0.5, -1.0), (3.0, 0.25)])
    for name in swe.FACTORIES:
        base, _, high = name.partition("+")
        model = ref_fv.Water(base, g, h, "periodic", None, high=high or None)
        world = WaterWorld(u, end_time=0.07, length=n * h, g=g)
        solver = solve(swe.MIXED[name](world, mesh_size=n, save_history=True))
        trace = _trace(model, "euler" if base == "lw" else "heun", u, 0.0, 0.07,
                       defaults.FINITE_VOLUME_CFL_NUMBER * h, base == "lw")
        rec.state("defaults", name)
        _compare(rec, solver.solution, trace, 0.07, g, dict(name=name, defaults=True))
    rec.outcome("parameters")
