"""Non-negative water heights of llf, low-order and mcl.  From every state of a bounded
space (all words over an alphabet of wet, fast, nearly dry and dry cells, structured
states, bottoms, boundaries) all chains of forward Euler steps up to a depth, each of
the largest admissible step or a third of it, are executed with the real right hand
side; each new height must be non-negative and between the bounds given by the old
height and the low order bar states of both interfaces, everything must stay finite.
Complete real runs with all integrators from all small initial words with dry cells
are monitored, too.  Meshes of hundreds of cells with one critical cell at every
position of a sample are included."""
import numpy as np

from .. import ref_fv, states, swe
from ..worlds import INTEGRATORS, WaterWorld, ode_solver, Reused as right_hand_side, solve

NAMES = ["llf", "low-order", "mcl", "mcl+central", "mcl+es", "mcl+es1", "mcl+llf", "mcl+low-order"]
WLEFT = lambda t: np.array([1.0 + t, 0.3])
WRIGHT = lambda t: np.array([2.0, -0.5 - t])
BOUNDARIES = [
    "periodic",
    ("outflow", "outflow"),
    ("wall", "wall"),
    ("inflow", "wall"),
    ("outflow", "inflow"),
]
ALPHABET = [(1.0, 0.0), (0.0, 0.0), (0.5, -1.0), (1.0, 2.0), (1e-3, 2e-3), (0.1, 1.0),
            (3.0, 0.25), (1e-9, 0.0)]
BOTTOMS = ["flat", "step", "steep", "bump", "pit", "tiny", "gentle"]
ASSUMPTIONS = [
    "heights are non-negative up to roundoff (relative 1e-13); negative roundoff is "
    "replaced by zero before the chain of steps is continued",
]


def jobs(tier):
    deep = tier == "thorough"
    result = []
    for name in NAMES:
        for boundary in BOUNDARIES:
            for bottom in BOTTOMS:
                if name == "llf" and bottom != "flat":
                    continue
                result.append(dict(kind="step", name=name, boundary=boundary, bottom=bottom,
                                   deep=deep))
            result.append(dict(kind="run", name=name, boundary=boundary, deep=deep))
    return result


def run(job, rec):
    globals()["_" + job["kind"]](job, rec)


def _boundary(job):
    b = job["boundary"]
    return b if isinstance(b, str) else tuple(b)


def _world(job, n, bottom, g, h, **kwargs):
    return WaterWorld(kwargs.pop("values", [(1, 0)] * n), bottom, boundary=_boundary(job),
                      left=WLEFT, right=WRIGHT, g=g, length=n * h, offset=-1.0, **kwargs)


def _step(job, rec):
    name, boundary, deep = job["name"], _boundary(job), job["deep"]
    for n in [1, 2, 3, 4, 9] + ([5, 30] if deep else []):
        bottom = states.bottoms(n)[job["bottom"]]
        g, h = (9.812, 0.5) if n % 2 else (1.0, 2.0)
        rhs = right_hand_side(swe.MIXED[name](_world(job, n, bottom, g, h), mesh_size=n))
        model = ref_fv.Water("low-order", g, h, boundary, bottom, WLEFT, WRIGHT)
        depth = 3 if n <= 3 and "+" not in name else 2
        if n <= 2:
            space = states.all_words(ALPHABET, n)
        elif n == 3:
            space = states.all_words(ALPHABET if deep else ALPHABET[:5], n)
        elif n == 4:
            space = states.all_words(ALPHABET[:6] if deep else ALPHABET[:2] if "+" in name else ALPHABET[:3], n)
        elif n == 5:
            space = states.all_words(ALPHABET[:4], n)
        else:
            space = states.patterns(ALPHABET if deep else ALPHABET[:4], n)
        if deep:
            depth += 1
        for u in space:
            _explore(rec, name, rhs, model, u, 0.25, depth, [])
    for n in [2, 120] + ([3, 400] if deep else []):
        bottom = states.bottoms(n)[job["bottom"]]
        g, h = (9.812, 0.5) if n % 2 else (1.0, 2.0)
        rhs = right_hand_side(swe.MIXED[name](_world(job, n, bottom, g, h), mesh_size=n))
        model = ref_fv.Water("low-order", g, h, boundary, bottom, WLEFT, WRIGHT)
        for u in scaled(n, deep):
            _explore(rec, name, rhs, model, u, 0.25, 2 if n < 5 else 1, [])


def scaled(n, deep):
    """Thin layers and nearly constant states, and long states."""
    if n > 10:
        yield from states.patterns(ALPHABET[:5] if deep else ALPHABET[:2], n)
        letters = ALPHABET[:2] if not deep else ALPHABET[1:4]
        yield from (2.0**-12 * u for u in states.patterns(letters, n))
        return
    for u in states.all_words(ALPHABET[:5], n):
        for scale in (-10, -20, -30):
            yield 2.0**scale * u
            # the same Froude numbers
            yield u * np.array([2.0**scale, 2.0 ** (1.5 * scale)])
        yield np.array([1.0, 0.5]) + 2.0**-14 * u
        yield np.array([2.0**-7, 0.0]) + 2.0**-20 * u


def _explore(rec, name, rhs, model, u, t, depth, path):
    e = ref_fv.extend(u, model.boundary, t, WLEFT, WRIGHT)
    speed = np.max(np.abs(ref_fv.velocity(e)) + np.sqrt(model.g * e[:, 0]))
    dt = model.h / (2 * speed) if speed > 0 else 1.0
    rate = rhs(t, u.copy())
    _, _, _, _, _, _, hl, hr, _, _ = model._bar(e)
    interfaces = np.array([u[:, 0], hr[:-1], hl[1:]])
    top, bottom = interfaces.max(axis=0), interfaces.min(axis=0)
    eps = 1e-13 * (np.max(e[:, 0]) + np.ptp(model.bottom_extended(len(u))))
    rec.state(name, model.boundary, model.bottom, model.g, u, t)
    for fraction in [1.0, 1 / 3]:
        new = u + fraction * dt * rate
        rec.step()
        rec.valid()
        ok = rec.check(
            np.all(np.isfinite(new)) and np.all(new[:, 0] >= -eps),
            "height is negative or not finite after an admissible step",
            lambda: dict(u=u, new=new, dt=dt, t=t, path=path, bottom=model.bottom),
        )
        ok = ok and rec.check(
            np.all(new[:, 0] <= top + eps) and np.all(new[:, 0] >= bottom - eps),
            "height leaves the bounds of the bar states",
            lambda: dict(u=u, new=new, top=top, bottom=bottom, dt=dt, t=t, path=path),
        )
        rec.outcome(f"{name} dry={bool(np.any(new[:, 0] <= 1e-12))} depth={len(path)}")
        if depth > 1 and ok:
            new[:, 0] = np.maximum(new[:, 0], 0.0)
            new[new[:, 0] < 1e-14] = 0.0
            _explore(rec, name, rhs, model, new, t + fraction * dt, depth - 1,
                     path + [fraction])


def _run(job, rec):
    name, boundary, deep = job["name"], _boundary(job), job["deep"]
    g, h, cfl = 1.0, 0.5, 0.05
    letters = [(1.0, 0.0), (0.0, 0.0), (0.5, -1.0)] + ([(1.0, 1.5)] if deep else [])
    for n in [3, 4] if deep else [3]:
        keys = ["flat"] if name == "llf" else ["flat", "step", "pit"] if deep else ["flat", "pit"]
        for key in keys:
            bottom = states.bottoms(n)[key]
            for integrator, ode in INTEGRATORS.items():
                for u in states.all_words(letters, n):
                    world = _world(job, n, bottom, g, h, values=u, end_time=5 * cfl * h)
                    solver = swe.MIXED[name](world, mesh_size=n, cfl_number=cfl,
                                                 save_history=True, ode_solver_type=ode)
                    error = None
                    try:
                        solve(solver)
                    except ValueError as e:
                        error = str(e)
                    history = np.asarray(solver.solution.value_history)
                    times = solver.solution.time_history
                    rec.state("run", name, boundary, key, integrator, u)
                    rec.step(len(history) - 1)
                    rec.valid()
                    rec.outcome(f"run {name} error={error}")
                    rhs = right_hand_side(solver)
                    for k, (t, v) in enumerate(zip(times, history)):
                        rec.check(
                            np.all(np.isfinite(v)), "state is not finite",
                            lambda: dict(u=u, v=v, integrator=integrator))
                        if not _admissible(rhs, boundary, integrator, t, v, cfl * h, g, h):
                            rec.outcome("run violates the restriction")
                            break
                        last = k == len(history) - 1
                        rec.check(
                            (not last or error is None)
                            and (last or np.all(history[k + 1][:, 0] >= -1e-14)),
                            "height is negative during a run",
                            lambda: dict(u=u, v=v, integrator=integrator, bottom=key,
                                         error=error, next=None if last else history[k + 1]),
                        )


def _admissible(rhs, boundary, integrator, t, v, dt, g, h):
    """All stages of the step satisfy the restriction with some reserve."""

    def ok(t, v):
        e = ref_fv.extend(v, boundary, t, WLEFT, WRIGHT)
        speed = np.max(np.abs(ref_fv.velocity(e)) + np.sqrt(g * np.abs(e[:, 0])))
        return np.all(v[:, 0] >= 0) and dt * speed <= 0.4 * h

    if not ok(t, v):
        return False
    if integrator == "euler":
        return True
    u1 = v + dt * rhs(t, v.copy())
    if not ok(t + dt, u1):
        # an admissible first stage with a negative height is a violation
        return np.any(u1[:, 0] < 0)
    if integrator == "heun":
        return True
    u2 = 0.75 * v + 0.25 * (u1 + dt * rhs(t + dt, u1.copy()))
    return ok(t + dt / 2, u2) or np.any(u2[:, 0] < 0)
