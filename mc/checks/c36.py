"""Physical fluxes, velocities, entropy quantities, wave speeds and Riemann
solvers.  All ordered pairs of states over an alphabet with dry, nearly dry, tiny,
sub-, trans- and supercritical states are given to the real functions for several
gravitational accelerations, as single states, as vectors of one, two and many
entries in several layouts; results are compared with the formulas evaluated
independently, with conservation over the wave fan, and with the other layouts.
Every vector is checked to be left unchanged."""
import importlib
import itertools

import numpy as np

import core
import defaults

scalar = importlib.import_module("finite_volume.scalar.core")
water = importlib.import_module("finite_volume.shallow_water.core")

ASSUMPTIONS = [
    "below the cut-off height the velocity is the documented regularization 2hq/(h^2+eps^2)",
    "relative roundoff tolerance 1e-11",
]
EPS = defaults.EPSILON
HEIGHTS = [0.0, 0.3 * EPS, 1e-12, 1e-6, 0.1, 1.0, 2.5]
HEIGHTS_DEEP = HEIGHTS + [2 * EPS, 1e-3, 0.5, 10.0, 1e3]
VELOCITIES = [-20.0, -3.0, -0.5, 0.0, 1.0, 4.0]
VELOCITIES_DEEP = VELOCITIES + [-1e3, -1e-9, 1e-3, 0.2, 9.0, 50.0]
GRAVITY = [None, 1.0, 9.81]
GRAVITY_DEEP = GRAVITY + [0.25, 100.0]
SCALARS = [-1e3, -7.0, -2.0, -0.5, -1e-9, 0.0, 1e-9, 0.5, 1.0, 3.0, 1e3]
SPEEDS = ["default", "maximum", "one-sided"]


def jobs(tier):
    deep = tier == "thorough"
    result = [dict(kind="scalar", problem=p) for p in ("advection", "burgers")]
    result.append(dict(kind="errors"))
    result.append(dict(kind="helpers", deep=deep))
    for g in GRAVITY_DEEP if deep else GRAVITY:
        result.append(dict(kind="single", g=g, deep=deep))
        for speed in SPEEDS:
            result.append(dict(kind="pairs", g=g, speed=speed, deep=deep))
    return result


def run(job, rec):
    globals()["_" + job["kind"]](job, rec)


def states(deep):
    result = []
    for h in HEIGHTS_DEEP if deep else HEIGHTS:
        for v in VELOCITIES_DEEP if deep else VELOCITIES:
            result.append((h, h * v))
    result.append((0.0, 1.0))  # discharge without water
    result.append((0.0, -1e-3))
    return np.array(sorted(set(result)))


def velocity(h, q, eps=EPS):
    return q / h if h >= eps else 2 * h * q / (h * h + eps * eps)


def flux(h, q, g):
    return (0.0, 0.0) if h < EPS else (q, q * q / h + g * h * h / 2)


def near(a, b, scale=1.0):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and np.all(
        np.abs(a - b) <= 1e-11 * np.maximum(np.maximum(np.abs(a), np.abs(b)), scale * 1e-3)
    )


# ------------------------------------------------------------------ one state
def _single(job, rec):
    g = job["g"]
    G = defaults.GRAVITATIONAL_ACCELERATION if g is None else g
    all_states = states(job["deep"])
    n = len(all_states)
    layouts = [all_states, all_states[::-1].copy(), np.asfortranarray(all_states), all_states[::2], *all_states.reshape(n, 1, 2)]
    # neighbours of every state in vectors of two entries
    layouts += [np.array([a, b]) for a, b in itertools.product(all_states[:: max(1, n // 12)], repeat=2)]
    bottom_letters = [0.0, -1.0, 0.7]
    for vector in layouts:
        saved = vector.copy()
        rec.state("single", g, vector)
        got_flux = water.Flux(g)(vector)
        got_v = water.get_velocity(vector)
        h, q = vector[:, 0], vector[:, 1]
        v = np.array([velocity(*s) for s in vector])
        rec.step(4)
        rec.valid()
        rec.check(near(got_v, v), "velocity", lambda: dict(vector=vector, got=got_v, expected=v))
        expected = np.array([flux(*s, G) for s in vector])
        rec.check(near(got_flux, expected), "flux", lambda: dict(g=g, vector=vector, got=got_flux, expected=expected))
        for b in [None, *bottom_letters]:
            bottom = None if b is None else np.full(len(vector), b)
            got = water.Entropy(g)(vector, bottom)
            wanted = np.array([G * (h + (b or 0.0)) - v * v / 2, v]).T
            rec.check(near(got, wanted), "entropy variables", lambda: dict(g=g, b=b, vector=vector, got=got, expected=wanted))
        got = water.Potential(g)(vector)
        rec.check(near(got, G / 2 * h * h * v), "entropy potential", lambda: dict(g=g, vector=vector, got=got))
        rec.check(np.array_equal(saved, vector), "argument changed", lambda: dict(vector=saved, now=vector))
    flux_function = water.Flux(g)
    for s in all_states:
        rec.step()
        got = flux_function(s)
        rec.check(near(got, np.array(flux(*s, G))), "flux of a single state", lambda: dict(g=g, state=s, got=got))
        rec.check(near(water.get_velocity(s), velocity(*s)), "velocity of a single state", lambda: dict(state=s))
        rec.outcome("dry" if s[0] < EPS else "wet")


def _errors(job, rec):
    for word in itertools.product([-1.0, -1e-12, 0.0, 1.0], repeat=3):
        vector = np.array([[h, 0.5] for h in word])
        rec.state("errors", vector)
        rec.step(2)
        rec.valid()
        for name, call in [("flux", water.Flux(1.0)), ("Riemann", lambda u: water.RiemannSolver(1.0).solve(u, u))]:
            raised = False
            try:
                with np.errstate(all="ignore"):
                    call(vector.copy())
            except ValueError:
                raised = True
            rec.check(raised == (min(word) < 0), f"{name}: negative height and ValueError", dict(word=word, raised=raised))
        rec.outcome("negative" if min(word) < 0 else "valid")
    for h in [-1.0, -1e-12, 0.0, 1.0]:
        raised = False
        try:
            water.Flux(1.0)(np.array([h, 0.5]))
        except ValueError:
            raised = True
        rec.check(raised == (h < 0), "negative height of a single state", dict(h=h))
    for name in ["euler", "", "shallow_water"]:
        for function in (scalar.get_flux, scalar.get_wave_speed, scalar.get_riemann_solver):
            try:
                function(name)
                rec.violate("unknown problem is accepted", dict(name=name))
            except ValueError:
                rec.step()


# ------------------------------------------------------------------- helpers
def _helpers(job, rec):
    all_states = states(job["deep"])
    # nullification of dry states and vanishing discharges
    for eps in [EPS, 1e-3, 0.5]:
        got = water.nullify(all_states, eps)
        wanted = np.array([[h if h > eps else 0.0, q if h > eps and abs(q) > eps else 0.0] for h, q in all_states])
        rec.step()
        rec.valid()
        rec.state("nullify", eps)
        rec.check(np.array_equal(got, wanted), "nullification", lambda: dict(eps=eps, got=got, expected=wanted))
    # averages and columns
    m = len(all_states)
    left = np.repeat(all_states, m, axis=0)
    right = np.tile(all_states, (m, 1))
    rec.check(near(water.get_average(left, right), (left + right) / 2), "average")
    h, q = water.get_height_and_discharge(all_states)
    rec.check(np.array_equal(h, all_states[:, 0]) and np.array_equal(q, all_states[:, 1]), "columns")
    saved = all_states.copy()
    h[:] = -1
    q[:] = -1
    rec.check(np.array_equal(saved, all_states), "height and discharge must be copies")
    for function, column in [(water.get_heights, 0), (water.get_discharges, 1)]:
        a, b, c = function(left, right, all_states)
        rec.step()
        rec.check(
            np.array_equal(a, left[:, column]) and np.array_equal(b, right[:, column]) and np.array_equal(c, all_states[:, column]),
            "columns of several vectors", dict(column=column),
        )
    a, b = water.get_velocities(left, right)
    rec.check(near(a, [velocity(*s) for s in left]) and near(b, [velocity(*s) for s in right]), "velocities")
    # positivity fix: the bottom step divided by two, at most the height of the bar state
    bars = [0.0, 1e-9, 0.2, 1.0, 3.0]
    steps = [-10.0, -1.0, -0.4, -1e-9, 0.0, 1e-9, 0.3, 0.4, 2.0]
    for length in (1, 2):
        for bar in itertools.product(bars, repeat=length):
            for bottom in itertools.product(steps, repeat=length):
                got = water.get_height_positivity_fix(np.array(bar), np.array(bottom))
                wanted = [max(-r, min(r, d / 2)) for r, d in zip(bar, bottom)]
                rec.state("fix", bar, bottom)
                rec.step()
                rec.valid()
                rec.check(near(got, wanted), "positivity fix", lambda: dict(bar=bar, step=bottom, got=got, expected=wanted))
    # constant bottoms
    for n in (1, 2, 3):
        for word in itertools.product([0.0, 1.0, 1.0 + 1e-17, 1.5, -1.0], repeat=n):
            got = bool(water.is_constant(np.array(word)))
            rec.step()
            rec.state("constant", word)
            rec.check(got == (max(word) == min(word)), "is_constant", dict(word=word, got=got))
            rec.outcome(f"constant {got}")


# -------------------------------------------------------------------- pairs
def _speeds(name, G):
    if name == "one-sided":
        return water.WaveSpeed(G)
    if name == "maximum":
        return water.MaximumWaveSpeed(G)
    return None


def _pairs(job, rec):
    g, name = job["g"], job["speed"]
    G = defaults.GRAVITATIONAL_ACCELERATION if g is None else g
    all_states = states(job["deep"])
    m = len(all_states)
    left = np.repeat(all_states, m, axis=0)
    right = np.tile(all_states, (m, 1))
    vl = np.array([velocity(*s) for s in left])
    vr = np.array([velocity(*s) for s in right])
    cl, cr = np.sqrt(G * left[:, 0]), np.sqrt(G * right[:, 0])
    fl = np.array([flux(*s, G) for s in left])
    fr = np.array([flux(*s, G) for s in right])
    if name == "one-sided":
        low = np.minimum(np.minimum(vl - cl, vr - cr), 0.0)
        high = np.maximum(np.maximum(vl + cl, vr + cr), 0.0)
    else:
        high = np.maximum(np.abs(vl) + cl, np.abs(vr) + cr)
        low = -high
    solver = water.RiemannSolver(g, _speeds(name, G))
    layouts = [np.arange(len(left)), np.arange(len(left))[::-1]]
    layouts += [np.array([i]) for i in range(0, len(left), 1 if not job["deep"] else 7)]
    layouts += [np.array([i, (i * 7 + 3) % len(left)]) for i in range(0, len(left), 5)]
    for indices in layouts:
        L, R = left[indices].copy(), right[indices].copy()
        with np.errstate(all="raise", under="ignore"):
            value, middle = solver.solve(L, R)
        a, b = solver.wave_speed_left, solver.wave_speed_right
        rec.state(g, name, indices)
        rec.step()
        rec.valid()
        where = lambda: dict(g=g, speed=name, left=L[:4], right=R[:4], indices=indices[:4])
        rec.check(np.array_equal(L, left[indices]) and np.array_equal(R, right[indices]), "arguments changed", where)
        rec.check(
            near(a, low[indices]) and near(b, high[indices]),
            "wave speeds do not agree with the bounds of the characteristic speeds",
            lambda: dict(where(), got=[a[:4], b[:4]], expected=[low[indices][:4], high[indices][:4]]),
        )
        rec.check(
            near(solver.flux_left, fl[indices]) and near(solver.flux_right, fr[indices]), "physical fluxes of the neighbours", where
        )
        rec.check(np.all(np.isfinite(value)) and np.all(np.isfinite(middle)), "flux or intermediate state is not finite", where)
        sl, sr = low[indices][:, None], high[indices][:, None]
        difference = sr - sl
        # integral conservation relations over the fan
        scale = np.abs(sl) * np.abs(L) + np.abs(sr) * np.abs(R) + np.abs(fl[indices]) + np.abs(fr[indices]) + difference * np.abs(middle) + 1e-30
        defect = difference * middle - (sr * R - sl * L - fr[indices] + fl[indices])
        rec.check(np.all(np.abs(defect) <= 1e-11 * scale), "the intermediate state does not conserve over the wave fan",
                  lambda: dict(where(), middle=middle[:4], defect=defect[:4]))
        rec.check(
            np.all(np.abs(value - (fl[indices] + sl * (middle - L))) <= 1e-11 * scale)
            and np.all(np.abs(value - (fr[indices] + sr * (middle - R))) <= 1e-11 * scale),
            "the flux does not conserve on both sides of the fan",
            lambda: dict(where(), flux=value[:4]),
        )
        still = difference[:, 0] == 0
        rec.check(near(middle[still], ((L + R) / 2)[still]), "intermediate state without waves", where)
        equal = np.all(L == R, axis=1) & ~still
        rec.check(
            np.all(np.abs(middle[equal] - L[equal]) <= 1e-11 * (1 + np.abs(L[equal])) * 10) if np.any(equal) else True,
            "intermediate state of equal states", where,
        )
        # heights of the fan stay nonnegative for speeds bounding the characteristics
        sane = (L[:, 0] >= EPS) & (R[:, 0] >= EPS)
        rec.check(np.all(middle[sane, 0] >= -1e-12 * np.maximum(L[sane, 0], R[sane, 0])), "negative intermediate height",
                  lambda: dict(where(), middle=middle[:4]))
    # single states
    for i in range(0, len(left), 11):
        speeds = water.RiemannSolver(g, _speeds(name, G)).wave_speed(left[i], right[i])
        rec.step()
        rec.check(near(float(speeds[0]), low[i]) and near(float(speeds[1]), high[i]), "wave speed of single states",
                  dict(left=left[i], right=right[i], got=[float(s) for s in speeds]))
    rec.outcome(f"{name} {int(np.sum(low < 0))} {int(np.sum(high > 0))}")


# -------------------------------------------------------------------- scalar
def _scalar(job, rec):
    problem = job["problem"]
    f = (lambda u: u) if problem == "advection" else (lambda u: u * u / 2)
    prime = (lambda u: np.ones_like(u)) if problem == "advection" else np.abs
    values = np.array(SCALARS)
    left, right = (a.ravel() for a in np.meshgrid(values, values, indexing="ij"))
    layouts = [np.arange(len(left)), np.arange(len(left))[::-1]] + [np.array([i]) for i in range(len(left))]
    layouts += [np.array([i, j]) for i, j in itertools.product(range(0, len(left), 5), repeat=2)]
    solver = scalar.get_riemann_solver(problem)
    for indices in layouts:
        L, R = left[indices].copy(), right[indices].copy()
        value, middle = solver.solve(L, R)
        lam = np.maximum(prime(L), prime(R))
        rec.state(problem, indices)
        rec.step()
        rec.valid()
        where = lambda: dict(problem=problem, left=L[:4], right=R[:4], flux=value[:4], middle=middle[:4])
        rec.check(near(scalar.get_flux(problem)(L), f(L)), "flux", where)
        a, b = scalar.get_wave_speed(problem)(L, R)
        rec.check(near(a, -lam) and near(b, lam), "wave speed", where)
        rec.check(near(solver.wave_speed_left, -lam) and near(solver.wave_speed_right, lam), "wave speed of the solver", where)
        rec.check(near(value, (f(L) + f(R)) / 2 - lam / 2 * (R - L), 1e3), "flux over the fan", where)
        safe = np.where(lam > 0, lam, 1.0)
        wanted = np.where(lam > 0, (L + R) / 2 - (f(R) - f(L)) / (2 * safe), (L + R) / 2)
        rec.check(near(middle, wanted, 1e3), "intermediate state", where)
        rec.check(
            np.all(middle <= np.maximum(L, R) + 1e-11 * np.abs(lam) + 1e-11 * (np.abs(L) + np.abs(R)))
            and np.all(middle >= np.minimum(L, R) - 1e-11 * (np.abs(L) + np.abs(R))),
            "intermediate state is not between the neighbours", where,
        )
        rec.check(np.array_equal(L, left[indices]) and np.array_equal(R, right[indices]), "arguments changed", where)
    # any flux and speed
    for speed in [0.0, 0.5, 2.0]:
        generic = core.RiemannSolver(lambda u: 3 * u, lambda a, b: (np.full(a.shape, -speed), np.full(a.shape, 2 * speed)))
        value, middle = generic.solve(left, right)
        rec.step()
        wanted = (left + right) / 2 if speed == 0 else (2 * speed * right + speed * left - 3 * (right - left)) / (3 * speed)
        rec.check(near(middle, wanted, 1e3) and near(value, 3 * left - speed * (wanted - left), 1e3), "solver with general speeds", dict(speed=speed))
    rec.outcome(problem)
