"""Every benchmark of the three problems is evaluated on grids of points and times
(dyadic, so that characteristics are traced without roundoff) and for grids of its
parameters.  The values are compared with what makes it a solution: initial data
at the start time, periodicity, constancy along characteristics (advection, the
implicit relation of Burgers before and the documented error after the shock),
Bernoulli's relation and constant discharge of steady states, and for the dam break
Riemann invariant, characteristics of the fan, continuity, Rankine-Hugoniot and Lax
conditions and conservation of mass and momentum.  Declared parameters must appear
in the data, all heights must be positive."""
import itertools

import numpy as np

import benchmark.advection as advection
import benchmark.burgers as burgers
import benchmark.shallow_water as water
from core.benchmark import Benchmark

ASSUMPTIONS = [
    "the random benchmark is decided by C26",
    "Burgers' exact solution is compared up to the accuracy 1e-6 of the root finder",
]
N = 64


def jobs(tier):
    deep = tier == "thorough"
    result = [dict(kind="advection", name=name, deep=deep) for name in sorted(advection.BENCHMARKS)]
    result += [dict(kind="burgers", name=name, deep=deep) for name in sorted(burgers.BENCHMARKS)]
    result += [dict(kind="common", problem=p) for p in ("advection", "burgers", "water")]
    result += [dict(kind="lakes"), dict(kind="plain"), dict(kind="moving", deep=deep)]
    heights = [0.5, 1.0, 2.0] + ([0.01, 5.0, 100.0] if deep else [])
    for h in heights:
        result.append(dict(kind="dam", h=h, deep=deep))
    for a in [0.0, 0.2, 0.45] + ([-0.3, 1.0] if deep else []):
        for v in [0.0, 0.5] + ([-1.0, 2.0] if deep else []):
            result.append(dict(kind="oscillation", a=a, v=v, deep=deep))
    return result


def run(job, rec):
    globals()["_" + job["kind"]](job, rec)


def points(domain, n=N):
    return [domain.a + domain.length * i / n for i in range(n + 1)]


# -------------------------------------------------------------------- scalar
def _advection(job, rec):
    cls = advection.BENCHMARKS[job["name"]]
    n = N * (4 if job["deep"] else 1)
    for end_time in [1.0, 0.25, 3.5]:
        b = cls(end_time)
        assert b.domain.a == 0 and b.domain.b == 1
        for i in range(n):
            x = i / n
            value = b.initial_data(x)
            rec.check(np.isfinite(value), "initial value", dict(x=x))
            rec.check(b.exact_solution(x, 0.0) == value, "exact solution at the start", dict(name=job["name"], x=x))
            for m in (0, 1, 3, 16, n // 2, n - 1, n, n + 5, 3 * n + 7):
                t = m / n
                rec.state(job["name"], end_time, i, m)
                rec.step()
                rec.valid()
                for shift in (0, 1):  # along the characteristic, in the periodic image, too
                    got = b.exact_solution((x + t) % 1 + shift, t)
                    rec.check(got == value, "the solution is not constant along x-t",
                              dict(name=job["name"], x=x, t=t, got=got, expected=value))
            rec.check(b.exact_solution_at_end_time(x) == b.exact_solution(x, end_time), "solution at end time", dict(x=x))
        rec.check(b.initial_data(0.0) == b.initial_data(1.0) or abs(b.initial_data(0.0) - b.initial_data(1.0)) < 1e-10,
                  "initial data are not periodic", job["name"])
        rec.outcome(len({b.exact_solution(i / n, 0.5) for i in range(n)}))


def _burgers(job, rec):
    cls = burgers.BENCHMARKS[job["name"]]
    critical = {"shock": 1 / (2 * np.pi), "smooth": 1.0}[job["name"]]
    parts = [0.0, 0.1, 0.3, 0.5, 0.75] + ([0.2, 0.9] if job["deep"] else [])
    n = N * (4 if job["deep"] else 1)
    for end in parts[1:]:
        b = cls(end * critical)
        # the critical time is the first one with intersecting characteristics
        xs = np.array(points(b.domain, 4 * n))
        slope = min(b.initial_data_derivaitive(x) for x in xs)
        rec.check(abs(-1 / slope - critical) <= 1e-2 * critical, "time of shock formation", dict(slope=slope))
        for x in points(b.domain, n):
            d = 1e-6
            numeric = (b.initial_data(x + d) - b.initial_data(x - d)) / (2 * d)
            rec.check(abs(numeric - b.initial_data_derivaitive(x)) < 1e-6, "derivative", dict(x=x))
            rec.check(abs(b.initial_data(x) - b.initial_data(x + b.domain.length)) < 1e-12, "periodic", dict(x=x))
            for part in parts:
                if part > end:
                    continue
                t = part * critical
                foot = x
                u = b.initial_data(foot)
                rec.state(job["name"], end, x, t)
                rec.step(2)
                rec.valid()
                got = b.exact_solution(x, t)
                rec.check(abs(got - b.initial_data(x - got * t)) < 1e-6, "u = u0(x-ut)", dict(name=job["name"], x=x, t=t, u=got))
                along = b.exact_solution(foot + u * t, t)
                rec.check(abs(along - u) < 1e-6, "not constant along characteristics",
                          dict(name=job["name"], x=foot, t=t, got=along, expected=u))
            rec.check(abs(b.exact_solution_at_end_time(x) - b.exact_solution(x, b.end_time)) < 1e-12, "at end time", dict(x=x))
        rec.outcome(f"smooth {end}")
    for end in [1.01, 2.0, 10.0]:
        b = cls(end * critical)
        for x in (0.1, 0.7):
            for t in (0.0, 0.5 * critical, end * critical):
                rec.step()
                try:
                    b.exact_solution(x, t)
                    rec.violate("exact solution although the end time is after shock formation", dict(end=end, t=t))
                except AttributeError:
                    rec.outcome("after shock")


# -------------------------------------------------------------------- common
def _common(job, rec):
    module = dict(advection=advection, burgers=burgers, water=water)[job["problem"]]
    names = {"advection": "advection", "burgers": "burgers", "water": "shallow_water"}
    for name, cls in sorted(module.BENCHMARKS.items()):
        seed = (3,) if name == "random" else ()
        first = cls(*seed)
        for end in [0.0, 0.125, 7, first.end_time]:
            b = cls(*seed, end_time=end)
            rec.state(name, end)
            rec.step()
            rec.valid()
            rec.check(isinstance(b, Benchmark) and b.problem == names[job["problem"]], "problem", name)
            rec.check(b.end_time == end and b.start_time == 0.0, "times", dict(name=name, end=end, got=b.end_time))
            rec.check(b.domain.a < b.domain.b and b.domain.length == b.domain.b - b.domain.a, "domain", name)
            data = b.as_dict()
            rec.check(
                data["name"] == type(b).__name__ == repr(b) and data["end_time"] == end
                and data["start_time"] == 0.0 and data["domain"] == b.domain,
                "dictionary", dict(name=name, data=data),
            )
            conditions = b.boundary_conditions
            rec.check(
                conditions == ("periodic",)
                or (len(conditions) == 2 and set(conditions) <= {"outflow", "inflow", "wall"}),
                "boundary conditions", dict(name=name, got=conditions),
            )
            for side, function in enumerate([b.inflow_left, b.inflow_right]):
                wanted = len(conditions) == 2 and conditions[side] == "inflow"
                try:
                    value = function(0.5)
                    rec.check(wanted and np.all(np.isfinite(value)), "inflow of a benchmark without inflow", name)
                except AttributeError:
                    rec.check(not wanted, "inflow is not defined", dict(name=name, side=side))
            if job["problem"] == "water":
                rec.check(b.gravitational_acceleration > 0, "gravity", name)
                xs = points(b.domain)
                heights = [b.initial_data(x)[0] for x in xs]
                rec.check(min(heights) > 0, "heights are not positive", dict(name=name, height=min(heights)))
                ends = [np.array([*b.initial_data(x), b.bathymetry(x)], dtype=float) for x in (b.domain.a, b.domain.b)]
                if conditions == ("periodic",):
                    rec.check(np.allclose(*ends, atol=1e-9), "initial data are not periodic", dict(name=name, ends=ends))
            try:
                value = b.exact_solution(xs[3] if job["problem"] == "water" else 0.3, 0.0)
                initial = b.initial_data(xs[3] if job["problem"] == "water" else 0.3)
                rec.check(np.allclose(value, initial, atol=1e-9), "exact solution at the start", name)
                rec.outcome("exact")
            except AttributeError:
                rec.outcome("no exact solution")
    for name, cls in module.BENCHMARK_DEFAULTS.items():
        rec.check(cls in module.BENCHMARKS.values() and issubclass(cls, Benchmark), "default benchmark", name)


# ------------------------------------------------------------- shallow water
def _steady(rec, b, name, k):
    for x in points(b.domain):
        initial = b.initial_data(x)
        for t in [0.0, 0.1, 1.0, b.end_time]:
            rec.state(name, k, x, t)
            rec.step()
            rec.valid()
            rec.check(np.array_equal(b.exact_solution(x, t), initial), "not steady", dict(name=name, x=x, t=t))
        rec.check(np.array_equal(b.exact_solution_at_end_time(x), initial), "not steady at end", dict(name=name))


def _lakes(job, rec):
    cases = [(water.LakeAtRestNoBathymetryBenchmark, 1.0), (water.LakeAtRestBenchmark, 2.0)]
    for cls, level in cases:
        for end in [0.5, 100.0]:
            b = cls(end)
            for x in points(b.domain, 4 * N):
                h, q = b.initial_data(x)
                rec.step()
                rec.state(cls.__name__, x)
                rec.check(abs(h + b.bathymetry(x) - level) < 1e-12 and q == 0, "not a lake at rest", dict(x=x, h=h, q=q))
            _steady(rec, b, cls.__name__, end)
            rec.outcome(cls.__name__)
    b = water.PerturbatedLakeAtRestBenchmark()
    for x in points(b.domain, 80 * 4):
        h, q = b.initial_data(x)
        inside = 5.75 <= x < 6.25
        rec.step()
        rec.state("perturbed", x)
        rec.check(abs(h + b.bathymetry(x) - (1.01 if inside else 1.0)) < 1e-12 and q == 0, "perturbed lake", dict(x=x, h=h))
    for x in points(b.domain):
        for bump in (water.LakeAtRestBenchmark(), b):
            wanted = max(0.0, (4 - (x - 10) ** 2) / 20)
            rec.check(abs(bump.bathymetry(x) - wanted) < 1e-12, "bump", dict(x=x, got=bump.bathymetry(x)))


def _plain(job, rec):
    b = water.MovingWaterNoBathymetryBenchmark(3.0)
    rec.check(np.array_equal(b.initial_data(0.3), [2, 1]) and b.bathymetry(0.3) == 0, "moving water")
    _steady(rec, b, "moving", 0)
    for cls in (water.CylindricalDammBreakWithOutflowBenchmark, water.CylindricalDammBreakWithReflectingBoundaryBenchmark):
        b = cls()
        rec.check(b.gravitational_acceleration == 1.0, "gravity of the cylindrical dam break")
        for x in points(b.domain):
            wanted = [2.0, 0.0] if -0.5 <= x <= 0.5 else [1.0, 0.0]
            rec.step()
            rec.state(cls.__name__, x)
            rec.valid()
            rec.check(np.array_equal(b.initial_data(x), wanted) and b.bathymetry(x) == 0, "cylindrical dam break", dict(x=x))
        rec.outcome(cls.__name__)
    rec.check(water.CylindricalDammBreakWithOutflowBenchmark().boundary_conditions == ("outflow", "outflow"), "outflow")
    rec.check(water.CylindricalDammBreakWithReflectingBoundaryBenchmark().boundary_conditions == ("wall", "wall"), "wall")
    b = water.SinusInflowBenchmark()
    for t in np.linspace(0, 20, 101):
        value = b.inflow_left(t)
        rec.step()
        rec.check(abs(value[0] - 2 - 0.2 * np.sin(t)) < 1e-12 and value[1] == 0, "inflow", dict(t=t, got=value))
    rec.check(all(np.array_equal(b.initial_data(x), [2.0, 0.0]) for x in points(b.domain)), "initial data of the inflow")


def _moving(job, rec):
    for K1 in [1.0, 0.0, -2.0, 3.0] + ([0.25, 5.0] if job["deep"] else []):
        for K2 in [25.0, 30.0, 60.0] + ([22.0, 100.0] if job["deep"] else []):
            b = water.MovingWaterBumpBathymetryBenchmark(K1=K1, K2=K2)
            g = b.gravitational_acceleration
            if K2 < 1.2 * (1.5 * (g * abs(K1)) ** (2 / 3) + 0.5 * g):
                continue  # there is no smooth flow over the bump
            rec.check(b.K1 == K1 and b.K2 == K2, "parameters")
            tops = []
            for x in points(b.domain, 4 * N):
                h, q = b.initial_data(x)
                bottom = b.bathymetry(x)
                tops.append(bottom)
                rec.state("moving", K1, K2, x)
                rec.step()
                rec.valid()
                rec.check(
                    h > 0 and q == K1 and abs((q / h) ** 2 / 2 + g * (h + bottom) - K2) < 1e-6 * K2,
                    "Bernoulli's relation", dict(K1=K1, K2=K2, x=x, h=h, q=q, b=bottom),
                )
                wanted = (np.cos(10 * np.pi * (x + 1)) + 1) / 4 if abs(x) <= 0.1 else 0.0
                rec.check(abs(bottom - wanted) < 1e-12, "bottom", dict(x=x, got=bottom))
            if K1 == 1.0:
                _steady(rec, b, "moving bump", (K1, K2))
            rec.outcome(f"{K1} {max(tops):.2f}")


def _oscillation(job, rec):
    deep = job["deep"]
    names = [
        "height_average", "height_amplitude", "height_phase_shift", "height_wave_number",
        "velocity_average", "velocity_amplitude", "velocity_phase_shift", "velocity_wave_number",
    ]
    grid = itertools.product(
        [2.0, 3.5], [job["a"]], [0.0, 1.3], [1, 4] + ([0] if deep else []),
        [1.0, 0.0, -1.5] if deep else [1.0, 0.0], [job["v"]], [0.0, 2.5], [1, 3] + ([0] if deep else []),
    )
    for parameters in grid:
        given = dict(zip(names, parameters))
        b = water.OscillationNoTopographyBenchmark(7.0, **given)
        for x in points(b.domain, 16):
            phase = 2 * np.pi * x / 100.0
            h = given["height_average"] + given["height_amplitude"] * np.sin(given["height_wave_number"] * phase + given["height_phase_shift"])
            v = given["velocity_average"] + given["velocity_amplitude"] * np.sin(given["velocity_wave_number"] * phase + given["velocity_phase_shift"])
            got = b.initial_data(x)
            rec.step()
            rec.check(np.allclose(got, [h, h * v], atol=1e-11) and b.bathymetry(x) == 0, "oscillation",
                      lambda: dict(given, x=x, got=got, expected=[h, h * v]))
        rec.state(parameters)
        rec.valid()
        data = b.as_dict()
        short = dict(zip(["h0", "Ah", "ph", "kh", "v0", "Av", "pv", "kv"], parameters))
        rec.check(all(data[k] == v for k, v in short.items()), "dictionary", dict(given=given, data=data))
    # defaults for parameters which are not given, all subsets
    defaults = dict(zip(names, [2.0, 0.2, 0.0, 3, 1.0, 0.5, np.pi / 2, 1]))
    for size in range(len(names) + 1):
        for subset in itertools.combinations(names, size):
            given = {name: 0.0 if name != "height_average" else 4.0 for name in subset}
            b = water.OscillationNoTopographyBenchmark(**given)
            rec.step()
            rec.state("subset", subset)
            for name in names:
                rec.check(getattr(b, name) == given.get(name, defaults[name]), "parameter", dict(given=given, name=name, got=getattr(b, name)))
    rec.outcome(f"{job['a']} {job['v']}")


# ----------------------------------------------------------------- dam break
def _dam(job, rec):
    deep, left = job["deep"], job["h"]
    ratios = [0.01, 0.1, 0.5, 0.9] + ([0.001, 0.3, 0.7, 0.99] if deep else [])
    for ratio, x0, L, g in itertools.product(ratios, [0.5, 0.25], [1.0, 4.0], [1.0, 9.81]):
        right = ratio * left
        b = water.DammBreakBenchmark(h_left=left, h_right=right, x_dam=x0 * L, L=L, g=g)
        where = dict(h_left=left, h_right=right, x_dam=x0 * L, L=L, g=g)
        c = np.sqrt(g * left)
        rec.check(b.gravitational_acceleration == g and b.domain.a == 0 and b.domain.b == L and b.x_dam == x0 * L, "parameters", where)
        dam = x0 * L
        fast = 2 * c + 2 * np.sqrt(g * right)
        for t in [0.0, 0.1 * L / fast, 0.2 * L / fast]:
            n = 400
            xs = np.array(points(b.domain, n))
            u = np.array([b.exact_solution(x, t) for x in xs])
            rec.state(sorted(where.items()), t)
            rec.step(n)
            rec.valid()
            at = dict(where, t=t)
            h, q = u[:, 0], u[:, 1]
            rec.check(np.all(h > 0) and np.all(h <= left * (1 + 1e-12)) and np.all(h >= right * (1 - 1e-12)), "heights", at)
            if t == 0:
                initial = np.array([b.initial_data(x) for x in xs])
                wanted = np.array([[left if x <= dam else right, 0.0] for x in xs])
                rec.check(np.array_equal(u, initial) and np.array_equal(initial, wanted), "initial data", at)
                continue
            v = q / h
            speed = np.sqrt(g * h)
            # right of the shock nothing has happened, left of it the invariant holds
            shocked = np.nonzero((h == right) & (q == 0))[0]
            rec.check(len(shocked) and np.array_equal(shocked, np.arange(shocked[0], n + 1)), "no undisturbed water on the right", at)
            behind = slice(0, shocked[0])
            rec.check(np.all(np.abs(v + 2 * speed - 2 * c)[behind] < 1e-7 * c), "u+2c is not constant left of the shock", at)
            rec.check(np.all(np.diff(h[behind]) <= 1e-9 * left), "height is not monotone", at)
            # characteristics of the fan start at the dam
            flat = h[shocked[0] - 1]
            fan = [i for i in range(shocked[0]) if h[i] < left * (1 - 1e-9) and h[i] > flat * (1 + 1e-9)]
            for i in fan:
                rec.check(abs(xs[i] - dam - t * (v[i] - speed[i])) < 1e-7 * L, "fan", dict(at, x=xs[i]))
            undisturbed = [i for i in range(shocked[0]) if h[i] == left and q[i] == 0]
            rec.check(undisturbed and xs[undisturbed[-1]] <= dam - c * t + 1e-9 and xs[undisturbed[-1] + 1] >= dam - c * t - 1e-9,
                      "head of the rarefaction", at)
            rec.check(len(fan) > 0 or ratio > 0.85, "no rarefaction", at)
            # Rankine-Hugoniot and Lax conditions
            hm, um = flat, v[shocked[0] - 1]
            s = hm * um / (hm - right)
            scale = g * left**2
            defect = hm * um**2 + g * hm**2 / 2 - g * right**2 / 2 - s * hm * um
            rec.check(abs(defect) < 1e-7 * scale, "Rankine-Hugoniot", dict(at, defect=defect))
            rec.check(um + np.sqrt(g * hm) > s > np.sqrt(g * right) and um - np.sqrt(g * hm) < s, "Lax condition", at)
            front = dam + s * t
            rec.check(xs[shocked[0] - 1] <= front + 1e-9 and xs[shocked[0]] >= front - 1e-9, "place of the shock", dict(at, front=front))
            for d in (1e-9, 1e-6):
                a_, b_ = b.exact_solution(front - d * L, t), b.exact_solution(front + d * L, t)
                rec.check(np.allclose(a_, [hm, hm * um], rtol=1e-6) and np.array_equal(b_, [right, 0.0]), "jump", at)
            # continuity at both ends of the fan
            for x in (dam - c * t, dam + t * (um - np.sqrt(g * hm))):
                a_, b_ = b.exact_solution(x - 1e-9 * L, t), b.exact_solution(x + 1e-9 * L, t)
                rec.check(np.allclose(a_, b_, rtol=1e-5, atol=1e-6 * left), "the fan is not continuous", dict(at, x=x, left=a_, right=b_))
            # conservation, fan integrated by Gauss quadrature which is exact for its polynomials
            pieces = [0.0, dam - c * t, dam + t * (um - np.sqrt(g * hm)), front, L]
            nodes, weights = np.polynomial.legendre.leggauss(5)
            total = np.zeros(2)
            for a_, b_ in zip(pieces, pieces[1:]):
                for node, weight in zip(nodes, weights):
                    total += weight * (b_ - a_) / 2 * b.exact_solution((a_ + b_) / 2 + node * (b_ - a_) / 2, t)
            rec.check(abs(total[0] - left * dam - right * (L - dam)) < 1e-7 * left * L, "mass", dict(at, total=total))
            rec.check(abs(total[1] - t * g / 2 * (left**2 - right**2)) < 1e-6 * left * c * L, "momentum", dict(at, total=total))
            end = water.DammBreakBenchmark(t, left, right, dam, L, g)
            rec.check(np.array_equal([end.exact_solution_at_end_time(x) for x in xs[::10]], u[::10]), "solution at end time", at)
        rec.outcome(f"{ratio}")
    for right in [left, 1.5 * left]:
        try:
            water.DammBreakBenchmark(h_left=left, h_right=right)
            rec.violate("dam break with higher water on the right", dict(left=left, right=right))
        except AssertionError:
            rec.step()
