"""Interpolation, averaging and coarsening: all small meshes, polynomials, time grids,
new times and vectors over alphabets, compared with exact means, linear interpolation
and block averages; the initial values of all solvers.  Functions with equal values
or zeros at the ends and the center of every cell are part of the alphabet."""
import itertools

import numpy as np
from numpy.polynomial import Polynomial

import core
import finite_volume
import finite_volume.shallow_water.solver as SW
import finite_volume.scalar.solver as SS
from benchmark import advection, burgers, shallow_water

from .. import fe, states, swe
from ..worlds import ScalarWorld, WaterWorld

ASSUMPTIONS = ["roundoff 1e-12"]
INTERVALS = [(0, 1), (-1, 3), (0.5, 0.75), (-2 * np.pi, 1)]


def jobs(tier):
    deep = tier == "thorough"
    result = [dict(kind="averages", interval=i, deep=deep) for i in range(len(INTERVALS))]
    result += [dict(kind="shapes", interval=i, deep=deep) for i in range(len(INTERVALS))]
    result += [dict(kind="nodes"), dict(kind="initial", deep=deep), dict(kind="spatial"), dict(kind="magnitudes")]
    result += [dict(kind="coarsen", degree=d, deep=deep) for d in [*range(1, 9), 10, 16, 17, 20, 32, 64, 100]]
    result += [dict(kind="temporal", size=k, deep=deep) for k in range(1, 5 if not deep else 6)]
    return result


def run(job, rec):
    globals()["_" + job["kind"]](job, rec)


def _close(a, b, eps=1e-12):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and np.all(np.abs(a - b) <= eps * (1 + np.abs(b)))


def _averages(job, rec):
    a, b = INTERVALS[job["interval"]]
    polynomials = [Polynomial(c) for c in itertools.product([0.0, 1.0, -2.0], repeat=4)]
    polynomials += [Polynomial([0.0] * k + [1.0, 0.5]) for k in range(4, 9)]
    for n in [1, 2, 3, 7] + ([16, 33] if job["deep"] else []):
        mesh = core.UniformMesh(core.Interval(a, b), n)
        nodes = a + (b - a) * np.arange(n + 1) / n
        means = []
        for p in polynomials:
            F = p.integ()
            means.append((F(nodes[1:]) - F(nodes[:-1])) / np.diff(nodes))
        for q in range(1, 6):
            interpolator = core.CellAverageInterpolator(mesh, q)
            exact = [i for i, p in enumerate(polynomials) if p.trim().degree() <= 2 * q - 1]
            for i in exact:
                p = polynomials[i]
                rec.state(job["interval"], n, q, i)
                rec.step()
                rec.valid()
                got = interpolator.interpolate(lambda x: float(p(x)))
                rec.check(_close(got, means[i], 1e-11 * (1 + max(abs(a), abs(b))) ** 9),
                          "cell averages", lambda: dict(n=n, q=q, p=p.coef, got=got,
                                                        expected=means[i]))
            for i, j in zip(exact, exact[::-1]):
                f = lambda x: np.array([polynomials[i](x), polynomials[j](x)])
                got = interpolator.interpolate(f)
                rec.step()
                rec.check(_close(got, np.array([means[i], means[j]]).T,
                                 1e-11 * (1 + max(abs(a), abs(b))) ** 9),
                          "cell averages of a system", lambda: dict(n=n, q=q, got=got))
            got = interpolator.interpolate(lambda x: 3)
            rec.check(_close(got, np.full(n, 3.0)), "constant of type int", dict(n=n))
            rec.outcome(f"averages {q}")


# polynomials on the reference cell [0, 1] with equal values or zeros at ends and center
SHAPES = [
    [0.0], [1.0], [0.0, 1.0, -5.0, 8.0, -4.0], [2.0, 1.0, -5.0, 8.0, -4.0], [0.0, 1.0, -1.0], [0.25, -1.0, 1.0], [0.0, 0.5, -1.5, 1.0],
    [0.0, 0.0, 1.0, -2.0, 1.0], [-1.0, 2.0], [0.0, 1.0], [3.0, 0.0, 0.0, 0.0, 0.0, 1e-6],
]


def _shapes(job, rec):
    """Functions given by a polynomial on each cell."""
    a, b = INTERVALS[job["interval"]]
    for n in (1, 2, 3, 7, 64, 130):
        mesh = core.UniformMesh(core.Interval(a, b), n)
        h = (b - a) / n
        letters = range(len(SHAPES))
        if n <= (3 if job["deep"] else 2):
            words = itertools.product(letters, repeat=n)
        else:
            words = [tuple((i * k + j) % len(SHAPES) for i in range(n)) for k in range(3) for j in letters]
        for word in words:
            polynomials = [Polynomial(SHAPES[i]) for i in word]
            expected = [p.integ()(1.0) for p in polynomials]

            def function(x):
                i = min(max(int((x - a) / h), 0), n - 1)
                return float(polynomials[i]((x - (a + i * h)) / h))

            def rounded(x):
                # the ends of cells belong to the next cell, up to roundoff
                i = min(max(int((x - a) / h + 1e-9), 0), n - 1)
                return float(polynomials[i]((x - (a + i * h)) / h))

            for q in (3, 4, 7) if n < 10 else (3,):
                interpolator = core.CellAverageInterpolator(mesh, q)
                for f in (function, rounded, lambda x: np.array([rounded(x), 2.0])):
                    got = np.array(interpolator.interpolate(f))
                    rec.state("shapes", job["interval"], n, word, q)
                    rec.step()
                    rec.valid()
                    wanted = expected if got.ndim == 1 else np.array([expected, [2.0] * n]).T
                    rec.check(_close(got, wanted, 1e-11), "cell averages of piecewise polynomials",
                              lambda: dict(n=n, q=q, word=word, got=got, expected=wanted))
        rec.outcome(f"shapes {n}")


def _nodes(job, rec):
    for n in range(1, 6):
        for nodes in itertools.combinations([-2.0, -0.5, 0.0, 0.3, 1.0, 4.0], n):
            got = core.NodeValuesInterpolator(*nodes).interpolate(lambda x: x**3 - x)
            rec.state("nodes", nodes)
            rec.step(2)
            rec.valid()
            rec.check(_close(got, [x**3 - x for x in nodes]), "nodal values", dict(nodes=nodes))
            got = core.NodeValuesInterpolator(*nodes).interpolate(
                lambda x: np.array([x, 1.0 - x, x * x]))
            rec.check(_close(got, [[x, 1 - x, x * x] for x in nodes]), "nodal values of a system",
                      dict(nodes=nodes))
    rec.outcome("nodes")


def _initial(job, rec):
    """Initial values of all solvers: exact means of cubic polynomials, nodal values."""
    a, length = -1.0, 3.0
    for coefficients in itertools.product([0.5, 2.0], [0.0, -1.0], [0.0, 1.0], [0.0, 0.25]):
        p, F = Polynomial(coefficients), Polynomial(coefficients).integ()
        positive = Polynomial([5.0, 0.1]) + 0.01 * p
        P = positive.integ()
        for n in range(1, 7):
            nodes = a + length * np.arange(n + 1) / n
            mean = (F(nodes[1:]) - F(nodes[:-1])) / np.diff(nodes)
            height = (P(nodes[1:]) - P(nodes[:-1])) / np.diff(nodes)
            rec.state("initial", coefficients, n)
            for problem in ["advection", "burgers"]:
                world = ScalarWorld(problem, lambda x: float(p(x)), length=length, offset=a)
                for solver in [SS.LaxFriedrichsSolver, SS.CentralFluxSolver, SS.MCLSolver]:
                    s = solver(world, mesh_size=n)
                    rec.step()
                    rec.check(_close(s.solution.value, mean), "initial cell averages",
                              dict(n=n, p=coefficients))
                    rec.check(_close(s.solution.grid, (nodes[1:] + nodes[:-1]) / 2), "grid",
                              dict(n=n))
                    s.reinitialize(world)
                    rec.check(_close(s.solution.value, mean), "initial cell averages",
                              dict(n=n, p=coefficients))
                for name in fe.SOLVERS:
                    for degree in [1, 2, 3] if n <= 3 else [1]:
                        s = fe.SOLVERS[name](world, mesh_size=n, polynomial_degree=degree)
                        grid = a + length * np.arange(n * degree) / (n * degree)
                        rec.step()
                        rec.check(_close(s.solution.grid, grid)
                                  and _close(s.solution.value, p(grid)), "initial nodal values",
                                  dict(n=n, degree=degree, p=coefficients))
            world = WaterWorld(lambda x: np.array([positive(x), p(x)]), length=length, offset=a)
            value = np.array([height, mean]).T
            for name in swe.FACTORIES:
                s = swe.FACTORIES[name](world, mesh_size=n)
                rec.step()
                rec.check(_close(s.solution.value, value), "initial cell averages",
                          dict(n=n, name=name))
            for degree in [1, 2, 3]:
                if n % degree == 0:
                    s = SW.CoarseSolver(world, mesh_size=n, coarsening_degree=degree)
                    expected = value.reshape(n // degree, degree, 2).mean(axis=1)
                    rec.step()
                    rec.check(_close(s.solution.value, expected), "coarse initial values",
                              dict(n=n, degree=degree))
            rec.valid()
    # benchmarks of the repository
    for module in [advection, burgers, shallow_water]:
        for key, cls in module.BENCHMARKS.items():
            if "random" in key or "random" in cls.__name__.lower():
                continue
            benchmark = cls()
            for n in [3, 8]:
                s = finite_volume.get_finite_volume_solution(benchmark, n)
                edges = benchmark.domain.a + benchmark.domain.length * np.arange(n + 1) / n
                g = 0.5 / np.sqrt(3)
                expected = [
                    (np.array(benchmark.initial_data((x + y) / 2 - g * (y - x)))
                     + np.array(benchmark.initial_data((x + y) / 2 + g * (y - x)))) / 2
                    for x, y in zip(edges, edges[1:])
                ]
                rec.state("benchmark", module.__name__, key, n)
                rec.step()
                rec.check(_close(s.value, expected, 1e-9) and s.time == benchmark.start_time,
                          "initial data of a benchmark", dict(key=key, n=n))
    rec.outcome("initial")


def _coarsen(job, rec):
    degree = job["degree"]
    coarsener = core.VectorCoarsener(degree)
    for n in range(1, 13) if degree < 7 else [degree * k + r for k in range(4) for r in (0, 1)][1:]:
        if n <= (5 if not job["deep"] else 7):
            vectors = states.all_words([0.0, 1.0, -3.5], n)
        else:
            vectors = states.patterns([0.0, 1.0, -3.5], n)
        for u in vectors:
            for v in (u, np.array([u, u[::-1] * 2]).T, np.round(u * 2).astype(int)):
                before = v.copy()
                rec.state(degree, n, v)
                rec.step()
                try:
                    got = coarsener(v)
                except ValueError:
                    rec.outcome("rejected")
                    rec.check(n % degree != 0, "coarsening is refused", dict(n=n, degree=degree))
                    continue
                rec.valid()
                rec.check(n % degree == 0, "length which is not divisible is accepted",
                          dict(n=n, degree=degree))
                expected = np.array([v[i : i + degree].mean(axis=0) for i in range(0, n, degree)])
                rec.check(_close(got, expected), "block averages",
                          lambda: dict(v=v, degree=degree, got=got, expected=expected))
                rec.check(np.array_equal(v, before) and not np.shares_memory(got, v),
                          "argument is changed or shared", dict(n=n, degree=degree))
                rec.outcome("coarsened")


def linear(old, block, target):
    """Linear interpolation on the first axis, constant beyond the ends."""
    expected = np.empty((len(target), *block.shape[1:]))
    for m, t in enumerate(target):
        if t <= old[0]:
            expected[m] = block[0]
        elif t >= old[-1]:
            expected[m] = block[-1]
        else:
            i = int(np.searchsorted(old, t, side="right")) - 1
            w = (t - old[i]) / (old[i + 1] - old[i])
            expected[m] = (1 - w) * block[i] + w * block[i + 1]
    return expected


# powers of two, so that scaling is exact
UNITS = [2.0**-20, 2.0**-27, 2.0**-40, 2.0**-60, 2.0**17, 2.0**40]


def _scaled(size, interpolator, rec, deep):
    """Small and large times, positions and values; times far from zero."""
    times = [0.0, 0.125, 0.25, 0.5, 1.0, 1.75]
    new = np.array([-0.5, 0.0, 0.0625, 0.125, 0.25, 0.375, 0.75, 1.0, 1.5, 1.75, 2.0])
    spatial = core.SpatialInterpolator()
    for old in itertools.combinations(times, size):
        old = np.array(old)
        block = np.array([[(i * 7 % 5) - 2.0 * j for j in range(3)] for i in range(size)])
        wanted = linear(old, block, new)
        for unit, scale in itertools.product(UNITS + [1.0], [1.0, 2.0**-40, 2.0**-130, 2.0**60] if deep else [1.0, 2.0**-40, 2.0**60]):
            for offset in (0.0, 1.0, -4096.0) if unit >= 2.0**-27 else (0.0,):
                for target in (new, new[::3], new[5:6]):
                    got = interpolator(offset + old * unit, block * scale, offset + target * unit)
                    expected = wanted[np.isin(new, target)] * scale
                    rec.state("scaled", old, unit, scale, offset, len(target))
                    rec.step(2)
                    rec.valid()
                    rec.check(np.shape(got) == expected.shape and np.all(np.abs(got - expected) <= 1e-11 * 8 * scale), "temporal interpolation",
                              lambda: dict(old=old, unit=unit, scale=scale, offset=offset, new=target, got=got, expected=expected))
                    got = spatial(offset + old * unit, np.array([block, 2 * block]) * scale, offset + target * unit)
                    expected = np.array([expected, 2 * expected])
                    rec.check(np.shape(got) == expected.shape and np.all(np.abs(got - expected) <= 1e-11 * 16 * scale), "spatial interpolation",
                              lambda: dict(old=old, unit=unit, scale=scale, offset=offset, new=target, got=got, expected=expected))
        # values of different magnitude in one array
        mixed = block * np.array([1.0, 2.0**-40, 2.0**-90])
        got = interpolator(old, mixed, new)
        rec.check(np.all(np.abs(got - wanted * np.array([1.0, 2.0**-40, 2.0**-90])) <= 1e-10 * np.array([1.0, 2.0**-40, 2.0**-90])),
                  "temporal interpolation", lambda: dict(old=old, got=got))
    rec.outcome(f"scaled {size}")


def _magnitudes(job, rec):
    """Averages and coarsening of small and large values, on small and large domains."""
    for unit, scale, n in itertools.product(UNITS + [1.0], UNITS + [1.0, 2.0**-130], (1, 2, 3, 6)):
        for shape in SHAPES:
            # the shape on every cell
            p = Polynomial(shape)
            mesh = core.UniformMesh(core.Interval(0, n * unit), n)
            function = lambda x: scale * float(p(x / unit - min(int(x / unit), n - 1)))
            got = np.array(core.CellAverageInterpolator(mesh, 4).interpolate(function))
            wanted = np.full(n, p.integ()(1.0) * scale)
            rec.state("magnitude", unit, scale, n, shape)
            rec.step(2)
            rec.valid()
            rec.check(got.shape == wanted.shape and np.all(np.abs(got - wanted) <= 1e-11 * scale), "cell averages",
                      lambda: dict(unit=unit, scale=scale, n=n, shape=shape, got=got, expected=wanted))
            got = core.NodeValuesInterpolator(*[unit * k for k in range(n)]).interpolate(lambda x: scale * float(p(x / unit / n)))
            rec.check(np.all(np.abs(got - scale * p(np.arange(n) / n)) <= 1e-12 * scale), "nodal values", lambda: dict(unit=unit, scale=scale, got=got))
        for degree in (1, 2, 3, 6):
            if n % degree == 0:
                v = np.array([1.0, -3.5, 2.0, 0.0, 7.0, 2.0**-20])[:n]
                for vector in (v * scale, np.array([v, v * scale]).T):
                    got = core.VectorCoarsener(degree)(vector)
                    wanted = np.array([vector[i: i + degree].mean(axis=0) for i in range(0, n, degree)])
                    weight = scale if vector.ndim == 1 else np.array([1.0, scale])
                    rec.step()
                    rec.check(got.shape == wanted.shape and np.all(np.abs(got - wanted) <= 1e-13 * weight), "block averages",
                              lambda: dict(vector=vector, degree=degree, got=got, expected=wanted))
    rec.outcome("magnitudes")


def _temporal(job, rec):
    size = job["size"]
    times = [0.0, 0.1, 0.25, 0.5, 1.0, 1.7]
    new = [-0.5, 0.0, 0.05, 0.1, 0.25, 0.3, 0.75, 1.0, 1.5, 1.7, 2.0]
    interpolator = core.TemporalInterpolator()
    _close_times(size, interpolator, rec)
    _scaled(size, interpolator, rec, job["deep"])
    for old in itertools.combinations(times, size):
        old = np.array(old)
        values = [np.array([(i * 7 % 5) - 2.0 * j for i in range(size)]) for j in range(6)]
        for shape in [(1,), (3,), (2, 2), (3, 2)]:
            k = int(np.prod(shape))
            block = np.array(values[:k]).T.reshape(size, *shape)
            for count in (1, 2, len(new)) if not job["deep"] else (1, 2, 3, len(new)):
                for target in itertools.combinations(new, count):
                    target = np.array(target)
                    got = interpolator(old, block, target)
                    rec.step()
                    expected = linear(old, block, target)
                    rec.check(_close(got, expected), "temporal interpolation",
                              lambda: dict(old=old, new=target, got=got, expected=expected))
            rec.state(old, shape)
            rec.valid()
    rec.outcome(f"temporal {size}")


def _close_times(size, interpolator, rec):
    """New times close to the old ones (relative distances down to 1e-6), of all
    lengths; long grids of times."""
    shifts = [0.0, 1e-6, -1e-4, 5e-3, -0.02]
    grids = [np.linspace(0.0, 3.0, size + 1)]
    targets = []
    for word in itertools.product(shifts, repeat=size + 1) if size < 4 else []:
        targets.append(np.sort(grids[0] + np.array(word)))
    for length in (100, 257, 1001) if size == 1 else ():
        grid = np.cumsum(0.5 + 0.25 * np.sin(np.arange(length)))
        grids.append(grid)
        targets += [grid, (grid[1:] + grid[:-1]) / 2, grid + 1e-3, grid[::7] - 1e-5]
    for old in grids:
        values = np.array([[1000.0 * ((7 * k) % 5), -2.0 * k] for k in range(len(old))])
        for target in targets:
            got = interpolator(old, values, target)
            rec.state("close", old, target)
            rec.step()
            i = np.clip(np.searchsorted(old, target, side="right") - 1, 0, len(old) - 2)
            w = np.clip((target - old[i]) / (old[i + 1] - old[i]), 0, 1)[:, None]
            expected = (1 - w) * values[i] + w * values[i + 1]
            rec.check(_close(got, expected, 1e-9), "temporal interpolation",
                      lambda: dict(old=old, new=target, got=got, expected=expected))


def _spatial(job, rec):
    interpolator = core.SpatialInterpolator()
    grid = [0.0, 0.1, 0.25, 0.5, 1.0]
    new = np.array([-1.0, 0.0, 0.05, 0.1, 0.3, 0.6, 1.0, 2.0])
    for size in range(1, 6):
        for old in itertools.combinations(grid, size):
            old = np.array(old)
            for steps in (1, 3):
                for tail in [(), (2,)]:
                    values = np.arange(steps * size * int(np.prod(tail or (1,))), dtype=float)
                    values = (values * 7 % 11).reshape(steps, size, *tail)
                    got = interpolator(old, values, new)
                    rec.state("spatial", old, steps, tail)
                    rec.step()
                    rec.valid()
                    expected = np.empty((steps, len(new), *tail))
                    for m, x in enumerate(new):
                        if x <= old[0]:
                            expected[:, m] = values[:, 0]
                        elif x >= old[-1]:
                            expected[:, m] = values[:, -1]
                        else:
                            i = int(np.searchsorted(old, x, side="right")) - 1
                            w = (x - old[i]) / (old[i + 1] - old[i])
                            expected[:, m] = (1 - w) * values[:, i] + w * values[:, i + 1]
                    rec.check(_close(got, expected), "spatial interpolation",
                              lambda: dict(old=old, got=got, expected=expected))
    # many points, equally spaced and not
    for number, target, name in itertools.product([100, 257, 1500], [50, 333], ["equal", "graded"]):
        old = np.arange(number) / number
        old = old if name == "equal" else old**2
        new = np.linspace(-0.1, 1.1, target)
        values = np.array([[(k * 7 + m * 3) % 11 + 0.5 * (k % 2) for k in range(number)] for m in range(2)])
        for values in (values, np.stack([values, -2 * values], axis=-1)):
            got = interpolator(old, values, new)
            i = np.clip(np.searchsorted(old, new, side="right") - 1, 0, number - 2)
            w = np.clip((new - old[i]) / (old[i + 1] - old[i]), 0.0, 1.0)
            w = w.reshape(-1, *[1] * (values.ndim - 2))
            expected = (1 - w) * values[:, i] + w * values[:, i + 1]
            rec.state("spatial", number, target, name, values.shape)
            rec.step()
            rec.valid()
            rec.check(np.shape(got) == expected.shape and np.all(np.abs(got - expected) <= 1e-9), "spatial interpolation of many points",
                      lambda: dict(number=number, target=target, grid=name, difference=np.max(np.abs(got - expected))))
    rec.outcome("spatial")
