"""Error evolutions.  All pairs of histories over alphabets of time grids and values
(different lengths, equal and nested times, several meshes, scalar and system values)
are given to the real calculator and compared with the relative L2 norm after linear
interpolation of the shorter history, computed independently.  Averages are drawn for
all combinations of up to three evolutions and read off the figures, and series are
run for all sets of failing benchmarks and compared with fresh solvers on the
benchmarks of the seed.  Averages of up to more than a hundred evolutions, long
series, histories of hundreds of times and all kinds of exceptions are included."""
import itertools
import os

import matplotlib.pyplot as plt
import numpy as np

import core
import finite_volume
import finite_volume.shallow_water.solver as SW
import benchmark.shallow_water as bw
from command.error_evolution import (
    ErrorEvolutionCalculator,
    GenerateShallowWaterErrorEvolutionSeries,
    PlotShallowWaterAverageErrorEvolution,
    PlotShallowWaterErrorEvolution,
)

from ..core import capture, scratch_directory
from ..worlds import close, solve

ASSUMPTIONS = ["relative roundoff tolerance 1e-10", "histories have at least two times and a reference which does not vanish"]
TIMES = [[0, 1], [0, 2], [0, 1, 2], [0, 0.25, 2], [0, 0.5, 0.75, 1], [0, 0.5, 1, 1.5], [1, 1.5, 3],
         [0, 1.005, 2], [0, 0.999999, 2.001]]
SCALARS = [1.0, -2.0, 0.5]
PAIRS = [(1.0, 1.0), (2.0, -1.3), (0.5, 3.0)]


def jobs(tier):
    deep = tier == "thorough"
    result = []
    for a in range(len(TIMES)):
        for system in [False, True]:
            result.append(dict(kind="pairs", a=a, system=system, deep=deep))
            result.append(dict(kind="scales", a=a, system=system, deep=deep))
    result.append(dict(kind="errors"))
    for n in (1, 2, 3):
        result.append(dict(kind="average", n=n, deep=deep))
    result.append(dict(kind="average", n=0, deep=deep))
    result.append(dict(kind="long", deep=deep))
    result.append(dict(kind="exceptions"))
    result.append(dict(kind="many", n=40 if deep else 18))
    result.append(dict(kind="plot"))
    for n in (1, 2, 3) + ((4,) if deep else ()):
        for mode in ["coarse", "llf"]:
            result.append(dict(kind="series", n=n, mode=mode, deep=deep))
    result.append(dict(kind="files"))
    return result


def run(job, rec):
    try:
        globals()["_" + job["kind"]](job, rec)
    finally:
        plt.close("all")


# -------------------------------------------------------------------- oracle
def interpolate(times, values, new):
    result = []
    for t in new:
        if t <= times[0]:
            result.append(values[0])
        elif t >= times[-1]:
            result.append(values[-1])
        else:
            k = max(i for i in range(len(times)) if times[i] <= t)
            s = (t - times[k]) / (times[k + 1] - times[k])
            result.append((1 - s) * values[k] + s * values[k + 1])
    return np.array(result)


def l2(values, lengths):
    """L2 norms of piecewise constants, VALUES has the shape (time, cell, ...)."""
    weights = np.asarray(lengths).reshape((1, -1) + (1,) * (values.ndim - 2))
    return np.sqrt((weights * values**2).sum(axis=1))


def reference(times_a, a, times_b, b, lengths):
    if len(times_a) > len(times_b):
        times = times_a
        b = interpolate(times_b, b, times)
    else:
        times = times_b
        a = interpolate(times_a, a, times)
    return np.array(times, dtype=float), l2(a - b, lengths) / l2(b, lengths)


def solution(times, values, space, start=None):
    s = core.DiscreteSolutionWithHistory(core.DiscreteSolution(np.array(values[0], dtype=float), initial_time=times[0], space=space))
    for t0, t1, v in zip(times, times[1:], values[1:]):
        s.update(t1 - t0, np.array(v, dtype=float))
    return s


def _pairs(job, rec):
    letters = PAIRS if job["system"] else SCALARS
    times_a = TIMES[job["a"]]
    meshes = [(1, 1.0), (2, 3.0)] + ([(3, 0.5)] if job["deep"] else [])
    for cells, length in meshes:
        space = finite_volume.FiniteVolumeSpace(core.UniformMesh(core.Interval(-1, -1 + length), cells))
        lengths = [length / cells] * cells
        words = list(itertools.product(letters, repeat=cells))
        step = 1 if len(words) <= 9 else 4

        def histories(number, stride):
            # cyclic words of values, every start and every stride
            for start in range(0, len(words), step):
                for stride_ in stride:
                    yield [words[(start + k * stride_) % len(words)] for k in range(number)]

        for times_b in TIMES:
            for va in histories(len(times_a), (0, 1, 2)):
                a = np.array(va, dtype=float)
                sa = solution(times_a, va, space)
                for vb in histories(len(times_b), (0, 1)):
                    b = np.array(vb, dtype=float)
                    for spaces in ("both",) if not job["deep"] else ("both", "first", "second"):
                        sb = solution(times_b, vb, space if spaces != "first" else None)
                        sa_ = sa if spaces != "second" else solution(times_a, va, None)
                        times, error = ErrorEvolutionCalculator()(sa_, sb)
                        wanted_times, wanted = reference(times_a, a, times_b, b, lengths)
                        rec.state(job["a"], times_b, a, b, cells, length)
                        rec.step()
                        rec.valid()
                        rec.check(
                            close(times, wanted_times, 1e-13, 0.0) and close(error, wanted, 1e-10, 1e-12),
                            "error evolution",
                            lambda: dict(times_a=times_a, times_b=times_b, a=a, b=b, got=[times, error], expected=[wanted_times, wanted]),
                        )
                        if times_a == times_b and np.array_equal(a, b):
                            rec.check(np.all(error == 0), "error of equal solutions")
                            rec.outcome("equal")
                # another norm
            norm = core.L1Norm(space.mesh)
            times, error = ErrorEvolutionCalculator()(sa, sb, norm)
            if len(times_a) <= len(times_b):
                inner = interpolate(times_a, a, times_b)
                w = np.array(lengths).reshape((1, -1) + (1,) * (a.ndim - 2))
                wanted = (w * np.abs(inner - b)).sum(axis=1) / (w * np.abs(b)).sum(axis=1)
                rec.check(close(error, wanted, 1e-10, 1e-12), "other norm", lambda: dict(got=error, expected=wanted))
            rec.check(np.array_equal(sa.value_history, a) and np.array_equal(sb.value_history, b), "the histories were changed")
            rec.outcome(f"{len(times_a)} {len(times_b)}")


# of both histories, of one of them, of the components, and of the times
SCALES = [(2.0**-20, 2.0**-20, 1.0), (2.0**-50, 2.0**-50, 1.0), (2.0**-90, 2.0**-90, 2.0**-40), (1.0, 2.0**-30, 2.0**20), (2.0**-40, 1.0, 2.0**-20),
          (2.0**40, 2.0**40, 2.0**-60), (2.0**-10, 2.0**-10, 2.0**-10), ((1.0, 2.0**-40), (1.0, 2.0**-40), 1.0), ((2.0**-30, 2.0**10), (2.0**-25, 1.0), 1.0)]


def _scales(job, rec):
    """Small and large values and times."""
    letters = PAIRS if job["system"] else SCALARS
    for (cells, length), (scale_a, scale_b, unit) in itertools.product([(1, 1.0), (2, 3.0), (2, 2.0**-20)], SCALES):
        if not job["system"] and isinstance(scale_a, tuple):
            continue
        scale_a, scale_b = np.array(scale_a), np.array(scale_b)
        space = finite_volume.FiniteVolumeSpace(core.UniformMesh(core.Interval(-1, -1 + length), cells))
        words = list(itertools.product(letters, repeat=cells))
        times_a = [t * unit for t in TIMES[job["a"]]]
        for times_b in [[t * unit for t in times] for times in TIMES]:
            for start in range(len(words)) if job["deep"] else range(0, len(words), 3):
                va = np.array([words[(start + k) % len(words)] for k in range(len(times_a))], dtype=float) * scale_a
                vb = np.array([words[(2 * start + 2 * k + 1) % len(words)] for k in range(len(times_b))], dtype=float) * scale_b
                times, error = ErrorEvolutionCalculator()(solution(times_a, va, space), solution(times_b, vb, space))
                wanted_times, wanted = reference(times_a, va, times_b, vb, [length / cells] * cells)
                rec.state("scale", times_a, times_b, va, vb, length)
                rec.step()
                rec.valid()
                rec.check(close(times, wanted_times, 1e-13, 0.0) and close(error, wanted, 1e-9, 1e-12), "error evolution",
                          lambda: dict(times_a=times_a, times_b=times_b, a=va, b=vb, got=[times, error], expected=[wanted_times, wanted]))
    rec.outcome("scales")


def _errors(job, rec):
    space = finite_volume.FiniteVolumeSpace(core.UniformMesh(core.Interval(0, 1), 2))
    a = solution([0, 1], [(1.0, 2.0), (1.0, 2.0)], None)
    b = solution([0, 1], [(1.0, 2.0), (1.0, 2.0)], None)
    try:
        ErrorEvolutionCalculator()(a, b)
        rec.violate("two solutions without space")
    except ValueError:
        rec.step()
    c = solution([0, 1], [(1.0, 2.0, 3.0), (1.0, 2.0, 3.0)], space)
    try:
        ErrorEvolutionCalculator()(a, c)
        rec.violate("different spatial dimensions")
    except AssertionError:
        rec.step()
    for number in (0, 1, 3):
        try:
            PlotShallowWaterErrorEvolution([None] * number)
            rec.violate("two solutions are required")
        except AssertionError:
            rec.step()
    for option in ("save_plot", "save_animation", "save_error"):
        try:
            GenerateShallowWaterErrorEvolutionSeries(None, None, **{option: True})
            rec.violate("a directory is required")
        except AssertionError:
            rec.step()
    rec.state("errors")
    rec.valid()
    rec.outcome("errors")


def many(letters, top):
    """Words of all lengths up to TOP and of some beyond."""
    for n in [*range(4, top), 64, 65, 100, 101, 129]:
        yield tuple((k * k + n) % letters for k in range(n))
        # one evolution differs from all others
        yield tuple(1 if k == n - 1 else 2 for k in range(n))


def _long(job, rec):
    """Long histories, many cells."""
    for cells, length, a, b in itertools.product((1, 5, 65), (0.5, 3.0), (2, 65, 130, 300), (3, 64, 257) + ((1000,) if job["deep"] else ())):
        space = finite_volume.FiniteVolumeSpace(core.UniformMesh(core.Interval(-1, -1 + length), cells))
        grids = [np.linspace(0, 2, n) + 0.3 / n * np.sin(np.arange(n)) for n in (a, b)]
        values = [1.5 + np.sin(np.arange(n)[:, None, None] + 0.3 * np.arange(cells)[None, :, None] + np.array([0.0, 1.0])) for n in (a, b)]
        sa, sb = (solution(t - t[0], v, space) for t, v in zip(grids, values))
        times, error = ErrorEvolutionCalculator()(sa, sb)
        wanted_times, wanted = reference(list(sa.time_history), values[0], list(sb.time_history), values[1], [length / cells] * cells)
        rec.state("long", cells, length, a, b)
        rec.step(max(a, b))
        rec.valid()
        rec.check(close(times, wanted_times) and close(error, wanted, 1e-9, 1e-12), "error evolution of long histories",
                  lambda: dict(cells=cells, a=a, b=b, length=length))
        rec.outcome(f"long {max(a, b)}")


# ------------------------------------------------------------------- average
def _average(job, rec):
    evolutions = []
    for k, times in enumerate(TIMES[: 6 if job["deep"] else 4]):
        errors = np.array([[0.1 * (k + 1) * (i + 1), 0.3 / (i + 1) + k] for i in range(len(times))])
        evolutions.append((np.array(times, dtype=float), errors))
    for chosen in itertools.product(range(len(evolutions)), repeat=job["n"]) if job["n"] else many(len(evolutions), 70 if job["deep"] else 35):
        times = [evolutions[k][0] for k in chosen]
        errors = [evolutions[k][1] for k in chosen]
        shortest = times[int(np.argmin([len(t) for t in times]))]
        adjusted = np.array([interpolate(t, e, shortest) for t, e in zip(times, errors)])
        plt.close("all")
        directory = scratch_directory()
        command = PlotShallowWaterAverageErrorEvolution(times, errors, show=True, save=os.path.join(directory, "average.png") if chosen[0] == 1 else None)
        command.execute()
        rec.state(chosen)
        rec.step()
        rec.valid()
        files = sorted(os.listdir(directory))
        rec.check(files == (["average_h.png", "average_q.png"] if chosen[0] == 1 else []), "files", files)
        figures = [plt.figure(n) for n in plt.get_fignums()]
        rec.check(len(figures) == 2, "number of figures", len(figures))
        for i, figure in enumerate(figures):
            axes = figure.axes[0]
            x, y = axes.lines[0].get_data()
            mean, top = adjusted[:, :, i].mean(axis=0), adjusted[:, :, i].max(axis=0)
            rec.check(len(axes.lines) == 1 and close(x, shortest) and close(y, mean, 1e-10), "mean error",
                      lambda: dict(chosen=chosen, got=[x, y], expected=[shortest, mean]))
            vertices = {(round(a, 9), round(b, 9)) for path in axes.collections[0].get_paths() for a, b in path.vertices}
            wanted = {(round(a, 9), round(b, 9)) for a, b in zip(shortest, top)} | {(round(a, 9), round(b, 9)) for a, b in zip(shortest, mean)}
            rec.check(wanted <= vertices, "maximal error", lambda: dict(chosen=chosen, vertices=sorted(vertices), expected=sorted(wanted)))
        rec.outcome(f"{len(shortest)} {np.unique(chosen).size}")
    plt.close("all")
    PlotShallowWaterAverageErrorEvolution(times, errors, show=False).execute()
    rec.check(not plt.get_fignums(), "figures stay open")


def _water(mode, benchmark):
    if mode == "llf":
        return (
            SW.LaxFriedrichsSolver(benchmark, mesh_size=8, save_history=True, cfl_number=0.2),
            SW.LowOrderSolver(benchmark, mesh_size=8, save_history=True),
        )
    return (
        SW.LaxFriedrichsSolver(benchmark, mesh_size=4, save_history=True),
        SW.CoarseSolver(benchmark, mesh_size=8, coarsening_degree=2, save_history=True),
    )


def _fresh(mode, benchmark):
    solvers = _water(mode, benchmark)
    for s in solvers:
        solve(s)
    a, b = (s.solution for s in solvers)
    lengths = [cell.length for cell in a.space.mesh]
    return solvers, reference(list(a.time_history), a.value_history, list(b.time_history), b.value_history, lengths)


def _plot(job, rec):
    for mode, end_time, given, executed in itertools.product(["coarse", "llf"], [2.0, 6.0], [False, True], [False, True]):
        plt.close("all")
        b = bw.OscillationNoTopographyBenchmark(end_time)
        _, (times, error) = _fresh(mode, b)
        solvers = list(_water(mode, b))
        if executed:
            for s in solvers:
                solve(s)
        if given:
            times, error = np.array([0.0, 1.0, 5.0]), np.array([[1.0, 2.0], [3.0, 5.0], [2.0, 7.0]])
        directory = scratch_directory()
        path = os.path.join(directory, "error.png")
        with open(path, "wb") as stale:
            stale.write(b"stale")
        command = PlotShallowWaterErrorEvolution(solvers, show=True, save=path, solver_executed=executed)
        command.execute(*((times, error) if given else ()))
        rec.state(mode, end_time, given, executed)
        rec.step()
        rec.valid()
        rec.check(_read(directory, "error.png")[:4] == b"\x89PNG", "plot is not saved")
        lines = plt.gca().lines
        rec.check(len(lines) == 2, "number of lines", len(lines))
        for i, (line, name) in enumerate(zip(lines, ["Height", "Discharge"])):
            x, y = line.get_data()
            rec.check(close(x, times) and close(y, error[:, i], 1e-9) and line.get_label().startswith(name), "error plotted",
                      lambda: dict(mode=mode, got=[x, y], expected=[times, error[:, i]], label=line.get_label()))
        rec.outcome(f"{mode} {len(times)}")


# -------------------------------------------------------------------- series
class Failing(SW.LaxFriedrichsSolver):
    failing = ()
    calls = 0
    error = ValueError("planned failure")

    def solve(self, *args, **kwargs):
        self.calls += 1
        if self.calls - 1 in self.failing:
            if self.calls % 2:
                super().solve(*args, **kwargs)  # fails after the last step
            raise self.error
        super().solve(*args, **kwargs)


def _series(job, rec):
    n, mode = job["n"], job["mode"]
    start = bw.OscillationNoTopographyBenchmark(2.0)
    for seed, parameters in itertools.product([1, 0] if not job["deep"] else [0, 1, 2, 3, 9], [{}, dict(height_amplitude=0.3), dict(velocity_average=1.7, height_average=3.0)]):
        generator = bw.RandomBenchmarkGenerator(seed, 2.0, **parameters)
        benchmarks = [generator() for _ in range(n)]
        wanted = [_fresh(mode, b)[1] for b in benchmarks]
        for size in range(n + 1):
            for failing in itertools.combinations(range(n), size):
                approximation, exact = _water(mode, start)
                replaced = Failing(start, mesh_size=4 if mode == "coarse" else 8, save_history=True, cfl_number=0.2 if mode == "llf" else None)
                replaced.failing = failing
                series = GenerateShallowWaterErrorEvolutionSeries(
                    replaced, exact, seed=seed, end_time=2.0, initial_conditions=n, **parameters
                )
                series.execute()
                expected = [w for i, w in enumerate(wanted) if i not in failing]
                where = dict(seed=seed, parameters=parameters, failing=failing, n=n, mode=mode)
                rec.state(seed, parameters, failing, n, mode)
                rec.step(n)
                rec.valid()
                rec.check(len(series.times) == len(series.errors) == len(expected), "number of evolutions", where)
                for t, e, (times, error) in zip(series.times, series.errors, expected):
                    rec.check(close(t, times, 1e-9) and close(e, error, 1e-7, 1e-9), "evolution of the series",
                              lambda: dict(where, got=[t, e], expected=[times, error]))
                rec.outcome(f"{n} benchmarks {size} failing")


EXCEPTIONS = [
    ValueError("a"), RuntimeError("b"), IndexError(3), KeyError("k"), TypeError("t"), ZeroDivisionError(), FloatingPointError("f"), AssertionError(),
    OverflowError("o"), np.linalg.LinAlgError("singular"), AttributeError("a"), OSError(2, "no file"), MemoryError(), NotImplementedError(),
    StopIteration(), LookupError("l"), RecursionError("r"), Warning("w"), Exception(), UnicodeError("u"), np.exceptions.AxisError("x"),
]


def _exceptions(job, rec):
    """All kinds of failures at all positions."""
    n = 2
    start = bw.OscillationNoTopographyBenchmark(0.5)
    generator = bw.RandomBenchmarkGenerator(5, 0.5)
    wanted = [_fresh("coarse", generator())[1] for _ in range(n)]
    for error in EXCEPTIONS:
        for failing in [(0,), (1,), (0, 1)]:
            _, exact = _water("coarse", start)
            replaced = Failing(start, mesh_size=4, save_history=True)
            replaced.failing, replaced.error = failing, error
            where = dict(error=repr(error), failing=failing)
            rec.state("exception", repr(error), failing)
            rec.step(n)
            series = GenerateShallowWaterErrorEvolutionSeries(replaced, exact, seed=5, end_time=0.5, initial_conditions=n)
            try:
                with capture():
                    series.execute()
            except type(error):
                rec.violate("the series ends with a failing benchmark", where)
                continue
            rec.valid()
            expected = [w for i, w in enumerate(wanted) if i not in failing]
            rec.check(len(series.times) == len(series.errors) == len(expected)
                      and all(close(t, a, 1e-9) and close(e, b, 1e-7, 1e-9) for t, e, (a, b) in zip(series.times, series.errors, expected)),
                      "evolution of the series", where)
            rec.outcome(type(error).__name__)


def _many(job, rec):
    """Series of many benchmarks."""
    start = bw.OscillationNoTopographyBenchmark(0.5)
    for failing in [(), (0,), (7,), (9, 10), (0, 3, 11, 12, 13)]:
        generator = bw.RandomBenchmarkGenerator(2, 0.5)
        wanted = [_fresh("coarse", generator())[1] for _ in range(job["n"])]
        _, exact = _water("coarse", start)
        replaced = Failing(start, mesh_size=4, save_history=True)
        replaced.failing = failing
        directory = scratch_directory()
        series = GenerateShallowWaterErrorEvolutionSeries(replaced, exact, seed=2, end_time=0.5, initial_conditions=job["n"],
                                                          save_error=len(failing) == 2, save_directory=directory)
        with capture():
            series.execute()
        expected = [w for i, w in enumerate(wanted) if i not in failing]
        rec.state("many", failing)
        rec.step(job["n"])
        rec.valid()
        rec.check(len(series.times) == len(series.errors) == len(expected)
                  and all(close(t, a, 1e-9) and close(e, b, 1e-7, 1e-9) for t, e, (a, b) in zip(series.times, series.errors, expected)),
                  "evolution of the series", dict(failing=failing))
        if len(failing) == 2:
            rec.check(sorted(os.listdir(directory)) == sorted(f"error_{i}.png" for i in range(job["n"]) if i not in failing), "files", os.listdir(directory))
        rec.outcome(f"many {len(expected)}")


def _files(job, rec):
    start = bw.OscillationNoTopographyBenchmark(1.0)
    for error, plot, failing in itertools.product([False, True], [False, True], [(), (1,), (0,)]):
        directory = os.path.join(scratch_directory(), "a", "b")
        _, exact = _water("coarse", start)
        approximation = Failing(start, mesh_size=4, save_history=True)
        approximation.failing = failing
        GenerateShallowWaterErrorEvolutionSeries(
            approximation, exact, seed=3, end_time=1.0, initial_conditions=2, save_directory=directory, save_error=error, save_plot=plot
        ).execute()
        files = sorted(os.listdir(directory)) if os.path.isdir(directory) else []
        indices = [i for i in range(2) if i not in failing]
        rec.state(error, plot, failing)
        rec.step(2)
        rec.valid()
        rec.check([f for f in files if f.startswith("error")] == ([f"error_{i}.png" for i in indices] if error else []), "error plots", files)
        shown = {f.split("_")[1].split(".")[0] for f in files if f.startswith("plot")}
        rec.check(shown == ({str(i) for i in indices} if plot else set()), "solution plots", files)
        rec.check(all(f.startswith(("error", "plot")) for f in files), "other files", files)
        rec.check(not plt.get_fignums(), "figures stay open")
        # a second series with other benchmarks replaces the files of the first
        older = {f: _read(directory, f) for f in files}
        for f in files[::2]:
            with open(os.path.join(directory, f), "wb") as opened:
                opened.write(b"stale")
        approximation = Failing(start, mesh_size=4, save_history=True)
        approximation.failing = failing
        GenerateShallowWaterErrorEvolutionSeries(
            approximation, exact, seed=8, end_time=1.0, initial_conditions=2, save_directory=directory, save_error=error, save_plot=plot
        ).execute()
        again = sorted(os.listdir(directory)) if os.path.isdir(directory) else []
        rec.step(2)
        rec.check(again == files and all(_read(directory, f)[:4] == b"\x89PNG" and _read(directory, f) != older[f] for f in again),
                  "files of an earlier series are kept", lambda: dict(error=error, plot=plot, failing=failing, files=again))
        rec.outcome(f"{len(files)} files")


def _read(directory, name):
    with open(os.path.join(directory, name), "rb") as opened:
        return opened.read()
