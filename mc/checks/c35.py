"""Plots and animations.  Plot and animate are run through the parser for all lists
of solvers up to a length, all benchmarks and all combinations of options; the
saved data, the lines of saved and shown figures and the lines at every frame of
the animations are compared with directly built solvers, the functions of the
benchmark, and independent interpolation in time.  Plotters and animators are also
explored directly: all sequences of operations up to a depth, values of all scales,
many points, many equal labels, close times, and histories over all pairs of time
grids of a family."""
import itertools
import os
import pickle
import re

import matplotlib.pyplot as plt
import numpy as np

from .. import networks
from ..core import capture, scratch_directory, silence
from ..figures import record

import core
import finite_element.scalar.solver as fem
import finite_volume
import finite_volume.scalar.solver as fv
import finite_volume.shallow_water.solver as swe
from benchmark import advection, burgers, shallow_water
from command import PARSER_COMMANDS, Animate, Plot
from command.animate import NothingToAnimateError, ScalarAnimator, ShallowWaterAnimator
from command.plot import NothingToPlotError, ScalarPlotter, ShallowWaterPlotter
from parser import CustomArgumentParser

from ..worlds import ScalarWorld, WaterWorld, solve

ASSUMPTIONS = [
    "figures are recorded when they are saved or shown, animations are played frame by frame instead of encoded",
    "the look of figures is left out, clips may last one frame or one percent more or less than requested",
    "plot grids are fine enough to see a variable bathymetry",
]
SOLVERS = {
    "advection": {
        "llf": (["llf", "+m", "8"], lambda b, **k: fv.LaxFriedrichsSolver(b, mesh_size=8, cfl_number=0.1, **k), "llf"),
        "fe": (["cg-low", "+m", "4", "+p", "2", "+s", "two"], lambda b, **k: fem.LowOrderContinuousGalerkinSolver(b, mesh_size=4, polynomial_degree=2, cfl_number=1.0, **k), "two"),
        "mcl": (["mcl-fv", "+m", "5", "+s", "llf"], lambda b, **k: fv.MCLSolver(b, mesh_size=5, cfl_number=0.1, **k), "llf"),
        "cg": (["cg", "+m", "3"], lambda b, **k: fem.ContinuousGalerkinSolver(b, mesh_size=3, cfl_number=0.1, polynomial_degree=1, **k), "cg"),
    },
    "swe": {
        "llf": (["llf", "+m", "8"], lambda b, **k: swe.LaxFriedrichsSolver(b, mesh_size=8, cfl_number=0.1, **k), "llf"),
        "low": (["low-order", "+m", "5", "+s", "llf"], lambda b, **k: swe.LowOrderSolver(b, mesh_size=5, cfl_number=0.1, **k), "llf"),
        "mcl": (["mcl", "+m", "6", "+s", "$b$"], lambda b, **k: swe.MCLSolver(b, mesh_size=6, cfl_number=0.1, **k), "$b$"),
        "fine": (["llf", "+m", "16", "+s", "fine", "++cfl", "0.2"], lambda b, **k: swe.LaxFriedrichsSolver(b, mesh_size=16, cfl_number=0.2, **k), "fine"),
    },
}
SOLVERS["burgers"] = SOLVERS["advection"]
MODULES = {"advection": advection, "burgers": burgers, "swe": shallow_water}
END = {"advection": 0.25, "burgers": 0.0625, "swe": 1.5}
# end times for which the benchmark gives an interesting solution
SPECIAL = {"damm-break": 2.0, "cylindrical-damm-break": 1.0, "cylindrical-damm-break-with-wall": 1.0}


def jobs(tier):
    deep = tier == "thorough"
    result = []
    for problem, module in MODULES.items():
        names = list(SOLVERS[problem])
        for name in module.BENCHMARKS:
            result.append(dict(kind="plots", problem=problem, benchmark=name, lists=[[], names[:1], names[:3], names[3:]], meshes=[21, 8, 16, 200, None] if deep else [21, 8]))
            result.append(dict(kind="movies", problem=problem, benchmark=name, lists=[[], names[:1], names[:3], names[3:]], deep=deep))
        for first in [None, *names]:
            longer = 3 if deep else 2
            lists = [[first, *rest] for n in range(longer) for rest in itertools.product(names, repeat=n)] if first else [[]]
            result.append(dict(kind="plots", problem=problem, benchmark=None, lists=lists, meshes=[6]))
            result.append(dict(kind="movies", problem=problem, benchmark=None, lists=lists, deep=deep))
        result.append(dict(kind="targets", problem=problem))
        result.append(dict(kind="scales", problem=problem))
        result.append(dict(kind="durations", problem=problem))
        result += [dict(kind="long", problem=problem, size=size) for size in (129, 520, 1030) + ((4100,) if deep else ())]
        result += [dict(kind="plotter", problem=problem, first=op, depth=4 if deep else 3) for op in OPERATIONS]
        result += [dict(kind="animator", problem=problem, a=a, deep=deep) for a in range(len(TIMES))]
        result += [dict(kind="failing", problem=problem, animate=animate, group=g, deep=deep) for animate in (False, True) for g in range(4)]
    return result


def run(job, rec):
    with networks.directory(scratch_directory()):
        os.makedirs("data")
        with record() as figures:
            globals()["_" + job["kind"]](job, rec, figures)


# -------------------------------------------------------------------- oracles
def near(a, b, eps=1e-11):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= eps * (1 + np.abs(b))))


def match(got, expected, eps=1e-11):
    """Equal lists of (label, x, y) up to the order."""
    rest = list(got)
    for label, x, y in expected:
        for k, (l, gx, gy) in enumerate(rest):
            if l == label and near(gx, x, eps) and near(gy, y, eps):
                del rest[k]
                break
        else:
            return False
    return not rest


def velocity(values):
    return values[:, 1] / values[:, 0]


def split(problem, benchmark, label, x, values):
    """Lines of every axes for values at points."""
    labels = label if isinstance(label, tuple) else (label,) * 3
    values = np.asarray(values, dtype=float)
    if problem != "swe":
        return [(labels[0], x, values)]
    bottom = np.array([benchmark.bathymetry(z) for z in x], dtype=float)
    return [(labels[0], x, values[:, 0] + bottom), (labels[1], x, values[:, 1]), (labels[2], x, velocity(values))]


def sample(function, grid):
    """Values of a function or None if it fails."""
    try:
        return np.array([function(x) for x in grid], dtype=float)
    except Exception:
        return None


def bottom_line(problem, benchmark, grid):
    """The bathymetry if it is shown."""
    if problem != "swe":
        return None
    fine = [benchmark.bathymetry(x) for x in np.linspace(benchmark.domain.a, benchmark.domain.b, 41)]
    return None if max(fine) == min(fine) else ("$b$", grid, np.array([benchmark.bathymetry(x) for x in grid], dtype=float))


def exact_labels(problem, benchmark):
    t = f"(t={benchmark.end_time:.1f})$"
    if problem != "swe":
        return "$u" + t
    height = "$h" if bottom_line(problem, benchmark, []) is None else "$h+b"
    return height + t, "$q" + t, "$u" + t


def expected_plot(problem, benchmark, m, solutions, initial):
    """Lines of every axes of a plot, and whether the exact solution exists."""
    grid = np.linspace(benchmark.domain.a, benchmark.domain.b, m)
    panels = [[] for _ in range(3 if problem == "swe" else 1)]

    def add(label, x, values):
        for panel, line in zip(panels, split(problem, benchmark, label, x, values)):
            panel.append(line)

    exact = sample(lambda x: benchmark.exact_solution(x, benchmark.end_time), grid)
    if exact is not None:
        add(exact_labels(problem, benchmark), grid, exact)
    for label, x, values in solutions:
        add(label, x, values)
    if initial:
        add("$u_0$" if problem != "swe" else ("$h_0$", "$q_0$", "$v_0$"), grid, sample(benchmark.initial_data, grid))
    nothing = not panels[0]
    bottom = bottom_line(problem, benchmark, grid)
    if bottom is not None:
        panels[0].append(bottom)
    return panels, exact is not None, nothing


def build_benchmark(problem, name):
    module = MODULES[problem]
    cls = module.BENCHMARKS[name] if name else module.BENCHMARK_DEFAULTS["plot"]
    with silence():
        benchmark = cls(seed=5) if name == "random" else cls()
    benchmark.end_time = SPECIAL.get(name, END[problem])
    return benchmark


def line_of(command, problem, name, chosen, extra):
    words = [command, problem, "-T", str(SPECIAL.get(name, END[problem])), *extra]
    if name:
        words += ["-b", name] if name != "random" else ["-r", "5"]
    if chosen:
        words += ["-s"] + sum([SOLVERS[problem][c][0] for c in chosen], [])
    return words


def execute(words):
    """Runs a command line; returns its output."""
    with capture() as output:
        arguments = CustomArgumentParser(PARSER_COMMANDS).parse_arguments(words)
        values = {k: v for k, v in vars(arguments).items() if k not in ("args", "profile", "command")}
        arguments.command(**values).execute()
    return output.text


def fresh(problem, benchmark, chosen, **kwargs):
    """Direct solutions: label, solution, and number of failed solvers."""
    result, failed = [], 0
    for c in chosen:
        _, build, label = SOLVERS[problem][c]
        solver = build(benchmark, **kwargs)
        try:
            solve(solver)
        except Exception:
            failed += 1
        result.append((label, solver.solution))
    return result, failed


def centers(domain, n):
    h = (domain.b - domain.a) / n
    return domain.a + h * (np.arange(n) + 0.5)


def check_grid(rec, problem, benchmark, chosen, solutions):
    """Points of the solutions: centers of cells or nodes of finite elements."""
    for c, (label, solution) in zip(chosen, solutions):
        words = SOLVERS[problem][c][0]
        n = int(words[words.index("+m") + 1])
        domain = benchmark.domain
        if problem != "swe" and c in ("fe", "cg"):
            p = 2 if c == "fe" else 1
            expected = domain.a + (domain.b - domain.a) / (n * p) * np.arange(n * p)
        else:
            expected = centers(domain, n)
        rec.check(near(solution.grid, expected), "points of a solution", lambda: dict(solver=c, got=solution.grid, expected=expected))


OPTIONS = list(itertools.product([False, True], [False, True], ["none", "plot", "data", "both"]))
SUFFIXES = {"swe": ("_h", "_q", "_v")}


def named(path, problem):
    base, extension = os.path.splitext(path)
    return [base + s + extension for s in SUFFIXES.get(problem, ("",))]


def read_data(path):
    with open(path, "rb") as f:
        return [(k, np.array(v["xdata"], dtype=float), np.array(v["ydata"], dtype=float)) for k, v in pickle.load(f).items()]


def numbered(lines):
    """Labels of saved data: repeated ones are told apart."""
    return sorted(label for label, _, _ in lines)


def check_data(rec, path, panel, where):
    """Saved data hold all lines; unique labels are kept."""
    if not rec.check(os.path.exists(path), "data are not saved", lambda: dict(where, path=path)):
        return
    got = read_data(path)
    labels = [label for label, _, _ in panel]
    stripped = []
    for label, x, y in got:
        if label not in labels or labels.count(label) > 1:
            original = [l for l in labels if labels.count(l) > 1 and label.startswith(l)]
            rec.check(bool(original), "label of saved data", lambda: dict(where, path=path, label=label, labels=labels))
            label = original[0] if original else label
        stripped.append((label, x, y))
    rec.check(match(stripped, panel), "saved data",
              lambda: dict(where, path=path, got=[(l, x[:4], y[:4]) for l, x, y in got], expected=[(l, x[:4], y[:4]) for l, x, y in panel]))
    os.remove(path)


def _plots(job, rec, figures):
    problem, name = job["problem"], job["benchmark"]
    for m in job["meshes"]:
        probe = build_benchmark(problem, name)
        coarse = bottom_line(problem, probe, np.linspace(probe.domain.a, probe.domain.b, m or 200))
        if coarse is not None and np.ptp(coarse[2]) == 0:
            continue
        for k, chosen in enumerate(job["lists"]):
            benchmark = build_benchmark(problem, name)
            solutions, failed = fresh(problem, benchmark, chosen)
            check_grid(rec, problem, benchmark, chosen, solutions)
            values = [(label, s.grid, np.array(s.value, dtype=float)) for label, s in solutions]
            some = OPTIONS if not chosen or k == 1 else [OPTIONS[(5 * k) % 16], OPTIONS[(5 * k + 3) % 16]]
            for initial, hide, files in some:
                figures.saved.clear()
                figures.shown.clear()
                panels, exact, nothing = expected_plot(problem, benchmark, m or 200, values, initial)
                extra = (["-m", str(m)] if m else []) + (["--initial"] if initial else []) + (["--hide"] if hide else [])
                if files in ("plot", "both"):
                    extra += ["--save", "p.x.png"]
                if files in ("data", "both"):
                    extra += ["--save-data", "d.pickle"]
                words = line_of("plot", problem, name, chosen, extra)
                where = dict(words=" ".join(words))
                text = execute(words)
                rec.state("plot", words)
                rec.step()
                rec.valid()
                rec.outcome(f"{problem} exact {exact} failed {failed}")
                rec.check(("exact" in text.lower() or "shock" in text.lower()) == (not exact), "warning for the exact solution", lambda: dict(where, output=text))
                rec.check(text.count("Solution calculated until") == failed, "warnings for failed solvers", lambda: dict(where, output=text))
                rec.check(("Nothing to plot" in text) == nothing, "warning if there is nothing to plot", lambda: dict(where, output=text))
                data = named({"none": "data/plot.pkl", "plot": "p.x.pkl"}.get(files, "d.pickle"), problem)
                if nothing:
                    rec.check(not figures.saved and not any(os.path.exists(p) for p in data), "files without a plot", where)
                    plt.close("all")
                    continue
                targets = named("p.x.png", problem) if files in ("plot", "both") else []
                rec.check(sorted(figures.saved) == sorted(targets), "saved plots", lambda: dict(where, got=sorted(figures.saved), expected=targets))
                for path, panel in zip(targets, panels):
                    got = figures.saved.get(path)
                    rec.check(got is not None and len(got["axes"]) == 1 and match(got["axes"][0], panel), "lines of a saved plot",
                              lambda: dict(where, path=path, got=got, expected=panel))
                for path, panel in zip(data, panels):
                    check_data(rec, path, panel, where)
                rec.check(len(figures.shown) == (0 if hide else 1), "figures are shown", lambda: dict(where, shown=len(figures.shown)))
                if not hide and figures.shown:
                    shown = [a for f in figures.shown[0] for a in f["axes"]]
                    rec.check(len(shown) == len(panels) and all(any(match(a, p) for a in shown) for p in panels), "lines of shown figures",
                              lambda: dict(where, got=shown, expected=panels))
                rest = [f for f in os.listdir(".") if f != "data"] + os.listdir("data")
                rec.check(not rest, "other files", lambda: dict(where, files=rest))
                rec.check(not hide or not plt.get_fignums(), "hidden figures stay open", where)
                plt.close("all")


def _targets(job, rec, figures):
    """Default targets of plots, data and animations."""
    problem = job["problem"]
    benchmark = build_benchmark(problem, None)
    solutions, _ = fresh(problem, benchmark, ["llf"])
    values = [(label, s.grid, np.array(s.value)) for label, s in solutions]
    panels, _, _ = expected_plot(problem, benchmark, 200, values, False)
    os.makedirs("deep/er")
    for save, data in itertools.product([None, [], ["a.png"], ["deep/er/b.c.svg"]], [None, ["e.pkl"], ["deep/f"]]):
        figures.saved.clear()
        words = line_of("plot", problem, None, ["llf"], ["--hide"] + (["--save", *save] if save is not None else []) + (["--save-data", *data] if data else []))
        execute(words)
        target = None if save is None else (save[0] if save else "data/plot.png")
        saved_data = data[0] if data else (os.path.splitext(target)[0] + ".pkl" if target else "data/plot.pkl")
        rec.state("target", words)
        rec.step()
        rec.valid()
        rec.check(sorted(figures.saved) == sorted(named(target, problem) if target else []), "saved plots", lambda: dict(words=words, got=sorted(figures.saved)))
        for path, panel in zip(named(saved_data, problem), panels):
            check_data(rec, path, panel, dict(words=words))
    for save in (None, [], ["deep/er/c.mp4"]):
        figures.animations.clear()
        words = line_of("animate", problem, None, ["llf"], ["--hide"] + (["--save", *save] if save is not None else []))
        execute(words)
        rec.state("target", words)
        rec.step()
        got = [p for a in figures.animations for p, _ in a.saved]
        rec.check(got == ([] if save is None else save or ["data/animation.mp4"]), "saved animation", dict(words=words, got=got))
    rec.outcome(problem)


# ------------------------------------------------------------------ animations
def interpolate(times, values, t):
    times = np.asarray(times, dtype=float)
    if t <= times[0]:
        return np.asarray(values[0], dtype=float)
    if t >= times[-1]:
        return np.asarray(values[-1], dtype=float)
    k = int(np.searchsorted(times, t, side="right")) - 1
    s = (t - times[k]) / (times[k + 1] - times[k])
    return (1 - s) * np.asarray(values[k], dtype=float) + s * np.asarray(values[k + 1], dtype=float)


def check_animation(rec, figures, problem, benchmark, m, steps, start, solutions, functions, where, hide=False, save=None, duration=20.0):
    """SOLUTIONS: (label, grid, times, values), FUNCTIONS: (label, f(x, t))."""
    if not rec.check(len(figures.animations) == 1, "number of animations", lambda: dict(where, got=len(figures.animations))):
        return
    animation = figures.animations[0]
    grid = np.linspace(benchmark.domain.a, benchmark.domain.b, m)
    times = set(np.linspace(benchmark.start_time, benchmark.end_time, steps))
    for _, _, history, _ in solutions:
        times |= set(float(t) for t in history)
    times = sorted(times)
    wanted = [t for t in times if t >= (benchmark.start_time if start is None else start)]
    frames = animation.play()
    rec.check(len(frames) == len(wanted), "number of frames", lambda: dict(where, got=len(frames), expected=len(wanted)))
    order = list(range(len(frames)))
    # frames may be shown in any order
    for k in order + order[::-5]:
        if k >= len(wanted):
            continue
        t = wanted[k]
        texts, axes = frames[k] if order and k in order else animation.play([animation.frames[k]])[0]
        panels = [[] for _ in range(3 if problem == "swe" else 1)]
        for label, x, history, values in solutions:
            for panel, line in zip(panels, split(problem, benchmark, label, x, interpolate(history, values, t))):
                panel.append(line)
        for label, f in functions:
            for panel, line in zip(panels, split(problem, benchmark, label, grid, [f(x, t) for x in grid])):
                panel.append(line)
        if problem == "swe":
            panels[0].append(("$b$", grid, np.array([benchmark.bathymetry(x) for x in grid], dtype=float)))
        ok = len(axes) == len(panels) and all(match(a, p, 1e-9) for a, p in zip(axes, panels))
        if not rec.check(ok, "lines of a frame", lambda: dict(where, time=t, got=axes, expected=panels)):
            return
        shown = [float(x) for text in texts for x in re.findall(r"-?\d+\.?\d*", text)]
        rec.check(len(shown) == 1 and abs(shown[0] - t) <= 0.0051, "time shown", lambda: dict(where, time=t, texts=texts))
    for k in order[::-3]:
        again = animation.play([animation.frames[k]])[0]
        rec.check(again[0] == frames[k][0] and all(match(a, b) for a, b in zip(again[1], frames[k][1])), "frames depend on their order",
                  lambda: dict(where, frame=k))
    check_duration(rec, animation, len(frames), duration, where)
    rec.check([p for p, _ in animation.saved] == ([save] if save else []), "saved animation", lambda: dict(where, got=animation.saved))
    rec.check(len(figures.shown) == (0 if hide else 1), "animation is shown", lambda: dict(where, shown=len(figures.shown)))


def check_duration(rec, animation, count, duration, where):
    """The clip, saved or shown, lasts DURATION (with or without the last frame)."""
    if animation.interval is not None:
        shown, slack = count * animation.interval / 1e3, (count + animation.interval) / 1e3
        rec.check(abs(shown - duration) <= 0.01 * duration + slack, "duration of a shown animation",
                  lambda: dict(where, frames=count, interval=animation.interval, expected=duration))
    for _, options in animation.saved:
        rate = options.get("fps")
        rate = getattr(options.get("writer"), "fps", None) if rate is None else rate
        rate = 1e3 / animation.interval if rate is None else rate
        ok = rate > 0 and abs(count / rate - duration) <= 0.01 * duration + 1 / rate
        rec.check(ok, "duration of a saved animation", lambda: dict(where, frames=count, rate=rate, expected=duration))


def _durations(job, rec, figures):
    """Numbers of frames against durations, from all starting times."""
    problem = job["problem"]
    cls = ShallowWaterAnimator if problem == "swe" else ScalarAnimator
    benchmark = world(problem, 4)
    for steps, duration, start in itertools.product((2, 3, 7, 19, 20, 39, 101), (None, 0.5, 1, 2.5, 7, 20, 33.3, 120), (None, 0.3, 1.0)):
        for times in TIMES[:4:3]:
            figures.animations.clear()
            figures.shown.clear()
            animator = cls(benchmark, mesh_size=3, time_steps=steps, start_time=start, show=False, save="m.mp4", duration=duration)
            animator.set_suptitle("T")
            solution, x, rows = history(problem, times, 4, 0)
            animator.add_animatable(solution, "a")
            with silence():
                animator.show()
            where = dict(problem=problem, steps=steps, start=start, duration=duration, times=times)
            rec.state("durations", where)
            rec.step()
            rec.valid()
            if rec.check(len(figures.animations) == 1 and [p for p, _ in figures.animations[0].saved] == ["m.mp4"], "saved animation", where):
                check_duration(rec, figures.animations[0], len(figures.animations[0].frames), duration or 20.0, where)
    for k, duration in enumerate(("0.5", "3", "20", "50")):
        figures.animations.clear()
        figures.shown.clear()
        words = line_of("animate", problem, None, list(SOLVERS[problem])[:1], ["-m", "3", "--time_steps", "4", "--save", "m.mp4", "--duration", duration, "--hide"])
        execute(words)
        rec.state("durations", words)
        rec.step()
        rec.valid()
        if rec.check(len(figures.animations) == 1, "number of animations", words):
            check_duration(rec, figures.animations[0], len(figures.animations[0].frames), float(duration), dict(words=words))
        rec.outcome(f"duration {duration}")


def functions_of(problem, benchmark, initial):
    result = []
    grid = np.linspace(benchmark.domain.a, benchmark.domain.b, 3)
    if sample(lambda x: benchmark.exact_solution(x, 0.0), grid) is not None:
        result.append(("exact" if problem != "swe" else ("$h+b$", "$q$", "$u$"), benchmark.exact_solution))
    if initial:
        result.append(("$u_0$" if problem != "swe" else ("$h_0+b$", "$q_0$", "$u_0$"), lambda x, t: benchmark.initial_data(x)))
    return result


def _movies(job, rec, figures):
    problem, name = job["problem"], job["benchmark"]
    end = SPECIAL.get(name, END[problem])
    table = [
        (5, 3, None, False, False, None), (4, 6, 0.5 * end, True, True, "m.mp4"), (6, 2, 0.3 * end, False, True, None),
        (5, 4, end, True, False, "n.gif"), (3, 1, None, True, True, None),
    ]
    for k, chosen in enumerate(job["lists"]):
        benchmark = build_benchmark(problem, name)
        solutions, failed = fresh(problem, benchmark, chosen, save_history=True)
        histories = [(label, s.grid, s.time_history, s.value_history) for label, s in solutions]
        for m, steps, start, initial, hide, save in table if len(chosen) < 2 or job["deep"] else [table[k % 4]]:
            if steps == 1 and start is None and not histories:
                pass
            figures.animations.clear()
            figures.shown.clear()
            extra = ["-m", str(m), "--time_steps", str(steps)]
            extra += (["-t", repr(start)] if start else []) + (["--initial"] if initial else []) + (["--hide"] if hide else [])
            extra += ["--save", save] if save else []
            words = line_of("animate", problem, name, chosen, extra)
            where = dict(words=" ".join(words))
            text = execute(words)
            functions = functions_of(problem, benchmark, initial)
            rec.state("animate", words)
            rec.step()
            rec.valid()
            rec.outcome(f"{problem} functions {len(functions)} failed {failed}")
            nothing = not functions and not histories
            rec.check(("Nothing to animate" in text) == nothing, "warning if there is nothing to animate", lambda: dict(where, output=text))
            rec.check(text.count("Solution calculated until") == failed, "warnings for failed solvers", lambda: dict(where, output=text))
            if nothing:
                rec.check(not any(a.saved for a in figures.animations) and not figures.shown, "empty animation", where)
                continue
            check_animation(rec, figures, problem, benchmark, m, steps, start, histories, functions, where, hide, save)


TIMES = [[0, 1], [0, 0.5, 1], [0, 0.25, 0.75, 1], [0, 0.4], [0, 0.1, 0.9]]


class History(core.DiscreteSolutionWithHistory):
    pass


def history(problem, times, n, shift):
    domain = core.Interval(0.0, float(n))
    space = finite_volume.FiniteVolumeSpace(core.UniformMesh(domain, n))
    rows = []
    for k, _ in enumerate(times):
        if problem == "swe":
            rows.append(np.array([[1.0 + (i + k + shift) % 3, (-1.0) ** (i + k) * (shift + 1)] for i in range(n)]))
        else:
            rows.append(np.array([float((2 * i + 3 * k + shift) % 5 - 2) for i in range(n)]))
    s = core.DiscreteSolutionWithHistory(core.DiscreteSolution(rows[0], initial_time=times[0], space=space))
    for t0, t1, row in zip(times, times[1:], rows[1:]):
        s.update(t1 - t0, row)
    return s, centers(domain, n), rows


def world(problem, n):
    if problem == "swe":
        w = WaterWorld([(1, 0)] * n, bottom=[0.1 * i for i in range(n)], boundary="periodic", length=float(n), end_time=1.0)
    else:
        w = ScalarWorld(problem, [0.0] * n, length=float(n), end_time=1.0)
    return w


def _animator(job, rec, figures):
    """All pairs of histories, with functions and starting times."""
    problem = job["problem"]
    cls = ShallowWaterAnimator if problem == "swe" else ScalarAnimator
    n = 4
    late = benchmark = world(problem, n)
    if problem == "swe":
        function = lambda x, t: np.array([2.0 + x * t, 1.0 - t])
    else:
        function = lambda x, t: x - 3 * t * t
    early = world(problem, n)
    early.start_time = -0.5  # time zero lies in the middle
    for original_b in [None, *TIMES]:
        starts = [(0.0, s) for s in (None, 0.0, 0.05, 0.5, 0.9, 1.0)] + [(-0.5, s) for s in (None, -0.25, 0.0, 0.25)]
        for steps, (origin, start), with_function in itertools.product((2, 3, 7) if job["deep"] else (3,), starts, (False, True)):
            benchmark = early if origin else late
            times_a, times_b = ([-0.5 + 1.5 * t for t in v] if origin and v else v for v in (TIMES[job["a"]], original_b))
            figures.animations.clear()
            figures.shown.clear()
            animator = cls(benchmark, mesh_size=5, time_steps=steps, start_time=start, show=False)
            animator.set_suptitle("T")
            given, functions = [], []
            for label, times, size, shift in [("a", times_a, n, 0), ("a", times_b, 2 * n if times_b == [0, 1] else n, 2)]:
                if times is not None:
                    solution, x, rows = history(problem, times, size, shift)
                    if size != n:
                        solution, x, rows = history(problem, times, n, shift)
                    animator.add_animatable(solution, label)
                    given.append((label, x, times, rows))
            if with_function:
                animator.add_animatable(function, "f")
                functions.append(("f", function))
            with silence():
                animator.show()
            where = dict(problem=problem, a=times_a, b=times_b, steps=steps, start=start, function=with_function)
            rec.state("animator", problem, times_a, times_b, steps, start, with_function)
            rec.step()
            rec.valid()
            check_animation(rec, figures, problem, benchmark, 5, steps, start, given, functions, where, True)
    figures.animations.clear()
    animator = cls(benchmark, show=False)
    try:
        animator.show()
        rec.violate("an empty animation is shown")
    except NothingToAnimateError:
        rec.outcome("empty")


def _long(job, rec, figures):
    """Histories of many times and of many cells together with short ones."""
    problem, size = job["problem"], job["size"]
    cls = ShallowWaterAnimator if problem == "swe" else ScalarAnimator
    fine = [k / 4096 for k in range(size)] + [1.0]
    for n, others in [(4, [0, 0.25, 1]), (4, fine[::7]), (4, None), (130, None)]:
        if n > 4 and size > 200:
            continue
        benchmark = world(problem, n)
        figures.animations.clear()
        figures.shown.clear()
        animator = cls(benchmark, mesh_size=5, time_steps=3, show=False)
        animator.set_suptitle("T")
        given = []
        for label, times, shift in [("a", fine, 0), ("b", others, 2)]:
            if times is not None:
                solution, x, rows = history(problem, times, n, shift)
                animator.add_animatable(solution, label)
                given.append((label, x, times, rows))
        with silence():
            animator.show()
        rec.state("long", problem, size, n, others)
        rec.step(size)
        rec.valid()
        check_animation(rec, figures, problem, benchmark, 5, 3, None, given, [], dict(problem=problem, size=size, n=n), True)
    rec.outcome(f"long {problem} {size}")


# --------------------------------------------------------------------- plotter
OPERATIONS = ["initial", "exact", "function", "values", "other"]


def _plotter(job, rec, figures):
    """All sequences of operations of a plotter, and repeated plotters."""
    problem = job["problem"]
    cls = ShallowWaterPlotter if problem == "swe" else ScalarPlotter
    if problem == "swe":
        f = lambda x: np.array([1.0 + x * x, -x])
        values = np.array([[1.0, 2.0], [0.5, -1.0], [3.0, 0.0]])
        benchmarks = [shallow_water.LakeAtRestBenchmark(0.75), shallow_water.OscillationNoTopographyBenchmark(0.75)]
    else:
        f = lambda x: x * x - 0.25
        values = np.array([1.0, -2.0, 0.5])
        benchmarks = [advection.CosineBenchmark(0.75), burgers.SchockBenchmark(0.75)]
        if problem == "burgers":
            benchmarks = [burgers.SmoothBenchmark(0.75), burgers.SmoothBenchmark(1.5)]
    for benchmark in benchmarks:
        points = np.array([0.1, 0.3, 0.85]) * benchmark.domain.length + benchmark.domain.a
        # as many points as the grid of the plotter, at other positions
        many_points = centers(benchmark.domain, 6)
        many_values = np.concatenate([values, values[::-1] + 0.25])
        for depth in range(1, job["depth"] + 1):
            for rest in itertools.product(OPERATIONS, repeat=depth - 1):
                word = [job["first"], *rest]
                figures.saved.clear()
                figures.shown.clear()
                plotter = cls(benchmark, mesh_size=6, show=False, save_plot="p.png", save_data="d.pkl")
                grid = np.linspace(benchmark.domain.a, benchmark.domain.b, 6)
                panels = [[] for _ in range(3 if problem == "swe" else 1)]
                for op in word:
                    label, x, v = None, grid, None
                    failed = False
                    if op == "initial":
                        plotter.add_initial_data()
                        label, v = ("$u_0$" if problem != "swe" else ("$h_0$", "$q_0$", "$v_0$")), sample(benchmark.initial_data, grid)
                    elif op == "exact":
                        v = sample(lambda x: benchmark.exact_solution(x, benchmark.end_time), grid)
                        label = exact_labels(problem, benchmark)
                        try:
                            plotter.add_exact_solution()
                        except Exception:
                            failed = True
                        rec.check(failed == (v is None), "exact solution which does not exist", dict(word=word, benchmark=repr(benchmark)))
                    elif op == "function":
                        plotter.add_function(f, "f")
                        label, v = "f", sample(f, grid)
                    elif op == "values":
                        plotter.add_function_values(points, values, "v")
                        label, x, v = "v", points, values
                    else:
                        three = ("1", "2", "3") if problem == "swe" else ("1",)
                        plotter.add_function_values(many_points, many_values, *three)
                        label, x, v = (three if problem == "swe" else "1"), many_points, many_values
                    if v is not None:
                        for panel, line in zip(panels, split(problem, benchmark, label, x, v)):
                            panel.append(line)
                rec.state("plotter", problem, repr(benchmark), word)
                rec.step(depth)
                rec.valid()
                where = dict(problem=problem, benchmark=repr(benchmark), word=word)
                empty = not panels[0]
                try:
                    with silence():
                        plotter.show()
                    raised = False
                except NothingToPlotError:
                    raised = True
                rec.check(raised == empty, "nothing to plot", where)
                rec.outcome("empty" if empty else "plot")
                if empty:
                    rec.check(not figures.saved, "saved without a plot", where)
                    plt.close("all")
                    continue
                bottom = bottom_line(problem, benchmark, grid)
                if bottom is not None:
                    panels[0].append(bottom)
                rec.check(sorted(figures.saved) == sorted(named("p.png", problem)), "saved plots", lambda: dict(where, got=sorted(figures.saved)))
                for path, panel in zip(named("p.png", problem), panels):
                    rec.check(path in figures.saved and match(figures.saved[path]["axes"][0], panel), "lines of a saved plot",
                              lambda: dict(where, path=path, got=figures.saved.get(path), expected=panel))
                for path, panel in zip(named("d.pkl", problem), panels):
                    check_data(rec, path, panel, where)


SCALES = [(1.0, 1.0), (1e-4, 1e-4), (1e-9, 1e-9), (1e-4, 1.0), (1e8, 1e8), (1.0, 1e-13)]
SIZES = [1, 2, 150, 700]


def scaled_rows(problem, n, scale, k=0):
    """Values of all scales; the last scale is a nearly constant state."""
    height, discharge = scale
    if discharge == 1e-13:
        if problem == "swe":
            return np.array([[1.0 + 1e-13 * ((i + k) % 3), 1e-13 * (-1) ** (i + k)] for i in range(n)])
        return np.array([1.0 + 1e-13 * ((i + k) % 3) for i in range(n)])
    if problem == "swe":
        return np.array([[height * (1 + (i + k) % 3), discharge * ((2 * i + k) % 5 - 2)] for i in range(n)])
    return np.array([height * ((2 * i + 3 * k) % 5 - 2) for i in range(n)])


def close(got, expected):
    """As match, up to rounding errors of the values themselves."""
    lines = {label: (x, y) for label, x, y in got}
    return len(got) == len(expected) and all(
        label in lines and lines[label][1].shape == np.shape(y)
        and bool(np.all(np.abs(lines[label][0] - x) <= 1e-11 * (1 + np.abs(x))))
        and bool(np.all(np.abs(lines[label][1] - y) <= 2e-14 * np.max(np.abs(y))))
        for label, x, y in expected)


def _scales(job, rec, figures):
    """Plots and animations of thin, large and nearly constant states with few and
    many points and times, and of many lines with the same label."""
    problem = job["problem"]
    water = problem == "swe"
    plotter_cls, animator_cls = (ShallowWaterPlotter, ShallowWaterAnimator) if water else (ScalarPlotter, ScalarAnimator)
    benchmark = shallow_water.OscillationNoTopographyBenchmark(1.0) if water else advection.CosineBenchmark(1.0)
    for scale, n in itertools.product(SCALES, SIZES):
        figures.saved.clear()
        plotter = plotter_cls(benchmark, mesh_size=7, show=False, save_plot="p.png", save_data="d.pkl")
        grid = np.linspace(benchmark.domain.a, benchmark.domain.b, n)
        panels = [[] for _ in range(3 if water else 1)]
        for k, label in enumerate("abc"):
            values = scaled_rows(problem, n, scale, k)
            plotter.add_function_values(grid, values, label)
            for panel, line in zip(panels, split(problem, benchmark, label, grid, values)):
                panel.append(line)
        with silence():
            plotter.show()
        rec.state("scaled plot", problem, scale, n)
        rec.step(3)
        rec.valid()
        rec.outcome("plot")
        where = dict(problem=problem, scale=scale, points=n)
        for path, data, panel in zip(named("p.png", problem), named("d.pkl", problem), panels):
            lines = figures.saved[path]["axes"][0] if path in figures.saved else []
            rec.check(close(lines, panel), "lines of a saved plot", lambda: dict(where, path=path, got=lines, expected=panel))
            ok = rec.check(os.path.exists(data), "data are not saved", lambda: dict(where, path=data))
            rec.check(ok and close(read_data(data), panel), "saved data", lambda: dict(where, path=data, got=read_data(data), expected=panel))
            if ok:
                os.remove(data)

    for repeats in (9, 10, 11, 25):
        plotter = plotter_cls(benchmark, mesh_size=7, show=False, save_data="d.pkl")
        grid = np.linspace(benchmark.domain.a, benchmark.domain.b, 3)
        panels = [[] for _ in range(3 if water else 1)]
        for k in range(repeats):
            values = scaled_rows(problem, 3, (1.0, 1.0)) * (k + 1)
            for label in ("v", "w") if k % 2 else ("v",):
                plotter.add_function_values(grid, values, label)
                for panel, line in zip(panels, split(problem, benchmark, label, grid, values)):
                    panel.append(line)
        with silence():
            plotter.show()
        rec.state("repeated labels", problem, repeats)
        rec.step(repeats)
        rec.valid()
        rec.outcome("repeated")
        for path, panel in zip(named("d.pkl", problem), panels):
            check_data(rec, path, panel, dict(problem=problem, repeats=repeats))

    histories = [[0, 1e-9, 0.5, 0.5 + 1e-9, 1.0], list(np.linspace(0, 1, 61)), [0, 1 - 1e-13, 1.0]]
    for scale, n, times in itertools.product(SCALES, (3, 130), histories):
        figures.animations.clear()
        figures.shown.clear()
        flat = world(problem, n)
        if water:
            flat.bathymetry = lambda x: 0.0
        animator = animator_cls(flat, mesh_size=4, time_steps=3, show=False)
        animator.set_suptitle("T")
        domain = core.Interval(0.0, float(n))
        space = finite_volume.FiniteVolumeSpace(core.UniformMesh(domain, n))
        rows = [scaled_rows(problem, n, scale, k) for k in range(len(times))]
        solution = core.DiscreteSolutionWithHistory(core.DiscreteSolution(rows[0], initial_time=times[0], space=space))
        for a, b, row in zip(times, times[1:], rows[1:]):
            solution.update(b - a, row)
        times = [float(t) for t in solution.time_history]
        animator.add_animatable(solution, "a")
        with silence():
            animator.show()
        rec.state("scaled animation", problem, scale, n, times)
        rec.step(len(times))
        rec.valid()
        rec.outcome("animation")
        where = dict(problem=problem, scale=scale, cells=n, times=len(times))
        if not rec.check(len(figures.animations) == 1, "number of animations", where):
            continue
        wanted = sorted({0.0, 0.5, 1.0} | set(times))
        frames = figures.animations[0].play()
        rec.check(len(frames) == len(wanted), "number of frames", lambda: dict(where, got=len(frames), expected=len(wanted)))
        for (_, axes), t in zip(frames, wanted):
            if t not in times:
                continue  # interpolated values are compared above
            panels = [[line] for line in split(problem, flat, "a", centers(domain, n), rows[times.index(t)])]
            shown = [[line for line in lines if line[0] != "$b$"] for lines in axes]
            if not rec.check(all(close(a, p) for a, p in zip(shown, panels)), "lines of a frame", lambda: dict(where, time=t, got=shown, expected=panels)):
                break


# --------------------------------------------------------------------- failing
class Failure(Exception):
    pass


def _failing(job, rec, figures):
    """Solvers which stop at a time: the computed part is shown, the others as
    well, and a warning is written on demand."""
    problem = job["problem"]
    names = list(SOLVERS[problem])
    plotter_cls = ShallowWaterPlotter if problem == "swe" else ScalarPlotter
    animator_cls = ShallowWaterAnimator if problem == "swe" else ScalarAnimator
    benchmark = build_benchmark(problem, None)
    complete = {}
    benchmark.end_time = 0.03 if problem != "swe" else 1.0
    for chosen in [[names[:1], names[:2], names[1:4], names[:4]][job["group"]]]:
        for stops in itertools.product((None, 0, 1, 3), repeat=min(len(chosen), 3)):
            stops = [*stops, *[None] * (len(chosen) - len(stops))]
            if not job["deep"] and len(chosen) > 2 and stops.count(None) < 2:
                continue
            for warnings, executed in itertools.product((True, False), (False, True)):
                animate = job["animate"]
                solvers, stop_times = [], []
                for c, stop in zip(chosen, stops):
                    _, build, label = SOLVERS[problem][c]
                    solver = build(benchmark, short=c, save_history=True)
                    if stop is not None:
                        interrupt(solver, stop)
                    if executed:
                        try:
                            solve(solver)
                        except Failure:
                            pass
                    solvers.append(solver)
                expected = []
                for c, stop in zip(chosen, stops):
                    if c not in complete:
                        complete[c] = SOLVERS[problem][c][1](benchmark, save_history=True)
                        solve(complete[c])
                    solver = complete[c]
                    times, values = list(solver.solution.time_history), solver.solution.value_history
                    if stop is not None:
                        times, values = times[:stop + 1], values[:stop + 1]
                    expected.append((c, solver.solution.grid, times, values))
                figures.saved.clear()
                figures.animations.clear()
                figures.shown.clear()
                single = solvers[0] if len(solvers) == 1 else solvers
                with capture() as output:
                    if animate:
                        animator = animator_cls(benchmark, mesh_size=4, time_steps=3, show=False)
                        Animate(benchmark, single, animator, solver_executed=executed, write_warnings=warnings).execute()
                    else:
                        plotter = plotter_cls(benchmark, mesh_size=4, show=False, save_plot="p.png")
                        Plot(benchmark, single, plotter, solver_executed=executed, write_warnings=warnings).execute()
                where = dict(problem=problem, chosen=chosen, stops=stops, warnings=warnings, executed=executed, animate=animate)
                failures = [] if executed or not warnings else [e[2][-1] for e, s in zip(expected, stops) if s is not None and e[2][-1] < benchmark.end_time]
                reported = [float(x) for x in re.findall(r"calculated until t=([-+.0-9e]+[0-9])", output.text)]
                rec.state("failing", where)
                rec.step()
                rec.valid()
                rec.outcome(f"{len(failures)} failed")
                rec.check(len(reported) == len(failures) and all(abs(a - b) <= 1e-3 * abs(b) for a, b in zip(reported, failures)),
                          "reported times of failures", lambda: dict(where, got=reported, expected=failures))
                rec.check(warnings or "WARNING" not in output.text, "unwanted warnings", lambda: dict(where, output=output.text))
                if animate:
                    check_animation(rec, figures, problem, benchmark, 4, 3, None, expected, functions_of(problem, benchmark, False), where, True)
                else:
                    panels, _, _ = expected_plot(problem, benchmark, 4, [(l, x, np.array(v[-1])) for l, x, _, v in expected], False)
                    for path, panel in zip(named("p.png", problem), panels):
                        rec.check(path in figures.saved and match(figures.saved[path]["axes"][0], panel), "lines of a saved plot",
                                  lambda: dict(where, path=path, got=figures.saved.get(path), expected=panel))


def interrupt(solver, stop):
    """Lets the solution reject the step after STOP steps."""
    solution = solver.solution
    original = solution.update
    count = [0]

    def update(*args, **kwargs):
        if count[0] == stop:
            raise Failure("stopped")
        count[0] += 1
        original(*args, **kwargs)

    solution.update = update
