"""Parameter variation tests.  The command is run with small real solvers, directly and
through the parser, for all sequences of variations without repetition and all kinds
of references, with the other options cycling through all combinations, for different
spellings of the directory, and for all sets of failing computations.  The figures
are recorded when they are saved; their files and lines are compared with fresh
solvers on the random benchmarks of the seed with the varied parameter.  All kinds of
exceptions and series of many benchmarks are included."""
import itertools
import os

import numpy as np

from .. import networks
from ..core import capture, scratch_directory, silence
from ..figures import plt, record

import benchmark.shallow_water as bw
import finite_volume.shallow_water.solver as SW
from command import PARSER_COMMANDS, ParameterVariationTest
from command.parameter_variation_test import PARAMETER_VARIATIONS
from parser import CustomArgumentParser

from ..worlds import close, solve
from .c28 import EXCEPTIONS, interpolate, reference

ASSUMPTIONS = [
    "figures are recorded when they are saved, animations are recorded instead of encoded",
    "random benchmarks of a seed and their parameters are those of the generator (decided by another property)",
    "solvers are built for the end time of the command, which the command line does",
    "the directory of references differs from the names of the variations",
]
VALUES = {
    "height-average": ("height_average", "H0", [0.8 * bw.HEIGHT_AVERAGE, 1.2 * bw.HEIGHT_AVERAGE], dict(height_wave_number=2)),
    "wave-number": ("height_wave_number", "kh", [10, 15], {}),
    "amplitude": ("height_amplitude", "A", [0.8, 1.0, 1.5], {}),
}
SEQUENCES = [list(p) for n in range(4) for p in itertools.permutations(VALUES, n)]
REFERENCES = [None, "references", "base"]


def jobs(tier):
    deep = tier == "thorough"
    result = []
    for sequence in SEQUENCES:
        for references in REFERENCES:
            if len(sequence) == 3 and references == "base" and not deep:
                continue
            result.append(dict(kind="run", sequence=sequence, references=references, deep=deep))
    for mode in ("coarse", "llf"):
        for name in VALUES:
            result.append(dict(kind="failing", mode=mode, name=name, deep=deep))
    result += [dict(kind="exceptions"), dict(kind="many", deep=deep)]
    result += [dict(kind="directories", deep=deep), dict(kind="history", deep=deep)]
    return result


def run(job, rec):
    with networks.directory(scratch_directory()):
        with record() as figures:
            globals()["_" + job["kind"]](job, rec, figures)


# -------------------------------------------------------------------- oracles
WORDS = {
    "coarse": ["llf", "+m", "4", "+s", "app", "coarse", "+m", "8", "+c", "2", "++cfl", "0.1"],
    "llf": ["llf", "+m", "6", "++cfl", "0.2", "low-order", "+m", "6"],
}


def build(mode, benchmark):
    if mode == "coarse":
        return (
            SW.LaxFriedrichsSolver(benchmark, mesh_size=4, save_history=True, cfl_number=0.1, short="app"),
            SW.CoarseSolver(benchmark, mesh_size=8, coarsening_degree=2, save_history=True, cfl_number=0.1, short="coarse"),
        )
    return (
        SW.LaxFriedrichsSolver(benchmark, mesh_size=6, save_history=True, cfl_number=0.2, short="llf"),
        SW.LowOrderSolver(benchmark, mesh_size=6, save_history=True, cfl_number=0.1, short="low-order"),
    )


CACHE = {}


def fresh(mode, seed, end_time, number, parameters):
    """Seed, solutions and errors for the benchmarks of a series."""
    key = (mode, seed, end_time, number, tuple(sorted(parameters.items())))
    if key not in CACHE:
        generator = bw.RandomBenchmarkGenerator(seed, end_time, **parameters)
        result = []
        for _ in range(number):
            benchmark = generator()
            with silence():
                solvers = build(mode, benchmark)
                for solver in solvers:
                    solve(solver)
            a, b = (s.solution for s in solvers)
            lengths = [cell.length for cell in a.space.mesh]
            times, errors = reference(list(a.time_history), a.value_history, list(b.time_history), b.value_history, lengths)
            result.append((benchmark.seed, [(s.short, np.array(s.solution.grid), np.array(s.solution.value)) for s in solvers], times, errors))
        CACHE[key] = result
    return CACHE[key]


def expected_files(mode, sequence, references, prefix, number, seed, end_time, plot, movie, failing=()):
    """Path -> expected content; FAILING numbers the failing computations."""
    files, counter = {}, itertools.count()

    def series(directory, average, parameters):
        averaged = []
        for i, (s, solutions, times, errors) in enumerate(fresh(mode, seed, end_time, number, parameters)):
            if next(counter) in failing:
                continue
            averaged.append((times, errors))
            files[f"{directory}/error_{i}.png"] = ("error", s, times, errors)
            if plot:
                for k, suffix in enumerate("hqv"):
                    files[f"{directory}/plot_{i}_{suffix}.png"] = ("plot", k, solutions)
            if movie:
                files[f"{directory}/animation_{i}.mp4"] = ("movie",)
        if averaged:
            shortest = averaged[int(np.argmin([len(t) for t, _ in averaged]))][0]
            mean = np.mean([interpolate(t, e, shortest) for t, e in averaged], axis=0)
            for k, suffix in enumerate("hq"):
                files[f"{average}_average_{suffix}.png"] = ("average", shortest, mean[:, k])

    if references:
        series(references, f"{references}/{prefix or 'error'}", {})
    for name in sequence:
        parameter, short, values, extra = VALUES[name]
        for value in values:
            series(f"{parameter}/{value}", f"{parameter}/{short}_{value}", {parameter: value, **extra})
    return files


def compare(rec, figures, directory, expected, where, prefix=None):
    """PREFIX is put in front of all names instead of joining them to DIRECTORY."""
    base = os.path.normpath(directory)
    expected = {os.path.normpath(os.path.join(base, k) if prefix is None else prefix + k): v for k, v in expected.items()}
    order = [os.path.normpath(p) for p in figures.order]
    rec.check(sorted(set(order)) == sorted(expected), "files", lambda: dict(where, missing=sorted(set(expected) - set(order)), other=sorted(set(order) - set(expected))))
    rec.check(len(order) == len(set(order)), "files are overwritten", lambda: dict(where, files=sorted(p for p in set(order) if order.count(p) > 1)))
    saved = {os.path.normpath(k): v for k, v in figures.saved.items()}
    for path, content in expected.items():
        if content[0] == "movie" or path not in saved:
            continue
        lines = [line for axes in saved[path]["axes"] for line in axes]
        detail = lambda: dict(where, path=path, got=saved[path], expected=content)
        if content[0] == "error":
            _, seed, times, errors = content
            by_name = {label.split()[0]: (x, y) for label, x, y in lines}
            ok = len(lines) == 2 and set(by_name) == {"Height", "Discharge"}
            ok = ok and all(close(by_name[n][0], times, 1e-9) and close(by_name[n][1], errors[:, k], 1e-7, 1e-9) for k, n in enumerate(("Height", "Discharge")))
            rec.check(ok, "lines of an error plot", detail)
            rec.check(str(seed) in saved[path]["title"], "seed in the title of an error plot", lambda: dict(where, path=path, title=saved[path]["title"], seed=seed))
        elif content[0] == "average":
            _, times, mean = content
            ok = len(lines) == 1 and close(lines[0][1], times, 1e-9) and close(lines[0][2], mean, 1e-7, 1e-9)
            rec.check(ok, "mean of the errors", detail)
        else:
            _, k, solutions = content
            got = {label: (x, y) for label, x, y in lines}
            wanted = {label: (x, values[:, k] if k < 2 else values[:, 1] / values[:, 0]) for label, x, values in solutions}
            ok = len(lines) == len(wanted) and set(got) == set(wanted)
            ok = ok and all(close(got[l][0], wanted[l][0], 1e-9) and close(got[l][1], wanted[l][1], 1e-9, 1e-9) for l in wanted)
            rec.check(ok, "lines of a plot", detail)
    rec.check(not figures.shown and not plt.get_fignums(), "figures are shown or stay open", where)


def clear(figures):
    figures.saved.clear()
    figures.order.clear()
    figures.shown.clear()
    figures.animations.clear()
    plt.close("all")


def execute(mode, directory, sequence, options):
    """Runs the command line."""
    words = ["parameter-variation-test", directory]
    for key, flag in (("end_time", "-T"), ("seed", "--seed"), ("number", "-n"), ("references", "--references"), ("prefix", "--references-prefix")):
        if options.get(key) is not None:
            words += [flag, str(options[key])]
    words += (["--save-plot"] if options.get("plot") else []) + (["--save-animation"] if options.get("movie") else [])
    words += (["-v", *sequence] if sequence else []) + ["-s", *WORDS[mode]]
    with capture() as output:
        arguments = CustomArgumentParser(PARSER_COMMANDS).parse_arguments(words)
        values = {k: v for k, v in vars(arguments).items() if k not in ("args", "profile", "command")}
        arguments.command(**values).execute()
    return words, output.text


def direct(mode, directory, sequence, options, failing=None, *error):
    """Runs the command."""
    start = bw.OscillationNoTopographyBenchmark(options["end_time"])
    with silence():
        approximation, exact = build(mode, start)
    if failing is not None:
        approximation = Failing(approximation, failing, *error)
    with capture() as output:
        ParameterVariationTest(
            approximation, exact, directory, initial_data_number=options["number"], seed=options["seed"], end_time=options["end_time"],
            references=options["references"], references_prefix=options["prefix"],
            parameter_variations=[PARAMETER_VARIATIONS[n] for n in sequence], save_plot=options["plot"], save_animation=options["movie"],
        ).execute()
    return output.text


def Failing(solver, failing, error=ValueError("planned failure.")):
    """Solves of the given numbers fail, some of them after the computation."""
    original, calls = solver.solve, itertools.count()

    def solve(*args, **kwargs):
        number = next(calls)
        if number in failing:
            if number % 2:
                original(*args, **kwargs)
            raise error
        return original(*args, **kwargs)

    solver.solve = solve
    return solver


OPTIONS = [
    dict(mode=mode, number=number, seed=seed, end_time=end, plot=plot, movie=movie, prefix=prefix)
    for (mode, number, seed, end), (plot, movie, prefix) in itertools.product(
        [("coarse", 2, 3, 0.5), ("llf", 1, 1, 1.0), ("llf", 2, 7, 0.5), ("coarse", 1, 5, 2.0)],
        [(False, False, None), (True, False, "p"), (False, True, None)])
]


def _run(job, rec, figures):
    sequence, references = job["sequence"], job["references"]
    index = SEQUENCES.index(sequence) * 3 + REFERENCES.index(references)
    chosen = OPTIONS if len(sequence) <= 1 or job["deep"] else [OPTIONS[(5 * index + k) % 12] for k in (0, 4)]
    for option in chosen:
        options = dict(option, references=references)
        expected = expected_files(options["mode"], sequence, references, options["prefix"], options["number"], options["seed"], options["end_time"], options["plot"], options["movie"])
        for how in (execute, direct) if len(sequence) <= 1 else (execute,):
            clear(figures)
            how(options["mode"], "results/", sequence, options)
            where = dict(sequence=sequence, options=options, how=how.__name__)
            rec.state("run", where)
            rec.step(options["number"])
            rec.valid()
            compare(rec, figures, "results", expected, where)
            rec.outcome(f"{len(expected)} files")
            rec.check(set(os.listdir(".")) <= {"results"}, "other directories", lambda: dict(where, got=os.listdir(".")))


def _failing(job, rec, figures):
    """All sets of failing computations."""
    mode, name = job["mode"], job["name"]
    values = len(VALUES[name][2])
    total = 2 * values
    for references in (None, "references") if job["deep"] else (None,):
        count = total + (2 if references else 0)
        for size in range(count + 1):
            for failing in itertools.combinations(range(count), size):
                if not job["deep"] and 2 < size < count - 1 and sum(failing) % 3:
                    continue
                options = dict(number=2, seed=4, end_time=0.5, references=references, prefix=None, plot=size == 1, movie=False)
                expected = expected_files(mode, [name], references, None, 2, 4, 0.5, size == 1, False, failing)
                clear(figures)
                text = direct(mode, "results/", [name], options, failing)
                where = dict(mode=mode, name=name, failing=failing, references=references)
                rec.state("failing", where)
                rec.step(count)
                rec.valid()
                compare(rec, figures, "results", expected, where)
                rec.check(text.count("planned failure.") == len(failing), "warnings for failures", lambda: dict(where, output=text))
                rec.outcome(f"{size} of {count} fail")


def _exceptions(job, rec, figures):
    """All kinds of failures."""
    name = "amplitude"
    for error, failing in itertools.product(EXCEPTIONS, [(0,), (1, 5), (2, 3)]):
        options = dict(number=2, seed=4, end_time=0.5, references=None, prefix=None, plot=False, movie=False)
        expected = expected_files("llf", [name], None, None, 2, 4, 0.5, False, False, failing)
        clear(figures)
        where = dict(error=repr(error), failing=failing)
        rec.state("exception", where)
        rec.step(6)
        try:
            text = direct("llf", "results/", [name], options, failing, error)
        except type(error):
            rec.violate("the test ends with a failing computation", where)
            continue
        rec.valid()
        compare(rec, figures, "results", expected, where)
        rec.check(text.count("WARNING") >= len(failing), "warnings for failures", lambda: dict(where, output=text))
        rec.outcome(type(error).__name__)


def _many(job, rec, figures):
    """Many initial data."""
    for number, failing in [(9, (0, 1, 2, 3, 4, 5, 6, 7)), (12, (1, 2, 3, 4, 6, 7, 8, 9, 10, 13)), (17, (0, 10, 16)), (9, ())] + ([(34, ()), (70, (64,))] if job["deep"] else []):
        options = dict(number=number, seed=6, end_time=0.3, references="references", prefix=None, plot=False, movie=False)
        expected = expected_files("llf", ["wave-number"], "references", None, number, 6, 0.3, False, False, failing)
        clear(figures)
        direct("llf", "results/", ["wave-number"], options, failing)
        where = dict(number=number, failing=failing)
        rec.state("many", where)
        rec.step(3 * number)
        rec.valid()
        compare(rec, figures, "results", expected, where)
        rec.outcome(f"many {number}")


def _directories(job, rec, figures):
    """Spellings of the directory, existing directories and files in it."""
    options = dict(mode="llf", number=1, seed=2, end_time=0.5, references="references", prefix=None, plot=False, movie=False)
    expected = expected_files("llf", ["wave-number"], "references", None, 1, 2, 0.5, False, False)
    root = os.getcwd()
    for directory in ("results/", "results", "a/b", "a/b/", "./c", "d.e/", os.path.join(root, "f"), os.path.join(root, "g", ""), ".", ""):
        for how, repeat in itertools.product((execute, direct), range(2)):
            if directory == "" and how is execute:
                continue
            clear(figures)
            if repeat and directory:
                os.makedirs(directory, exist_ok=True)
                with open(os.path.join(directory, "keep.png"), "w") as f:
                    f.write("keep")
            how("llf", directory, ["wave-number"], options)
            where = dict(directory=directory, how=how.__name__, repeat=repeat)
            rec.state("directory", where)
            rec.step()
            rec.valid()
            beside = directory + "height_wave_number/10/error_0.png"
            if directory and not directory.endswith("/") and any(os.path.normpath(p) == os.path.normpath(beside) for p in figures.order):
                # a known finding: the directory is merely a prefix of the names
                rec.violate("files lie beside the directory", where, "directory-without-slash")
                compare(rec, figures, directory, expected, where, directory)
            else:
                compare(rec, figures, directory or ".", expected, where)
            if repeat and directory:
                with open(os.path.join(directory, "keep.png")) as f:
                    rec.check(f.read() == "keep", "other files are changed", where)
                os.remove(os.path.join(directory, "keep.png"))
    rec.outcome("directories")


def _history(job, rec, figures):
    """Commands after each other with the same solvers and variations: earlier runs
    do not change later ones."""
    with silence():
        solvers = build("llf", bw.OscillationNoTopographyBenchmark(0.5))
    actions = [(["wave-number"], 1, 0.5, None), (["height-average"], 2, 0.5, "references"), ([], 1, 0.5, "base"), (["amplitude", "wave-number"], 3, 0.5, None)]
    for word in itertools.product(range(len(actions)), repeat=3 if job["deep"] else 2):
        for k in word:
            sequence, seed, end, references = actions[k]
            clear(figures)
            with capture():
                ParameterVariationTest(
                    *solvers, "results/", initial_data_number=1, seed=seed, end_time=end, references=references,
                    parameter_variations=[PARAMETER_VARIATIONS[n] for n in sequence],
                ).execute()
            where = dict(word=word, at=k)
            rec.state("history", word)
            rec.step()
            rec.valid()
            compare(rec, figures, "results", expected_files("llf", sequence, references, None, 1, seed, end, False, False), where)
        rec.outcome(str(len(set(word))))
    for name, (parameter, short, values, extra) in VALUES.items():
        variation = PARAMETER_VARIATIONS[name]
        rec.check(list(variation.values) == list(values) and variation.benchmark_defaults == extra, "variations are changed", dict(name=name))
