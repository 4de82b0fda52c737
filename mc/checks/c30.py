"""Command lines.  The real parser is run on all solver specifications (all subsets
of the options of every solver, with values in all spellings, including names,
shorts and fluxes which equal solver keys), all permutations of full specifications,
all sequences of specifications up to a length, all combinations of task options of
every command, and all ordered sequences of command lines in one process.  Solver
types are replaced by stand-ins which record their arguments, so that every
constructed solver is compared with the specification; in a second space the real
solvers are built from all specifications and compared with directly built ones, in
their attributes and in their complete solutions.  The main script is executed with
recording stand-ins.  Invalid lines must be rejected."""
import importlib.machinery
import importlib.util
import itertools
import os
import sys

import numpy as np

import core
import defaults
import finite_element.scalar.solver as fem
import finite_volume.scalar.solver as fv
import finite_volume.shallow_water.solver as swe
from benchmark import advection, burgers, shallow_water
from command import (
    PARSER_COMMANDS, SCALAR_SOLVER_PARSER, SHALLOW_WATER_SOLVER_PARSER, AnalyzeData, Calculate, CalculateEOC, DeleteCurvature,
    GenerateData, Help, ParameterVariationTest, PlotCurvatureAgainstSubgridFlux, PlotShallowWaterErrorEvolution, PrintNetwork,
    Test, TrainNetwork,
)
from command.generate_data import DIRECTORIES
from command.parameter_variation_test import PARAMETER_VARIATIONS
from parser import CustomArgumentParser

from .. import networks, worlds
from ..core import REPO, capture, scratch_directory, silence

ASSUMPTIONS = [
    "stand-ins replace the solver type of a solver parser where the arguments are compared; the real types are built in the second space",
    "values of options do not start with the prefix characters - and +",
]
CLASSES = {
    "scalar": {
        "cg": fem.ContinuousGalerkinSolver, "cg-low": fem.LowOrderContinuousGalerkinSolver, "mcl-fem": fem.MCLSolver,
        "llf": fv.LaxFriedrichsSolver, "central": fv.CentralFluxSolver, "mcl-fv": fv.MCLSolver,
    },
    "swe": {
        "llf": swe.LaxFriedrichsSolver, "lw": swe.LaxWendroffSolver, "low-order": swe.LowOrderSolver, "central": swe.CentralFluxSolver,
        "es": swe.EnergyStableSolver, "es1": swe.FirstOrderDiffusiveEnergyStableSolver, "mcl": swe.MCLSolver,
        "reduced-llf": swe.ReducedLaxFriedrichsSolver, "reduced-llf-2": swe.ReducedLaxFriedrichs2Solver,
        "antidiffusion": swe.LinearAntidiffusiveSolver, "coarse": swe.CoarseSolver,
    },
}
NAMES = {
    "cg": "Continuous Galerkin", "cg-low": "Low order Continuous Galerkin", "mcl-fem": "Finite Element MCL Solver",
    "llf": "Lax-Friedrichs finite volume scheme", "central": "Central scheme", "mcl-fv": "Finite Volume MCL Solver",
    "lw": "Lax-Wendroff finite volume scheme", "low-order": "Low order finite volume scheme", "es": "Energy stable finite volume scheme",
    "es1": "Energy stable finite volume scheme with first order diffusion", "mcl": "MCL Solver",
    "reduced-llf": "Reduced Lax Friedrichs Solver", "reduced-llf-2": "Second Reduced Lax Friedrichs Solver",
    "antidiffusion": "Solver with antidiffusion.", "coarse": "Coarsened Solver.",
}
ODE = {"euler": core.ForwardEuler, "heun": core.Heun, "ssp3": core.StrongStabilityPreservingRungeKutta3}
FLUX = ["central", "es", "es1", "llf", "low-order", "reduced-llf", "reduced-llf-2"]
FLUX_SOLVERS = ("mcl", "antidiffusion", "coarse")
WITHOUT_INTEGRATOR = [("scalar", "cg"), ("scalar", "llf"), ("scalar", "central"), ("swe", "lw"), ("swe", "central")]
FEM = ("cg", "cg-low", "mcl-fem")
PROBLEMS = {"advection": (advection, "scalar"), "burgers": (burgers, "scalar"), "swe": (shallow_water, "swe")}


def default_options(key):
    """The documented default of every option."""
    result = dict(name=NAMES[key], short=key, mesh_size=400, cfl_number=0.1)
    if key in FEM:
        result["polynomial_degree"] = 1
        result["cfl_number"] = 0.1 if key == "cg" else 1.0
    if key.startswith("reduced"):
        result["mesh_size"] = 50
        result["cfl_number"] = 0.1 / 8 if key == "reduced-llf" else 0.1 / 40
    if key == "antidiffusion":
        result["gamma"] = 0.1
    if key == "coarse":
        result["coarsening_degree"] = 8
    return result


def spellings(short, long, value):
    result = [[long, value], [f"{long}={value}"]]
    return [[short, value], *result] if short else result


def options(group, key, rich=True):
    """Alternatives of every option: lists of (words, expected updates)."""
    keys = list(CLASSES[group])
    result = [
        [(w, dict(name=v)) for v in ("x", keys[0], "a b") for w in spellings("+n", "++name", v)],
        [(w, dict(short=v)) for v in ("y", keys[-1]) for w in spellings("+s", "++short", v)],
        [(w, dict(mesh_size=int(v))) for v in ("1", "7") for w in spellings("+m", "++mesh-size", v)],
        [(w, dict(cfl_number=float(v))) for v in ("0.25", "1e-3") for w in spellings(None, "++cfl", v)],
    ]
    if (group, key) not in WITHOUT_INTEGRATOR:
        result.append([(w, dict(ode_solver_type=ODE[v])) for v in ODE for w in spellings("+o", "++ode-solver", v)])
    if key in FEM:
        result.append([(w, dict(polynomial_degree=int(v))) for v in ("1", "2", "7") for w in spellings("+p", "++polynomial-degree", v)])
    if key == "cg":
        result.append([(["++exact-flux"], dict(exact_flux=True))])
    if key in ("cg-low", "mcl-fem"):
        result.append([(["++adaptive"], dict(adaptive=True))])
    if key == "antidiffusion":
        result.append([(w, dict(gamma=float(v))) for v in ("0.5", "2", "0") for w in spellings("+g", "++gamma", v)] + [(["++gamma=-0.5"], dict(gamma=-0.5))])
    if key == "coarse":
        result.append([(w, dict(coarsening_degree=int(v))) for v in ("1", "3") for w in spellings("+c", "++coarsening-degree", v)])
    if key in FLUX_SOLVERS:
        result.append([(w, dict(flux_getter=swe.SHALLOW_WATER_FLUX_GETTER[v])) for v in FLUX for w in spellings("+f", "++flux", v)])
    return result


def specifications(group, key):
    """All subsets of the options; one alternative each, cycling through all of
    them; and all alternatives of every single option and every pair."""
    table = options(group, key)
    counters = [itertools.cycle(a) for a in table]
    for subset in itertools.product([0, 1], repeat=len(table)):
        chosen = [next(counters[i]) for i, bit in enumerate(subset) if bit]
        yield [key] + sum([w for w, _ in chosen], []), merge(key, [u for _, u in chosen])
    for i, j in itertools.combinations(range(len(table)), 2):
        for a, b in itertools.product(table[i], table[j]):
            yield [key] + a[0] + b[0], merge(key, [a[1], b[1]])


def merge(key, updates):
    result = default_options(key)
    for update in updates:
        result.update(update)
    return result


# ------------------------------------------------------------------- stand-ins
class StandIn(core.Solver):
    def __init__(self, key, benchmark, kwargs):
        self.key = key
        self.benchmark = benchmark
        self.kwargs = dict(kwargs)
        self.name = kwargs.get("name")
        self.short = kwargs.get("short")
        self.solved = []
        self.solution = StandInSolution()

    def reinitialize(self, benchmark):
        raise AssertionError

    def as_dict(self):
        return {"name": self.name}

    def solve(self, **kwargs):
        self.solved.append(kwargs)


class StandInSolution:
    space = "space"
    time = 0.0


class stand_ins:
    """Context in which solver parsers yield stand-ins; all created ones are kept."""

    def __enter__(self):
        self.created = []
        self.saved = []
        for group, parsers in [("scalar", SCALAR_SOLVER_PARSER), ("swe", SHALLOW_WATER_SOLVER_PARSER)]:
            for key, solver_parser in parsers.items():
                self.saved.append((solver_parser, solver_parser.solver))
                solver_parser.solver = self._factory(solver_parser.solver)
        return self

    def _factory(self, original):
        def build(benchmark, **kwargs):
            solver = StandIn(original, benchmark, kwargs)
            self.created.append(solver)
            return solver

        return build

    def __exit__(self, *args):
        for solver_parser, solver in self.saved:
            solver_parser.solver = solver
        return False


def parse(words, parser=None):
    """Arguments or None if the line is rejected."""
    parser = parser or CustomArgumentParser(PARSER_COMMANDS)
    with silence():
        try:
            return parser.parse_arguments(list(words))
        except SystemExit as error:
            return None


def matches(solver, group, key, expected):
    """Does a stand-in have the class and exactly the options given?"""
    got, want = given(solver.kwargs), given(expected)
    if solver.key is not CLASSES[group][key] or set(got) != set(want):
        return False
    return all(got[k] is want[k] or (not callable(want[k]) and type(got[k]) is type(want[k]) and got[k] == want[k]) for k in want)


def given(options):
    """Heun's method is the default integrator."""
    return {k: v for k, v in options.items() if v is not None and v is not False and v is not core.Heun}


def compare(rec, words, group, solvers, specs):
    ok = solvers is not None and len(solvers) == len(specs) and all(
        matches(s, group, key, expected) for s, (key, expected) in zip(solvers, specs)
    )
    return rec.check(ok, "solvers differ from the command line",
                     lambda: dict(words=words, got=None if solvers is None else [(s.key.__name__, repr(s.kwargs)) for s in solvers],
                                  expected=repr(specs)))


def jobs(tier):
    deep = tier == "thorough"
    result = []
    for group in CLASSES:
        for key in CLASSES[group]:
            result.append(dict(kind="specs", group=group, key=key))
            result.append(dict(kind="permutations", group=group, key=key, deep=deep))
            parts = 6 if key in ("cg-low", "mcl-fem") else 1
            result += [dict(kind="real", group=group, key=key, deep=deep, part=i, parts=parts) for i in range(parts)]
            result.append(dict(kind="sequences", group=group, key=key, deep=deep))
    for problem in PROBLEMS:
        result.append(dict(kind="benchmarks", problem=problem))
        result.append(dict(kind="rejected", problem=problem))
    result += [dict(kind=k, deep=deep) for k in ("digits", "generate", "errors", "networks", "other", "main")]
    result += [dict(kind="variation", part=i) for i in range(3)]
    count = len(lines())
    result += [dict(kind="histories", first=i, deep=deep) for i in range(count)]
    return result


def run(job, rec):
    with networks.directory(scratch_directory()):
        globals()["_" + job["kind"]](job, rec)


def problem_of(group):
    return "swe" if group == "swe" else "advection"


# -------------------------------------------------------------- specifications
def _specs(job, rec):
    group, key = job["group"], job["key"]
    parser = CustomArgumentParser(PARSER_COMMANDS)
    with stand_ins():
        for words, expected in specifications(group, key):
            line = ["calculate", problem_of(group), "-s", *words]
            arguments = parse(line, parser)
            rec.state("spec", group, words)
            rec.step()
            rec.valid()
            if rec.check(arguments is not None, "rejected", dict(words=line)):
                compare(rec, line, group, arguments.solver, [(key, expected)])
                rec.check(arguments.command is Calculate, "command", dict(words=line))
    rec.outcome(key)


def full(group, key, index=0):
    """One specification with all options; INDEX chooses the alternative."""
    chosen = [a[index % len(a)] for a in options(group, key)]
    return [key] + sum([w for w, _ in chosen], []), merge(key, [u for _, u in chosen])


def _permutations(job, rec):
    group, key = job["group"], job["key"]
    parser = CustomArgumentParser(PARSER_COMMANDS)
    with stand_ins():
        for index in range(9) if job["deep"] else (0, 1, 5):
            chosen = [a[index % len(a)] for a in options(group, key)]
            expected = merge(key, [u for _, u in chosen])
            for order in itertools.permutations(range(len(chosen))):
                if not job["deep"] and len(chosen) > 5 and order[0] > 1:
                    continue
                words = [key] + sum([chosen[i][0] for i in order], [])
                line = ["calculate", problem_of(group), "-s", *words]
                arguments = parse(line, parser)
                rec.state("order", group, words)
                rec.step()
                rec.valid()
                compare(rec, line, group, arguments and arguments.solver, [(key, expected)])
    rec.outcome(key)


def small(group):
    """A few specifications of every solver."""
    result = []
    for key in CLASSES[group]:
        result.append(([key], key, merge(key, [])))
        for index in (0, 2):
            words, expected = full(group, key, index)
            result.append((words, key, expected))
        other = [k for k in CLASSES[group] if k != key][0]
        result.append(([key, "+s", other], key, merge(key, [dict(short=other)])))
        result.append(([key, "+n", key, "+m", "3"], key, merge(key, [dict(name=key, mesh_size=3)])))
        if key in FLUX_SOLVERS:
            result.append(([key, "++flux", "llf"], key, merge(key, [dict(flux_getter=swe.SHALLOW_WATER_FLUX_GETTER["llf"])])))
    return result


def _sequences(job, rec):
    group, key, deep = job["group"], job["key"], job["deep"]
    parser = CustomArgumentParser(PARSER_COMMANDS)
    specs = small(group)
    bare = [([k], k, merge(k, [])) for k in CLASSES[group]]
    named = bare + [([k, "+n", "llf"], k, merge(k, [dict(name="llf")])) for k in CLASSES[group]]
    first = [s for s in specs if s[1] == key]
    spaces = [
        itertools.product(first, specs),
        itertools.product([s for s in (named if deep else bare) if s[1] == key], bare, named if deep else bare),
        itertools.product([b for b in bare if b[1] == key], bare[:4], bare[-4:], bare[:4] if deep else bare[:2]),
        itertools.product([b for b in bare if b[1] == key], *[[bare[0], bare[-1]]] * (6 if deep else 4)),
    ]
    with stand_ins():
        for space in spaces:
            for sequence in space:
                words = sum([s[0] for s in sequence], [])
                line = ["calculate", problem_of(group), "-s", *words]
                arguments = parse(line, parser)
                rec.state("sequence", group, words)
                rec.step()
                rec.valid()
                compare(rec, line, group, arguments and arguments.solver, [(k, e) for _, k, e in sequence])
                rec.outcome(f"{len(sequence)} solvers")


# ---------------------------------------------------------------- real solvers
def smallest(group, key, deep):
    """Specifications on small meshes: all subsets of the other options, all
    alternatives of every option."""
    table = options(group, key)
    m = "24" if key == "coarse" else "8"
    mesh = [(["+m", m], dict(mesh_size=int(m)))]
    rest = [a for a in table if "mesh_size" not in a[0][1]]
    values = []
    for alternatives in rest:
        distinct = {}
        for words, update in alternatives:
            distinct.setdefault(repr(sorted(update.items(), key=repr)), (words, update))
        values.append(list(distinct.values()))
    if deep:
        subsets = itertools.product([0, 1], repeat=len(values))
    else:
        subsets = [[int(i == k) for i in range(len(values))] for k in range(-1, len(values))] + [[1] * len(values)]
    counters = [itertools.cycle(v) for v in values]
    for subset in subsets:
        chosen = mesh + [next(counters[i]) for i, bit in enumerate(subset) if bit]
        yield [key] + sum([w for w, _ in chosen], []), merge(key, [u for _, u in chosen])
    for i, alternatives in enumerate(values):
        for words, update in alternatives:
            yield [key, "+m", m, *words], merge(key, [dict(mesh_size=int(m)), update])
    for m in ("8", "16", "48") if key == "coarse" else ("4", "8", "12"):
        yield [key, "+m", m], merge(key, [dict(mesh_size=int(m))])
    yield [key], merge(key, [])


def _real(job, rec):
    group, key, deep = job["group"], job["key"], job["deep"]
    problem = problem_of(group)
    parser = CustomArgumentParser(PARSER_COMMANDS)
    with networks.directory():
        for words, expected in list(smallest(group, key, deep))[job["part"]::job["parts"]]:
            tiny = expected["mesh_size"] > 100
            T = 0.002 if group == "scalar" else 0.0002
            if not tiny:
                T = 0.01 if group == "swe" or key in FEM else 0.05
            if expected["cfl_number"] < 0.01 and key in FEM:
                T /= 50
            line = ["calculate", problem, "-T", str(T), "-s", *words]
            for save in (False, True):
                if save:
                    if group != "swe" or tiny:
                        continue
                    line = ["plot-error-evolution", "-T", str(T), "-s", *words, "llf", "+m", "8"]
                try:
                    direct = build(group, key, problem, T, expected, save)
                except Exception as error:
                    direct = error
                with silence():
                    try:
                        solver = parser.parse_arguments(line).solver[0]
                    except Exception as error:
                        solver = error
                rec.state("real", line)
                rec.step()
                rec.valid()
                if isinstance(direct, Exception) or isinstance(solver, Exception):
                    rec.check(type(direct) is type(solver), "construction of the solver", lambda: dict(line=line, got=repr(solver), expected=repr(direct)))
                    rec.outcome("fails")
                    continue
                same_solver(rec, line, solver, direct, expected, save)
    rec.outcome(key)


def build(group, key, problem, T, expected, save=False):
    benchmark = PROBLEMS[problem][0].BENCHMARK_DEFAULTS["calculate"]()
    benchmark.end_time = T
    kwargs = {k: v for k, v in expected.items()}
    if save:
        kwargs["save_history"] = True
    with silence():
        return CLASSES[group][key](benchmark, **kwargs)


def same_solver(rec, line, solver, direct, expected, save):
    rec.check(type(solver) is type(direct), "type of the solver", lambda: dict(line=line, got=type(solver).__name__))
    rec.check(solver.name == expected["name"] and solver.short == expected["short"], "name or short",
              lambda: dict(line=line, name=solver.name, short=solver.short))
    coarse = expected.get("coarsening_degree", 1)
    degree = expected.get("polynomial_degree", 1)
    rec.check(len(solver.solution.space.mesh) * coarse == expected["mesh_size"], "mesh size",
              lambda: dict(line=line, got=len(solver.solution.space.mesh)))
    rec.check(len(solver.solution.value) * coarse == expected["mesh_size"] * degree, "dimension",
              lambda: dict(line=line, got=len(solver.solution.value)))
    for s in (solver, direct):
        with silence(), np.errstate(all="ignore"):
            try:
                s.solve()
                s.failed = None
            except Exception as error:
                s.failed = type(error)
    ok = solver.failed is direct.failed and solver.solution.time == direct.solution.time
    ok = ok and np.array_equal(solver.solution.value, direct.solution.value, equal_nan=True)
    if save:
        ok = ok and np.array_equal(solver.solution.time_history, direct.solution.time_history)
        ok = ok and np.array_equal(solver.solution.value_history, direct.solution.value_history, equal_nan=True)
        # number of steps belongs to the cfl number
        ok = ok and len(solver.solution.time_history) > 1
    else:
        ok = ok and not isinstance(solver.solution, core.DiscreteSolutionWithHistory)
    rec.check(ok, "parsed solver computes something else than a directly built one",
              lambda: dict(line=line, got=solver.solution.value, expected=direct.solution.value, failed=(repr(solver.failed), repr(direct.failed)),
                           times=(solver.solution.time, direct.solution.time)))
    rec.step()
    rec.outcome("history" if save else "solved")


# ------------------------------------------------------------------ benchmarks
def default_benchmark(problem, command):
    return PROBLEMS[problem][0].BENCHMARK_DEFAULTS[command]


def same_benchmark(got, expected):
    if type(got) is not type(expected):
        return False
    points = np.linspace(expected.domain.a, expected.domain.b, 9)
    for name in ("start_time", "end_time"):
        if getattr(got, name) != getattr(expected, name):
            return False
    return all(np.array_equal(got.initial_data(x), expected.initial_data(x)) for x in points)


def _benchmarks(job, rec):
    problem = job["problem"]
    module, group = PROBLEMS[problem]
    key = list(CLASSES[group])[1]
    parser = CustomArgumentParser(PARSER_COMMANDS)
    commands = ["calculate", "eoc"] if group == "scalar" else ["calculate", "plot-error-evolution"]
    choices = [([], None)]
    choices += [([flag, k], cls) for k, cls in module.BENCHMARKS.items() for flag in ("-b", "--benchmark") if k != "random"]
    seeds = [0, 1, 17, 12345] if problem == "swe" else []
    choices += [([flag, str(seed)], seed) for seed in seeds for flag in ("-r", "--random-benchmark")]
    with stand_ins() as stand:
        for command in commands:
            for words, choice in choices:
                for T in (None, "0.5", "1e-3", "7"):
                    for order in range(6):
                        parts = [words, [] if T is None else ["-T", T], ["-s", key, "+m", "4"] + ([key] if command == "plot-error-evolution" else [])]
                        if command == "eoc":
                            parts[2:2] = [["-r", "1"]]
                            if order > 1:
                                continue
                        orders = list(itertools.permutations(range(len(parts))))
                        line = [command] + ([] if command == "plot-error-evolution" else [problem])
                        for i in orders[order * len(orders) // 6]:
                            line += parts[i]
                        arguments = parse(line, parser)
                        rec.state("benchmark", line)
                        rec.step()
                        rec.valid()
                        if not rec.check(arguments is not None, "rejected", dict(line=line)):
                            continue
                        if command == "eoc":
                            solvers = arguments.solvers[0]
                        else:
                            solvers = arguments.solver
                        if choice is None:
                            expected = default_benchmark(problem, "eoc" if command == "eoc" else "calculate")()
                        elif isinstance(choice, int):
                            expected = shallow_water.RandomOscillationNoTopographyBenchmark(choice)
                        else:
                            expected = choice()
                        if T is not None:
                            expected.end_time = float(T)
                        rec.check(all(same_benchmark(s.benchmark, expected) for s in solvers), "benchmark of the solver",
                                  lambda: dict(line=line, got=[(type(s.benchmark).__name__, s.benchmark.end_time) for s in solvers], expected=type(expected).__name__))
                        rec.outcome(f"{command} {type(expected).__name__}")
        if problem == "swe":
            line = ["calculate", "swe", "-b", "random", "-s", "llf"]
            arguments = parse(line, parser)
            ok = arguments is not None and type(arguments.solver[0].benchmark) is shallow_water.BENCHMARKS["random"]
            rec.check(ok, "an available key is rejected", dict(line=line), key="benchmark-random")
            for line in (["calculate", "swe", "-r", "-s", "llf"], ["calculate", "swe", "--random-benchmark", "-T", "0.5", "-s", "llf"]):
                arguments = parse(line, parser)
                rec.step()
                rec.state("benchmark", line)
                benchmark = arguments.solver[0].benchmark
                rec.check(type(benchmark) is shallow_water.RandomOscillationNoTopographyBenchmark, "random benchmark", dict(line=line))
                rec.check(benchmark.end_time == (0.5 if "-T" in line else shallow_water.RandomOscillationNoTopographyBenchmark(1).end_time),
                          "end time of the random benchmark", dict(line=line, got=benchmark.end_time))


# -------------------------------------------------------------------- rejected
def _rejected(job, rec):
    problem = job["problem"]
    group = PROBLEMS[problem][1]
    parser = CustomArgumentParser(PARSER_COMMANDS)
    lines = []
    base = ["calculate", problem, "-s"]
    for key in CLASSES[group]:
        for words in (["+m", "0"], ["+m", "-3"], ["+m", "x"], ["+m", "1.5"], ["++cfl", "0"], ["++cfl", "x"], ["+m"], ["++unknown"], ["word"]):
            lines.append(base + [key, *words])
        allowed = set(default_options(key))
        if (group, key) not in WITHOUT_INTEGRATOR:
            lines.append(base + [key, "+o", "rk9"])
        if "polynomial_degree" in allowed:
            lines += [base + [key, "+p", "0"], base + [key, "+p", "1.5"]]
        else:
            lines.append(base + [key, "+p", "2"])
        if "coarsening_degree" in allowed:
            lines.append(base + [key, "+c", "0"])
        else:
            lines.append(base + [key, "+c", "2"])
        if key not in FLUX_SOLVERS:
            lines.append(base + [key, "+f", "llf"])
        else:
            lines.append(base + [key, "+f", "unknown"])
    others = {"swe": ["cg", "mcl-fv"], "scalar": ["es", "lw", "coarse", "low-order"]}[group]
    first = list(CLASSES[group])[0]
    for key in others + ["unknown"]:
        lines += [base + [key], base + [first, key], base + [key, first]]
    lines += [["calculate", problem, "-b", "unknown", "-s", first], ["calculate", problem, "-T", "0", "-s", first],
              ["calculate", problem, "-T", "x", "-s", first], ["calculate", problem, "-s"], ["calculate"], ["unknown", problem], []]
    if problem == "swe":
        lines += [["calculate", "swe", "-b", "b1", "-r", "3", "-s", "llf"], ["eoc", "swe", "-s", "llf"],
                  ["plot-error-evolution", "-s", "llf"], ["plot-error-evolution", "-s", "llf", "llf", "llf"], ["plot-error-evolution"],
                  ["generate-data"], ["generate-data", "-s", "llf", "es"], ["parameter-variation-test", "d", "-s", "llf"],
                  ["parameter-variation-test", "-s", "llf", "llf"], ["train-network", "unknown"], ["train-network"],
                  ["print-network", "unknown"], ["help", "unknown"], ["analyze-data"], ["delete-curvature", "a"]]
    with stand_ins() as stand:
        for line in lines:
            arguments = None
            with silence():
                try:
                    arguments = parser.parse_arguments(list(line))
                except (SystemExit, Exception):
                    pass
            rec.state("rejected", line)
            rec.step()
            rec.valid()
            rec.check(arguments is None, "invalid command line is accepted", lambda: dict(line=line, got=repr(vars(arguments))))
            rec.outcome("rejected")


# ---------------------------------------------------------------- other commands
def products(table):
    """All choices of (words, updates) of all options."""
    for choice in itertools.product(*table):
        words = sum([w for w, _ in choice], [])
        updates = {}
        for _, u in choice:
            updates.update(u)
        yield words, updates


def option(*alternatives):
    return list(alternatives)


def take(arguments, *ignored):
    result = dict(vars(arguments))
    for name in ("args", "profile") + ignored:
        result.pop(name, None)
    return result


def expect(rec, line, arguments, command, expected):
    """The namespace is exactly the command with the expected arguments."""
    got = None if arguments is None else take(arguments)
    ok = got is not None and got.pop("command", None) is command and set(got) == set(expected) and all(
        type(got[k]) is type(expected[k]) and got[k] == expected[k] for k in expected
    )
    return rec.check(ok, "arguments of the command", lambda: dict(line=line, got=repr(got), expected=repr(expected)))


def _generate(job, rec):
    parser = CustomArgumentParser(PARSER_COMMANDS)
    table = [
        option(([], {}), (["-d", "x/y/"], dict(directory="x/y/")), (["--directory", "llf"], dict(directory="llf"))),
        option(([], dict(end_time=None)), (["-T", "0.5"], dict(end_time=0.5))),
        option(([], dict(coarsening_degree=8)), (["-c", "3"], dict(coarsening_degree=3)), (["--coarsening-degree", "1"], dict(coarsening_degree=1))),
        option(([], dict(solution_number=100)), (["-n", "7"], dict(solution_number=7))),
        option(([], dict(seed=1)), (["--seed", "5"], dict(seed=5))),
        option(([], dict(input_radius=2)), (["-i", "1"], dict(input_radius=1))),
        option(([], dict(node_index=2)), (["--node-index", "4"], dict(node_index=4))),
        option(([], dict(overwrite=True)), (["--append"], dict(overwrite=False))),
    ]
    solvers = [(["llf"], "llf", {}), (["es1", "+m", "9"], "es1", dict(mesh_size=9)), (["lw", "+s", "llf"], "lw", dict(short="llf"))]
    with stand_ins():
        for words, expected in products(table):
            for spec, key, update in solvers:
                line = ["generate-data", *words, "-s", *spec]
                expected = dict(expected)
                short = update.get("short", key)
                if "-d" not in words and "--directory" not in words:
                    if short not in DIRECTORIES:
                        continue
                    expected["directory"] = DIRECTORIES[short]
                arguments = parse(line, parser)
                rec.state("generate", line)
                rec.step()
                rec.valid()
                if arguments is None:
                    rec.violate("rejected", dict(line=line))
                    continue
                solver = arguments.solver
                compare(rec, line, "swe", [solver], [(key, merge(key, [update]))])
                benchmark = shallow_water.OscillationNoTopographyBenchmark()
                if expected["end_time"]:
                    benchmark.end_time = expected["end_time"]
                rec.check(same_benchmark(solver.benchmark, benchmark), "benchmark", dict(line=line))
                del arguments.solver
                expect(rec, line, arguments, GenerateData, expected)
                rec.outcome(key)


def _errors(job, rec):
    parser = CustomArgumentParser(PARSER_COMMANDS)
    table = [
        option(([], {}), (["-T", "0.5"], dict(T=0.5))),
        option(([], dict(save=None)), (["--save", "a/b.png"], dict(save="a/b.png")), (["--save"], dict(save="data/error.png"))),
        option(([], dict(show=True)), (["--hide"], dict(show=False))),
        option(([], {}), (["-b", "b2"], dict(b=shallow_water.BENCHMARKS["b2"])), (["-r", "3"], dict(b=3))),
    ]
    pairs = list(itertools.product(small("swe"), repeat=2))
    pairs = pairs if job["deep"] else pairs[::29]
    with stand_ins():
        for words, options in products(table):
            for first, second in pairs[:: 1 if len(words) < 3 else 7]:
                line = ["plot-error-evolution", *words, "-s", *first[0], *second[0]]
                expected = dict(options)
                T, b = expected.pop("T", None), expected.pop("b", None)
                arguments = parse(line, parser)
                rec.state("errors", line)
                rec.step()
                rec.valid()
                if arguments is None:
                    rec.violate("rejected", dict(line=line))
                    continue
                history = [(s[1], dict(s[2], save_history=True)) for s in (first, second)]
                compare(rec, line, "swe", arguments.solver, history)
                benchmark = shallow_water.BENCHMARK_DEFAULTS["calculate"]() if b is None else (
                    shallow_water.RandomOscillationNoTopographyBenchmark(b) if isinstance(b, int) else b())
                if T:
                    benchmark.end_time = T
                rec.check(all(same_benchmark(s.benchmark, benchmark) for s in arguments.solver), "benchmark", dict(line=line))
                del arguments.solver
                expect(rec, line, arguments, PlotShallowWaterErrorEvolution, expected)
    # eoc: every refinement is built with the options given and solved once
    specs = small("scalar")
    with stand_ins() as stand:
        for problem in ("advection", "burgers"):
            for m, r in itertools.product([None, 1, 5], [None, 1, 3]):
                for first, second in itertools.product(specs, [None] + specs[::4]):
                    chosen = [first] + ([second] if second else [])
                    line = ["eoc", problem] + (["-m", str(m)] if m else []) + (["-r", str(r)] if r else [])
                    line += ["-s"] + sum([c[0] for c in chosen], [])
                    arguments = parse(line, parser)
                    rec.state("eoc", line)
                    rec.step()
                    rec.valid()
                    ok = arguments is not None and len(arguments.solvers) == len(chosen) and len(arguments.solver_spaces) == len(chosen)
                    if not rec.check(ok, "solvers of eoc", dict(line=line)):
                        continue
                    for (words, key, options), solvers, spaces in zip(chosen, arguments.solvers, arguments.solver_spaces):
                        compare(rec, line, "scalar", solvers, [(key, dict(options, mesh_size=(m or 8) * 2**i)) for i in range(r or 4)])
                        rec.check(all(len(s.solved) == 1 for s in solvers) and list(spaces) == ["space"] * len(solvers),
                                  "solutions of eoc", dict(line=line))
                    rec.check(arguments.command is CalculateEOC and set(take(arguments)) == {"benchmark", "solvers", "solver_spaces", "command"},
                              "command", lambda: dict(line=line, got=repr(vars(arguments))))
                    rec.outcome("eoc")


def _variation(job, rec):
    parser = CustomArgumentParser(PARSER_COMMANDS)
    everything = list(PARAMETER_VARIATIONS)
    variations = [([], [])] + [(["-v"], [])] + [(["-v", "all"], everything)]
    for n in (1, 2, 3):
        variations += [(["-v", *p], list(p)) for p in itertools.permutations(everything, n)]
    table = [
        option(([], dict(end_time=None)), (["-T", "0.5"], dict(end_time=0.5))),
        option(([], dict(references=None)), (["--references"], dict(references="references")), (["--references", "ref"], dict(references="ref"))),
        option(([], dict(references_prefix="error")), (["--references-prefix", "p"], dict(references_prefix="p"))),
        option(([], dict(initial_data_number=20)), (["-n", "3"], dict(initial_data_number=3))),
        option(([], dict(seed=1)), (["--seed", "9"], dict(seed=9))),
        option(([], dict(save_plot=False)), (["--save-plot"], dict(save_plot=True))),
        option(([], dict(save_animation=False)), (["--save-animation"], dict(save_animation=True))),
    ]
    variations = variations[job["part"]::3]
    with stand_ins():
        for words, expected in products(table):
            for v, names in variations:
                line = ["parameter-variation-test", "dir/", *words, *v, "-s", "reduced-llf", "+m", "4", "coarse", "+c", "2"]
                arguments = parse(line, parser)
                rec.state("variation", line)
                rec.step()
                rec.valid()
                if arguments is None:
                    rec.violate("rejected", dict(line=line))
                    continue
                compare(rec, line, "swe", [arguments.solver_approximation, arguments.solver_exact],
                        [("reduced-llf", merge("reduced-llf", [dict(mesh_size=4, save_history=True)])),
                         ("coarse", merge("coarse", [dict(coarsening_degree=2, save_history=True)]))])
                del arguments.solver_approximation, arguments.solver_exact
                got = list(arguments.parameter_variations)
                rec.check(len(got) == len(names) and all(g is PARAMETER_VARIATIONS[n] for g, n in zip(got, names)), "variations",
                          lambda: dict(line=line, got=[repr(g) for g in got], expected=names))
                del arguments.parameter_variations
                rest = take(arguments)
                want = dict(expected, directory="dir/", command=ParameterVariationTest)
                # the end time is either handed on or a property of the benchmark of the solvers
                rest.setdefault("end_time", want["end_time"])
                rec.check(rest == want, "arguments of the command", lambda: dict(line=line, got=repr(rest), expected=repr(want)))
                rec.outcome(str(len(names)))
    for name, (values, attribute, short) in {
        "height-average": ([0.8 * shallow_water.HEIGHT_AVERAGE, 1.2 * shallow_water.HEIGHT_AVERAGE], "height_average", "H0"),
        "wave-number": ([10, 15], "height_wave_number", "kh"), "amplitude": ([0.8, 1.0, 1.5], "height_amplitude", "A"),
    }.items():
        variation = PARAMETER_VARIATIONS[name]
        rec.step()
        rec.check(list(variation.values) == values and variation.name == attribute and variation.short == short, "values of a variation", dict(name=name))


def _networks(job, rec):
    parser = CustomArgumentParser(PARSER_COMMANDS)
    table = [
        option(([], dict(epochs=500)), (["-e", "3"], dict(epochs=3)), (["--epochs", "1"], dict(epochs=1))),
        option(([], dict(skip=1)), (["--skip", "4"], dict(skip=4))),
        option(([], dict(seed=None)), (["--seed", "7"], dict(seed=7))),
        option(([], dict(confirm=False)), (["--confirm"], dict(confirm=True))),
        option(([], dict(plot_loss=False)), (["--plot-loss"], dict(plot_loss=True))),
    ]
    parameters = [([], {}), (["-p", "lr", "0.5"], dict(lr=0.5)), (["--parameter", "lr", "0.25", "-p", "max_epochs", "3"], dict(lr=0.25, max_epochs=3.0))]
    for key, cls in swe.NETWORK_TYPES.items():
        default = cls()
        for words, expected in products(table):
            for p, values in parameters:
                for position in (0, 1):
                    line = ["train-network"] + ([key, *words, *p] if position == 0 else [*words, *p, key])
                    arguments = parse(line, parser)
                    rec.state("train", line)
                    rec.step()
                    rec.valid()
                    if arguments is None:
                        rec.violate("rejected", dict(line=line))
                        continue
                    network = arguments.network
                    rec.check(type(network) is cls and network.warm_start is True, "network", dict(line=line))
                    for name in ("lr", "max_epochs", "batch_size"):
                        rec.check(getattr(network, name) == values.get(name, getattr(default, name)), "network parameter",
                                  lambda: dict(line=line, name=name, got=getattr(network, name)))
                    del arguments.network
                    expect(rec, line, arguments, TrainNetwork, expected)
        arguments = parse(["print-network", key], parser)
        rec.step()
        rec.state("print", key)
        rec.check(type(arguments.network) is cls and arguments.command is PrintNetwork, "print-network", dict(key=key))
        rec.outcome(key)


def _other(job, rec):
    parser = CustomArgumentParser(PARSER_COMMANDS)
    cases = []
    for hide, save in itertools.product([0, 1], repeat=2):
        cases.append((["analyze-curvature"] + ["--hide"] * hide + ["--save"] * save, PlotCurvatureAgainstSubgridFlux, dict(show=not hide, save=bool(save))))
    for n in (1, 2, 3):
        for paths in itertools.product(["a.csv", "b/c.csv", "llf"], repeat=n):
            for histogram in (0, 1):
                cases.append((["analyze-data", *paths] + ["--histogram"] * histogram, AnalyzeData, dict(data_paths=list(paths), histogram=bool(histogram))))
    for s, kh, kq in itertools.product([None, "0.5", "2"], [None, "0.25", "3"], [None, "0.75"]):
        line = ["delete-curvature", "in.csv", "out.csv"]
        line += (["-s", s] if s else []) + (["--kh", kh] if kh else []) + (["--kq", kq] if kq else [])
        to = lambda x: None if x is None else float(x)
        cases.append((line, DeleteCurvature, dict(data_path="in.csv", target_path="out.csv", step_length=to(s),
                                                  curvature_height_threshold=to(kh), curvature_discharge_threshold=to(kq))))
    for files in ([], ["core"], ["core", "command"]):
        cases.append((["test", *files], Test, dict(file=files)))
    for line, command, expected in cases:
        arguments = parse(line, parser)
        rec.state("other", line)
        rec.step()
        rec.valid()
        expect(rec, line, arguments, command, expected)
        rec.outcome(command.__name__)
    for key, solver_parser in (SCALAR_SOLVER_PARSER | SHALLOW_WATER_SOLVER_PARSER).items():
        arguments = parse(["help", key], parser)
        rec.step()
        rec.state("help", key)
        rec.check(arguments.command is Help and arguments.parser is solver_parser, "help", dict(key=key))
        with capture() as output:
            Help(arguments.parser).execute()
        rec.check(all(word in output.text for word in ("++name", "++short", "++mesh-size", "++cfl")), "help text", dict(key=key, text=output.text))


# --------------------------------------------------------------------- digits
FLOATS = ["1e-9", "1e-300", "5e-324", "0.0123456789123", "123.000000001", "0.1", "0.30000000000000004", "1e20", "1234567.891011", ".5", "2.",
          "1E-2", "0.00049999", "99999999.5", "1.7976931348623157e308", "007.25", "1_0.5"]
INTEGERS = ["1", "2", "10", "007", "255", "256", "4095", "65536", "123456", "2147483648", "12345678901234567890", "1_000"]


def _digits(job, rec):
    """Numbers of every size and spelling arrive as they are given."""
    parser = CustomArgumentParser(PARSER_COMMANDS)
    cases = []  # line, value expected, how it is found

    def option(group, key, words, name, value):
        cases.append((["calculate", problem_of(group), "-s", key, *words], value, lambda a: a.solver[0].kwargs.get(name)))

    for group in CLASSES:
        for key in CLASSES[group]:
            for text in FLOATS:
                option(group, key, ["++cfl", text], "cfl_number", float(text))
                if key == "antidiffusion":
                    option(group, key, ["++gamma", text], "gamma", float(text))
                    option(group, key, [f"++gamma=-{text}"], "gamma", -float(text))
            for text in INTEGERS:
                option(group, key, ["+m", text], "mesh_size", int(text))
                if key == "coarse":
                    option(group, key, ["+c", text], "coarsening_degree", int(text))
                if key in FEM:
                    option(group, key, ["+p", text], "polynomial_degree", int(text))
    for problem, (_, group) in PROBLEMS.items():
        for text in FLOATS:
            cases.append((["calculate", problem, "-T", text, "-s", "llf"], float(text), lambda a: a.solver[0].benchmark.end_time))
            cases.append((["calculate", problem, "-s", "llf", "++cfl", text, "llf"], float(text), lambda a: a.solver[0].kwargs["cfl_number"]))
    for text in INTEGERS[:9]:
        cases.append((["calculate", "swe", "-r", text, "-s", "llf"], int(text), lambda a: a.solver[0].benchmark.seed))
    for text in FLOATS:
        for flag, name in [("-s", "step_length"), ("--kh", "curvature_height_threshold"), ("--kq", "curvature_discharge_threshold")]:
            cases.append((["delete-curvature", "in.csv", "out.csv", flag, text], float(text), lambda a, name=name: getattr(a, name)))
    with stand_ins():
        for line, value, find in cases:
            arguments = parse(line, parser)
            rec.state("digits", line)
            rec.step()
            rec.valid()
            if not rec.check(arguments is not None, "rejected", dict(line=line)):
                continue
            got = find(arguments)
            rec.check(got == value and type(got) in (type(value), np.int64, np.float64), "value of an option", lambda: dict(line=line, got=got, expected=value))
    rec.outcome("digits")


# ----------------------------------------------------------------- histories
def lines():
    """Command lines with their expected solvers: (line, group, specs, benchmark class, end time)."""
    A, B, S = advection.BENCHMARK_DEFAULTS["calculate"], burgers.BENCHMARK_DEFAULTS["calculate"], shallow_water.BENCHMARK_DEFAULTS["calculate"]
    result = []

    def add(line, group, specs, cls, T):
        result.append((line, group, specs, cls, T))

    add(["calculate", "advection", "-s", "llf"], "scalar", [("llf", merge("llf", []))], A, None)
    add(["calculate", "advection", "-T", "0.5", "-s", "llf", "+n", "cg", "cg", "+p", "3"], "scalar",
        [("llf", merge("llf", [dict(name="cg")])), ("cg", merge("cg", [dict(polynomial_degree=3)]))], A, 0.5)
    add(["calculate", "burgers", "-T", "0.25", "-s", "mcl-fv", "+m", "7", "++cfl", "0.5"], "scalar",
        [("mcl-fv", merge("mcl-fv", [dict(mesh_size=7, cfl_number=0.5)]))], B, 0.25)
    add(["calculate", "burgers", "-b", "smooth", "-s", "cg-low", "++adaptive"], "scalar", [("cg-low", merge("cg-low", [dict(adaptive=True)]))],
        burgers.SmoothBenchmark, None)
    add(["calculate", "advection", "-b", "cos", "-T", "3", "-s", "cg-low"], "scalar", [("cg-low", merge("cg-low", []))], advection.CosineBenchmark, 3.0)
    add(["calculate", "swe", "-T", "0.5", "-s", "mcl", "+f", "llf", "llf", "+m", "3"], "swe",
        [("mcl", merge("mcl", [dict(flux_getter=swe.SHALLOW_WATER_FLUX_GETTER["llf"])])), ("llf", merge("llf", [dict(mesh_size=3)]))], S, 0.5)
    add(["calculate", "swe", "-s", "mcl", "antidiffusion", "coarse", "llf"], "swe", [(k, merge(k, [])) for k in ("mcl", "antidiffusion", "coarse", "llf")], S, None)
    add(["calculate", "swe", "-b", "b1", "-s", "llf", "+o", "euler"], "swe", [("llf", merge("llf", [dict(ode_solver_type=core.ForwardEuler)]))],
        shallow_water.FirstBenchmark, None)
    add(["plot-error-evolution", "-s", "llf", "es", "+s", "llf"], "swe",
        [("llf", merge("llf", [dict(save_history=True)])), ("es", merge("es", [dict(short="llf", save_history=True)]))], S, None)
    add(["plot-error-evolution", "-T", "2", "-s", "coarse", "+c", "4", "antidiffusion", "++gamma", "0.5"], "swe",
        [("coarse", merge("coarse", [dict(coarsening_degree=4, save_history=True)])), ("antidiffusion", merge("antidiffusion", [dict(gamma=0.5, save_history=True)]))], S, 2.0)
    return result


def _histories(job, rec):
    """All sequences of command lines in one process, with one parser or a new one
    for each line."""
    table = lines()
    depth = 4 if job["deep"] else 3
    for shared in (True, False):
        parser = CustomArgumentParser(PARSER_COMMANDS) if shared else None
        for tail in itertools.product(range(len(table)), repeat=depth - 1 if shared else 1):
            history = (job["first"], *tail)
            with stand_ins():
                for index in history:
                    line, group, specs, cls, T = table[index]
                    arguments = parse(line, parser)
                    rec.step()
                    if not compare(rec, [table[i][0] for i in history], group, arguments and arguments.solver, specs):
                        continue
                    expected = cls()
                    if T is not None:
                        expected.end_time = T
                    rec.check(all(type(s.benchmark) is cls and s.benchmark.end_time == expected.end_time for s in arguments.solver),
                              "benchmark depends on earlier command lines",
                              lambda: dict(lines=[table[i][0] for i in history], got=arguments.solver[0].benchmark.end_time))
            rec.state("history", shared, history)
            rec.valid()
    rec.outcome("ok")


# ----------------------------------------------------------------- main script
def load_main():
    path = os.path.join(REPO, "cls1")
    loader = importlib.machinery.SourceFileLoader("cls1_main", path)
    spec = importlib.util.spec_from_loader("cls1_main", loader)
    module = importlib.util.module_from_spec(spec)
    written = sys.dont_write_bytecode
    sys.dont_write_bytecode = True
    try:
        loader.exec_module(module)
    finally:
        sys.dont_write_bytecode = written
    return module


def _main(job, rec):
    main = load_main()
    saved = sys.argv
    table = [
        ["calculate", "advection", "-s", "llf"], ["calculate", "burgers", "-T", "0.5", "-s", "cg", "+p", "2", "llf"],
        ["calculate", "swe", "-s", "mcl", "llf", "es", "coarse"], ["calculate", "swe", "-b", "b3", "-s", "lw"],
    ]
    general = [[], ["--args"], ["--profile"], ["--profile", "5"], ["--args", "--profile", "3"]]
    runs = [(line[:2] + g + line[2:], g) for line in table for g in general]
    runs += [(line[:2] + line[2:] + g, g) for line in table for g in general]
    for line, g in runs + runs[::-1]:
        with stand_ins() as stand:
            sys.argv = ["cls1", *line]
            try:
                with capture() as output:
                    main.main()
            finally:
                sys.argv = saved
            rec.state("main", line)
            rec.step()
            rec.valid()
            rec.check(len(stand.created) > 0 and all(len(s.solved) == 1 for s in stand.created), "command is executed exactly once",
                      lambda: dict(line=line, solved=[s.solved for s in stand.created]))
            rec.check(("ARGUMENTS" in output.text) == ("--args" in g), "arguments are printed on request", lambda: dict(line=line, text=output.text))
            rec.check(("function calls" in output.text) == ("--profile" in g), "profile is printed on request", lambda: dict(line=line, text=output.text[-500:]))
            rec.outcome(" ".join(g))
    for key in ("llf", "cg", "coarse"):
        sys.argv = ["cls1", "help", key]
        try:
            with capture() as output:
                main.main()
        finally:
            sys.argv = saved
        rec.step()
        rec.state("main help", key)
        rec.check("++mesh-size" in output.text, "help is printed", dict(key=key, text=output.text))
