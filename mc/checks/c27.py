"""Generated training data.  The real generate-data command is run for all combinations
of solver, mesh size, coarsening degree, input radius, node index, end time, seed and
number of benchmarks of the tier, and for all sequences of overwriting and appending
runs up to a depth in one directory.  The files are compared row by row with fresh
solvers with history whose values are averaged here and whose subgrid fluxes are
computed with the reference fluxes of mc/ref_fv.py; benchmark rows with random
benchmarks built from their seeds.  Runs of more than ten solutions and with hundreds
of steps are included."""
import csv
import itertools
import os

import numpy as np
import pandas as pd

import benchmark.shallow_water as bw
import finite_volume.shallow_water.solver as SW
from command.generate_data import GenerateData, SubgridFluxDataBuilder

from .. import ref_fv, swe
from ..core import scratch_directory
from ..worlds import WaterWorld, close, solve

ASSUMPTIONS = [
    "the solutions themselves are decided by C38; here they are taken from a fresh solver",
    "fluxes of the mcl solver depend on all cells, a known finding",
    "relative roundoff tolerance 1e-9",
]
SCHEMES = {
    "llf": ("llf", {}),
    "central": ("central", {}),
    "low-order": ("low-order", {}),
    "es": ("es", {}),
    "es1": ("es1", {}),
    "antidiffusion": ("antidiffusion", dict(high="llf")),
    "antidiffusion+central": ("antidiffusion", dict(high="central")),
}


def jobs(tier):
    deep = tier == "thorough"
    result = []
    for name in SCHEMES:
        for size, degree in [(8, 2), (12, 3), (12, 1), (16, 4)] + ([(24, 2), (40, 8)] if deep else []):
            result.append(dict(kind="rows", name=name, size=size, degree=degree, deep=deep))
    sequences = list(itertools.product(["write", "append"], repeat=3 if deep else 2))
    for words in sequences:
        result.append(dict(kind="files", words=words, deep=deep))
    result += [dict(kind="builder", name=name) for name in SCHEMES]
    for numbers in [[11], [12], [20], [21], [33], [9, 10], [11, 11], [1, 16]] + ([[65], [101], [130], [64, 3]] if deep else []):
        result.append(dict(kind="many", numbers=numbers))
    result.append(dict(kind="long", deep=deep))
    result.append(dict(kind="seeds", number=60 if deep else 12))
    result.append(dict(kind="mcl"))
    return result


def run(job, rec):
    globals()["_" + job["kind"]](job, rec)


# -------------------------------------------------------------------- oracle
def history(name, benchmark, size, **kwargs):
    solver = solve(swe.FACTORIES[name](benchmark, mesh_size=size, save_history=True, **kwargs))
    return solver.solution.time_history, solver.solution.value_history


def node_flux(name, left, right, step_length):
    """Reference flux between single cell values."""
    scheme, options = SCHEMES[name]
    water = ref_fv.Water(scheme, bw.ShallowWaterBenchmark.gravitational_acceleration, step_length, "outflow", **options)
    e = np.array([left, left, right, right])  # extended vector of two cells
    _, flux = water.fluxes(scheme, e)
    return flux[1]


def expected_rows(name, benchmark, size, degree, radius, node, g=None, **kwargs):
    times, values = history(name, benchmark, size, **kwargs)
    h = benchmark.domain.length / size
    rows = []
    for u in values:
        coarse = u.reshape(size // degree, degree, 2).mean(axis=1)
        fine = node_flux(name, u[node * degree - 1], u[node * degree], h)
        rough = node_flux(name, coarse[node - 1], coarse[node], h * degree)
        rows.append(np.concatenate([coarse[node - radius : node + radius].ravel(), fine - rough]))
    return times, np.array(rows)


def read(directory):
    with open(os.path.join(directory, "data.csv")) as f:
        lines = list(csv.reader(f))
    with open(os.path.join(directory, "benchmark.csv")) as f:
        benchmarks = list(csv.reader(f))
    return lines, benchmarks


def run_command(name, directory, size, end_time, **kwargs):
    solver = swe.FACTORIES[name](
        bw.OscillationNoTopographyBenchmark(end_time=end_time), mesh_size=size, save_history=kwargs.pop("history", False)
    )
    command = GenerateData(solver, directory, end_time=end_time, print_output=False, **kwargs)
    command.execute()


def benchmarks_of(rec, rows, end_time, where):
    """Benchmarks of the rows of the benchmark file, parameters compared."""
    result = []
    for row in rows:
        values = [float(x) for x in row[1:]]
        b = bw.RandomOscillationNoTopographyBenchmark(int(values[0]), end_time=end_time)
        wanted = [
            b.seed, b.height_average, b.height_amplitude, b.height_wave_number, b.height_phase_shift,
            b.velocity_average, b.velocity_amplitude, b.velocity_wave_number, b.velocity_phase_shift,
        ]
        rec.check(close(values, wanted, 1e-12, 1e-12), "benchmark file", lambda: dict(where, got=values, expected=wanted))
        result.append(b)
    return result


def header(radius, node):
    cells = [f"U{i}" for i in range(node - radius, node + radius)]
    top, second = [""], [""]
    for name in cells + [f"G_{node - 1 / 2}"]:
        top += [name, name]
        second += ["h", "q"]
    return [top, second]


BENCHMARK_HEADER = [
    ["", "seed"] + ["height"] * 4 + ["velocity"] * 4,
    ["", ""] + ["average", "amplitude", "wave_number", "phase_shift"] * 2,
]


def in_sequence(seeds, seed, number):
    generator = bw.RandomBenchmarkGenerator(seed)
    sequence = [generator().seed for _ in range(number + 12)]
    return any(sequence[i : i + len(seeds)] == seeds for i in range(len(sequence)))


def compare(rec, lines, start, benchmarks, name, size, degree, radius, node, where):
    """Compares the rows of LINES from START with all BENCHMARKS."""
    position = start
    for b in benchmarks:
        times, rows = expected_rows(name, b, size, degree, radius, node)
        got = lines[position : position + len(rows)]
        position += len(rows)
        rec.step(len(rows))
        ok = len(got) == len(rows)
        if ok:
            array = np.array(got, dtype=float)
            ok = close(array[:, 0], times, 1e-9) and close(array[:, 1:], rows, 1e-9, 1e-9)
        rec.check(ok, "rows of a benchmark", lambda: dict(where, seed=b.seed, got=got[:3], times=times[:3], expected=rows[:3]))
        rec.state(name, size, degree, radius, node, b.seed, rows)
    return position


def complete(rec, directory, runs, name, size, degree, radius, node, end_time, where):
    """RUNS: (number of benchmarks, seed) of the runs contained in the file."""
    lines, rows = read(directory)
    rec.check(lines[:2] == header(radius, node), "header", lambda: dict(where, got=lines[:2]))
    rec.check(rows[:2] == BENCHMARK_HEADER, "header of the benchmark file", lambda: dict(where, got=rows[:2]))
    total = sum(n for n, _ in runs)
    rec.check(len(rows) == 2 + total, "number of benchmarks", lambda: dict(where, got=len(rows) - 2, expected=total))
    benchmarks = benchmarks_of(rec, rows[2:], end_time, where)
    position = 0
    for number, seed in runs:
        seeds = [b.seed for b in benchmarks[position : position + number]]
        rec.check(in_sequence(seeds, 1 if seed is None else seed, number), "benchmarks are not those of the seed",
                  lambda: dict(where, seeds=seeds, seed=seed))
        position += number
    # numbers are written with all digits
    numbers = [float(x) for row in lines[2:] for x in row]
    if len(numbers) > 300:
        rec.check(any(float("%.16g" % x) != x for x in numbers), "digits are lost in the file", where)
    parameters = [float(x) for row in rows[2:] for x in row[2:]]
    if len(parameters) > 80:
        rec.check(any(float("%.16g" % x) != x for x in parameters), "digits are lost in the benchmark file", where)
    end = compare(rec, lines, 2, benchmarks, name, size, degree, radius, node, where)
    rec.check(end == len(lines), "superfluous rows", lambda: dict(where, rows=len(lines), expected=end))
    rec.valid()
    return lines, rows


# ---------------------------------------------------------------------- jobs
def _rows(job, rec):
    name, size, degree = job["name"], job["size"], job["degree"]
    coarse = size // degree
    for radius in range(1, 4 if job["deep"] else 3):
        for node in [None, *range(radius, coarse - radius + 1)]:
            if node is None and 2 * radius > coarse:
                continue
            if not job["deep"] and node is not None and node not in (radius, radius + 1, coarse - radius):
                continue
            for end_time, number, seed in [(2.0, 2, None), (0.5, 1, 7), (0.5, 1, 0)] + ([(5.0, 3, 12), (1.0, 5, 3)] if job["deep"] else []):
                directory = scratch_directory()
                where = dict(name=name, size=size, degree=degree, radius=radius, node=node, end_time=end_time, number=number, seed=seed)
                run_command(name, directory, size, end_time, solution_number=number, seed=seed, coarsening_degree=degree,
                            input_radius=radius, node_index=node, history=bool(radius % 2))
                lines, _ = complete(rec, directory, [(number, seed)], name, size, degree, radius, radius if node is None else node, end_time, where)
                rec.outcome(f"{name} {len(lines) - 2} rows")
                if degree == 1:
                    array = np.array(lines[2:], dtype=float)
                    rec.check(np.all(np.abs(array[:, -2:]) < 1e-12), "subgrid flux of the fine mesh itself", where)


def _files(job, rec):
    name, size, degree, radius = "llf", 8, 2, 2
    numbers = [1, 2, 3] if job["deep"] else [1, 3]
    seeds = [None, 5, 0] if len(job["words"]) == 2 else [None, 5]
    choices = list(itertools.product(numbers, seeds))
    for parameters in itertools.product(choices, repeat=len(job["words"])):
        if job["deep"] and len({p[1] for p in parameters}) == 1 and parameters[0][1] == 5:
            continue
        directory = scratch_directory()
        contained = []
        for word, (number, seed) in zip(job["words"], parameters):
            run_command(name, directory, size, 1.0, solution_number=number, seed=seed, coarsening_degree=degree,
                        input_radius=radius, overwrite=word == "write")
            contained = ([] if word == "write" else contained) + [(number, seed)]
            where = dict(words=job["words"], parameters=parameters)
            complete(rec, directory, contained, name, size, degree, radius, radius, 1.0, where)
        rec.check(sorted(os.listdir(directory)) == ["benchmark.csv", "data.csv"], "files", where)
        rec.outcome(f"{job['words']} {sum(n for n, _ in contained)}")


def _many(job, rec):
    """Many solutions, in one run or appended."""
    name, size, degree, radius, end_time = "llf", 8, 2, 2, 0.3
    for overwrite in (True, False):
        directory = scratch_directory()
        contained = []
        for k, number in enumerate(job["numbers"]):
            run_command(name, directory, size, end_time, solution_number=number, seed=3 + k, coarsening_degree=degree,
                        input_radius=radius, overwrite=overwrite and k == 0)
            contained.append((number, 3 + k))
        complete(rec, directory, contained, name, size, degree, radius, radius, end_time, dict(numbers=job["numbers"], overwrite=overwrite))
        rec.outcome(f"{sum(job['numbers'])} solutions")


def _long(job, rec):
    """Many time steps per solution."""
    for name, end_time in [("llf", 250.0), ("low-order", 120.0)] + ([("llf", 1200.0), ("es1", 200.0)] if job["deep"] else []):
        directory = scratch_directory()
        run_command(name, directory, 24, end_time, solution_number=2, seed=2, coarsening_degree=3, input_radius=2, node_index=4)
        lines, _ = complete(rec, directory, [(2, 2)], name, 24, 3, 2, 4, end_time, dict(name=name, end_time=end_time))
        rec.check(len(lines) > 300, "vacuous: few rows", len(lines))
        rec.outcome(f"{name} {len(lines) - 2} rows")


def _seeds(job, rec):
    contents = {}
    for seed in range(job["number"]):
        for repetition in range(2):
            directory = scratch_directory()
            run_command("llf", directory, 8, 1.0, solution_number=2, seed=seed, coarsening_degree=2, input_radius=1)
            text = open(os.path.join(directory, "data.csv")).read()
            rec.step()
            rec.state(seed, repetition, text)
            if repetition:
                rec.check(text == contents[seed], "the same seed gives another file", dict(seed=seed))
            contents[seed] = text
    rec.check(len(set(contents.values())) == len(contents), "different seeds give the same file")
    rec.valid()
    rec.outcome(len(set(contents.values())))


def _builder(job, rec):
    """In memory, for arbitrary benchmarks, one builder for a sequence of them."""
    name = job["name"]
    size, degree, radius = 12, 2, 2
    worlds = []
    letters = [(1.0, 0.0), (2.0, -1.5), (0.5, 1.0)]
    for i, word in enumerate(itertools.product(letters, repeat=3)):
        values = [word[k % 3] for k in range(size)]
        worlds.append(WaterWorld(values, length=12.0, end_time=1.0, boundary="periodic", g=bw.ShallowWaterBenchmark.gravitational_acceleration))
    for node in (2, 3, 4):
        first = worlds[0]
        solver = swe.FACTORIES[name](first, mesh_size=size)
        space = solver.solution.space
        getter = solver.flux_getter
        builder = SubgridFluxDataBuilder(
            solver, getter(first, space), getter(first, space.coarsen(degree)), coarsening_degree=degree, input_radius=radius,
            node_index=node, print_output=False,
        )
        for k, world in enumerate(worlds):
            rec.step()
            try:
                times, rows = expected_rows(name, world, size, degree, radius, node)
            except ValueError:  # the unstable central flux, the sequence continues afterwards
                try:
                    builder(world)
                    rec.violate("the run of a negative height is not aborted", dict(name=name, node=node, k=k))
                except ValueError:
                    rec.outcome(f"{name} aborted")
                    continue
            coarse, flux = builder(world)
            got = np.concatenate([*coarse, flux], axis=1)
            rec.state(name, node, k, rows)
            rec.step(len(rows))
            rec.valid()
            rec.check(
                len(coarse) == 2 * radius and close(builder.time_history, times, 1e-9) and close(got, rows, 1e-9, 1e-9),
                "subgrid fluxes of a sequence of benchmarks",
                lambda: dict(name=name, node=node, k=k, got=got[:2], expected=rows[:2]),
            )
            rec.outcome(f"{name} {len(rows)}")


def _mcl(job, rec):
    size, degree, radius, end_time = 12, 2, 2, 2.0
    directory = scratch_directory()
    run_command("mcl", directory, size, end_time, solution_number=1, coarsening_degree=degree, input_radius=radius)
    lines, rows = read(directory)
    b = benchmarks_of(rec, rows[2:], end_time, {})[0]
    times, values = history("mcl", b, size)
    h = b.domain.length / size
    got = np.array(lines[2:], dtype=float)
    rec.check(close(got[:, 0], times, 1e-9), "times")
    for k, u in enumerate(values):
        coarse = u.reshape(size // degree, degree, 2).mean(axis=1)
        rec.check(close(got[k, 1:-2], coarse[:4].ravel(), 1e-9), "coarse values")
        g = b.gravitational_acceleration
        _, fine = ref_fv.Water("mcl", g, h, "periodic").node_fluxes(0.0, u)
        _, rough = ref_fv.Water("mcl", g, h * degree, "periodic").node_fluxes(0.0, coarse)
        rec.step()
        rec.state("mcl", k)
        rec.check(close(got[k, -2:], fine[radius * degree] - rough[radius], 1e-8, 1e-8), "subgrid flux of the limited scheme",
                  lambda: dict(got=got[k, -2:], expected=fine[radius * degree] - rough[radius]), key="mcl")
    rec.valid()
    rec.outcome("mcl")
