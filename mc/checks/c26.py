"""Random benchmarks and their generator.  For every subset of the eight
parameters, several seeds (zero included) and zero and nonzero given values a
benchmark is built and compared with its twin, the given values and the documented
ranges; random values must differ between seeds.  All call sequences (with and
without seed, up to the depth of the tier) of generators are replayed on two
generators and compared with benchmarks built directly from the seeds."""
import itertools

import numpy as np

import benchmark.shallow_water as water

ASSUMPTIONS = [
    "values given as zero and a seed zero given to a generator are known findings",
    "a parameter not given is documented by the range its random value is drawn from",
]
NAMES = [
    "height_average", "height_amplitude", "height_phase_shift", "height_wave_number",
    "velocity_average", "velocity_amplitude", "velocity_phase_shift", "velocity_wave_number",
]
RANGES = dict(
    height_average=(2.0, 2.0), height_amplitude=(0.2, 0.6), height_phase_shift=(0, 2 * np.pi),
    height_wave_number=(1, 5), velocity_average=(1.0, 2.0), velocity_amplitude=(0.2, 0.6),
    velocity_phase_shift=(0, 2 * np.pi), velocity_wave_number=(1, 4),
)
GIVEN = [
    dict(zip(NAMES, [3.0, 0.9, 7.5, 6, -1.0, 0.05, -2.0, 9])),
    dict(zip(NAMES, [0.5, 0.1, 1e-9, 1, 0.25, 2.0, 0.5, 1])),
]
POINTS = [0.0, 10.0, 33.25, 50.0, 99.0]


def jobs(tier):
    deep = tier == "thorough"
    seeds = list(range(0, 40 if deep else 8)) + [10**9, 2**31]
    result = []
    for size in range(9):
        result.append(dict(kind="subsets", size=size, seeds=seeds[: 12 if deep else 4]))
    result.append(dict(kind="ranges", number=3000 if deep else 600))
    result.append(dict(kind="zeros", seeds=seeds))
    for first in ["none", 0, 1, 5]:
        result.append(dict(kind="generator", first=first, depth=6 if deep else 4))
    return result


def run(job, rec):
    globals()["_" + job["kind"]](job, rec)


def parameters(b):
    return [getattr(b, name) for name in NAMES]


def same(a, b):
    return (
        parameters(a) == parameters(b) and a.seed == b.seed and a.end_time == b.end_time and a.as_dict().keys() == b.as_dict().keys()
        and all(np.array_equal(a.initial_data(x), b.initial_data(x)) for x in POINTS)
    )


def _formula(rec, b):
    for x in POINTS:
        phase = 2 * np.pi * x / 100.0
        h = b.height_average + b.height_amplitude * np.sin(b.height_wave_number * phase + b.height_phase_shift)
        v = b.velocity_average + b.velocity_amplitude * np.sin(b.velocity_wave_number * phase + b.velocity_phase_shift)
        rec.check(np.allclose(b.initial_data(x), [h, h * v], atol=1e-11), "initial data do not have the parameters",
                  lambda: dict(parameters=parameters(b), x=x, got=b.initial_data(x)))
    data = b.as_dict()
    rec.check(
        [data[k] for k in ("h0", "Ah", "ph", "kh", "v0", "Av", "pv", "kv")] == parameters(b)
        and data["seed"] == b.seed and data["end_time"] == b.end_time,
        "dictionary", lambda: dict(data=data, parameters=parameters(b)),
    )


def _in_range(rec, b, name, where):
    low, high = RANGES[name]
    value = getattr(b, name)
    rec.check(low <= value <= high, "random value is out of its range", lambda: dict(where, name=name, value=value))
    if "wave" in name:
        rec.check(value == int(value), "wave number is no integer", lambda: dict(where, name=name, value=value))


def _subsets(job, rec):
    for subset in itertools.combinations(NAMES, job["size"]):
        for seed, values in itertools.product(job["seeds"], GIVEN):
            given = {name: values[name] for name in subset}
            for end in (40.0, 0.5):
                b = water.RandomOscillationNoTopographyBenchmark(seed, end_time=end, **given)
                twin = water.RandomOscillationNoTopographyBenchmark(seed, end_time=end, **given)
                where = dict(seed=seed, given=given)
                rec.state(seed, given, end)
                rec.step(2)
                rec.valid()
                rec.check(b.seed == seed and b.end_time == end, "seed or end time", where)
                rec.check(same(b, twin), "two benchmarks with the same seed differ", lambda: dict(where, a=parameters(b), b=parameters(twin)))
                for name in NAMES:
                    if name in given:
                        rec.check(getattr(b, name) == given[name], "given parameter", lambda: dict(where, name=name, got=getattr(b, name)))
                    else:
                        _in_range(rec, b, name, where)
                _formula(rec, b)
    rec.outcome(f"{job['size']} given")


def _ranges(job, rec):
    values = {name: [] for name in NAMES}
    for seed in range(job["number"]):
        b = water.RandomOscillationNoTopographyBenchmark(seed)
        rec.state(seed)
        rec.step()
        for name in NAMES:
            _in_range(rec, b, name, dict(seed=seed))
            values[name].append(getattr(b, name))
        rec.check(min(b.initial_data(x)[0] for x in POINTS) > 0, "height is not positive", dict(seed=seed))
    for name in NAMES:
        low, high = RANGES[name]
        if "wave" in name:
            rec.check(set(values[name]) == set(range(low, high + 1)), "wave numbers", dict(name=name, got=sorted(set(values[name]))))
        elif low < high:
            rec.check(len(set(values[name])) == len(values[name]), "random values do not depend on the seed", name)
            width = high - low
            rec.check(min(values[name]) < low + 0.05 * width and max(values[name]) > high - 0.05 * width, "range is not exhausted", name)
    # independent of each other
    for a, b in itertools.combinations([n for n in NAMES if "average" not in n or n[0] == "v"], 2):
        correlation = np.corrcoef(values[a], values[b])[0, 1]
        rec.check(abs(correlation) < 0.5, "parameters are not independent", dict(a=a, b=b, correlation=correlation))
        rec.step()
    rec.valid()
    rec.outcome("ranges")


def _zeros(job, rec):
    for name in NAMES:
        for seed in job["seeds"]:
            b = water.RandomOscillationNoTopographyBenchmark(seed, **{name: 0.0})
            rec.state("zero", name, seed)
            rec.step()
            rec.check(getattr(b, name) == 0.0, "a given zero is replaced", dict(name=name, seed=seed, got=getattr(b, name)), key=f"zero-{name}")
    for first in job["seeds"]:
        generator = water.RandomBenchmarkGenerator(first)
        rec.step()
        rec.check(same(generator(0), water.RandomOscillationNoTopographyBenchmark(0)), "the given seed zero is ignored",
                  dict(first=first), key="seed-zero")
    rec.outcome("zeros")


def _generator(job, rec):
    first = None if job["first"] == "none" else job["first"]
    overrides = [dict(), dict(height_amplitude=0.3), dict(velocity_average=5.0, height_wave_number=2)]
    calls = [None, 1, 7, 123456789]
    for kwargs, end in itertools.product(overrides, [None, 40.0, 0.5, 12]):
        expected_end = 40.0 if end is None else end
        fresh = []  # the unseeded sequence, each element independent of seeded calls in between
        if first is not None:
            reference = water.RandomBenchmarkGenerator(first, end, **kwargs)
            fresh = [reference() for _ in range(job["depth"])]
            again = water.RandomBenchmarkGenerator(seed=first, end_time=end, **kwargs)
            rec.check(all(same(b, again()) for b in fresh), "generators with the same seed differ", dict(seed=first, kwargs=kwargs))
            rec.check(len({b.seed for b in fresh}) == len(fresh), "a generator repeats itself", [b.seed for b in fresh])
        for word in itertools.product(calls, repeat=job["depth"]):
            generator = water.RandomBenchmarkGenerator(first, end_time=end, **kwargs)
            unseeded = 0
            rec.state(first, kwargs, end, word)
            rec.valid()
            for seed in word:
                b = generator() if seed is None else generator(seed)
                rec.step()
                where = dict(first=first, kwargs=kwargs, end=end, word=word, seed=seed)
                rec.check(b.end_time == expected_end, "end time", lambda: dict(where, got=b.end_time))
                rec.check(all(getattr(b, k) == v for k, v in kwargs.items()), "override", lambda: dict(where, got=parameters(b)))
                wanted = water.RandomOscillationNoTopographyBenchmark(b.seed if seed is None else seed, expected_end, **kwargs)
                rec.check(same(b, wanted), "not the benchmark of the seed", lambda: dict(where, got=parameters(b), expected=parameters(wanted)))
                if seed is None:
                    if first is not None:
                        rec.check(same(b, fresh[unseeded]), "the sequence of the generator is not reproducible",
                                  lambda: dict(where, number=unseeded))
                    unseeded += 1
            rec.outcome(f"{first} {unseeded}")
