"""Time stepping.  The real iterator is driven through every word of operations
(next, restart, length, attributes, reinitialize) up to a depth and through
complete iterations over all parameters and sequences of optimal steps of bounded
alphabets, next to a plain model of the interval."""
import itertools

import numpy as np

import core
from core.time_stepping import (
    TimeStepTooSmallError,
    TimeStepping,
    get_adaptive_time_stepping,
    get_mesh_dependent_time_stepping,
)

from ..worlds import ScalarWorld

ASSUMPTIONS = [
    "up to 700 steps and times up to 8; the accumulated roundoff of the time stays "
    "below 1e-12 there",
]
STARTS = [0.0, 0.25, -1.0, 0.1]
DURATIONS = [1.0, 0.3, 0.7, 2.0, 1e-3, 1 / 3, 5.0, 0.1, 1e-9, 0.5 + 1e-9]
CFLS = [0.1, 0.3, 0.5, 1.0, 1 / 3, 0.7]
STEPS = [1.0, 0.1, 1 / 3, 1 / 7, 0.01, 1 / 30, 1 / 64, 0.25, 3.0]


def jobs(tier):
    deep = tier == "thorough"
    result = []
    for start in STARTS:
        result.append(dict(kind="uniform", start=start, deep=deep))
        for cfl in [0.5, 1.0]:
            for duration in [1.0, 0.3]:
                result.append(dict(kind="adaptive", start=start, cfl=cfl, duration=duration,
                                   deep=deep))
    for adaptive in [False, True]:
        for first in OPERATIONS:
            result.append(dict(kind="operations", adaptive=adaptive, first=first, deep=deep))
    result.append(dict(kind="builders"))
    result.append(dict(kind="long"))
    return result


def run(job, rec):
    globals()["_" + job["kind"]](job, rec)


def _judge(rec, steps, limits, start, end, stepping, detail):
    """Steps taken, the admissible size of each of them."""
    total = start
    ok = True
    for k, (dt, limit) in enumerate(zip(steps, limits)):
        last = k == len(steps) - 1
        ok = ok and 0 < dt <= limit * (1 + 1e-12)
        ok = ok and (last or dt >= limit * (1 - 1e-12))
        total += dt
    ok = ok and abs(total - end) <= 2e-12
    ok = ok and stepping.time == end and stepping.time_steps_number == len(steps)
    return rec.check(ok, "steps do not cover the interval",
                     lambda: dict(detail, steps=steps[-5:], number=len(steps),
                                  limits=list(limits)[:5], time=stepping.time,
                                  counted=stepping.time_steps_number, start=start, end=end))


def _uniform(job, rec):
    start = job["start"]
    cfls = CFLS + ([0.05, 0.9, 2.0] if job["deep"] else [])
    steps_ = STEPS + ([1 / 100, 0.2, 0.125, 1 / 9, 0.123456] if job["deep"] else [])
    for duration in DURATIONS:
        for cfl in cfls:
            for h in steps_:
                if duration / (cfl * h) > 700:
                    continue
                end = start + duration
                calls = [0]

                def optimal():
                    calls[0] += 1
                    return h

                stepping = TimeStepping(end, cfl, optimal, start_time=start)
                detail = dict(duration=duration, cfl=cfl, h=h)
                rec.state("uniform", start, duration, cfl, h)
                for _ in range(2):
                    steps = list(stepping)
                    rec.step(len(steps))
                    rec.valid()
                    _judge(rec, steps, [cfl * h] * len(steps), start, end, stepping, detail)
                    rec.check(len(stepping) == len(steps), "length is not the number of steps",
                              lambda: dict(detail, length=len(stepping), number=len(steps)))
                    minimum = int(np.ceil(round(duration / (cfl * h), 9)))
                    rec.check(len(steps) == max(1, minimum), "number of steps",
                              lambda: dict(detail, number=len(steps), expected=minimum))
                rec.check(calls[0] == 1, "optimal step is recomputed", detail)
                rec.outcome(f"uniform steps={min(len(steps), 5)}")


def _adaptive(job, rec):
    start, cfl, duration = job["start"], job["cfl"], job["duration"]
    end = start + duration
    alphabet = [0.4, 0.05, 2.0, 1e-13, 1.1e-12]
    for word in itertools.product(alphabet, repeat=5 if job["deep"] else 4):
        for _ in range(1):
            index = [0]

            def optimal():
                value = word[index[0]] if index[0] < len(word) else 0.3
                index[0] += 1
                return value

            stepping = TimeStepping(end, cfl, optimal, adaptive=True, start_time=start)
            steps, failed = [], False
            # model
            t, limits, fails, k = start, [], False, 0
            while end - t >= 1e-12:
                value = word[k] if k < len(word) else 0.3
                k += 1
                dt = min(cfl * value, end - t)
                if dt < 1e-12:
                    fails = True
                    break
                limits.append(cfl * value)
                t += dt
            try:
                iterator = iter(stepping)
                before = index[0]
                for dt in iterator:
                    steps.append(dt)
                    rec.step()
                    rec.check(index[0] - before == 1, "optimal step is not computed once per step",
                              lambda: dict(word=word, calls=index[0]))
                    before = index[0]
                    if len(steps) > 100:
                        break
            except TimeStepTooSmallError:
                failed = True
            rec.state("adaptive", start, cfl, duration, word)
            rec.valid()
            rec.outcome(f"adaptive failed={failed} steps={len(steps)}")
            detail = dict(word=word, cfl=cfl, duration=duration, start=start)
            rec.check(failed == fails and len(steps) == len(limits),
                      "too small steps and only these raise an error",
                      lambda: dict(detail, steps=steps, failed=failed, expected=fails))
            rec.check(len(stepping) == 0, "length of adaptive time stepping", detail)
            if not failed:
                _judge(rec, steps, limits, start, end, stepping, detail)
            else:
                rec.check(abs(stepping.time - t) <= 1e-12
                          and stepping.time_steps_number == len(steps), "time after an error",
                          lambda: dict(detail, time=stepping.time, expected=t))


OPERATIONS = ["next", "iter", "len", "reinitialize"]


def _operations(job, rec):
    """Model: position in the interval, size of the step."""
    adaptive = job["adaptive"]
    start, end, cfl = 0.5, 1.25, 0.5
    depth = 9 if job["deep"] else 7
    for length in range(0, depth):
        for rest in itertools.product(OPERATIONS, repeat=length):
            word = (job["first"], *rest)
            optimal = [0.5]

            def step_function():
                # every call gives another value
                optimal[0] *= 1.25 if optimal[0] < 0.7 else 0.5
                return optimal[0]

            stepping = TimeStepping(end, cfl, step_function, adaptive=adaptive, start_time=start)
            iterator = iter(stepping)
            current = 0.5 * 1.25
            t, n, value = start, 0, current
            trace = []
            for operation in word:
                rec.step()
                if operation == "next":
                    try:
                        got = next(iterator)
                    except StopIteration:
                        got = None
                    if end - t < 1e-12:
                        expected = None
                    else:
                        if adaptive:
                            value = optimal[0]
                        expected = min(cfl * value, end - t)
                        t, n = t + expected, n + 1
                        if end - t < 1e-12:
                            t = end
                    trace.append((got, expected))
                    rec.check(got == expected, "step of an interleaving", lambda: dict(
                        word=word, trace=trace, adaptive=adaptive))
                elif operation == "iter":
                    iterator = iter(stepping)
                    t, n = start, 0
                elif operation == "len":
                    expected = 0
                    if not adaptive:
                        expected = int(np.ceil(round((end - start) / (cfl * value), 9)))
                    rec.check(len(stepping) == expected, "length in an interleaving",
                              lambda: dict(word=word, got=len(stepping), expected=expected))
                else:
                    stepping.reinitialize()
                    if not adaptive:
                        value = optimal[0]
                if adaptive and n == 0:
                    value = optimal[0]
                rec.check(stepping.time == t and stepping.time_steps_number == n,
                          "time or number of steps in an interleaving",
                          lambda: dict(word=word, time=stepping.time, expected=t,
                                       number=stepping.time_steps_number, steps=n))
            rec.state("operations", adaptive, word)
            rec.valid()
            rec.outcome(f"operations adaptive={adaptive} steps={n}")


def _builders(job, rec):
    """Time steppings built for meshes and solutions."""
    for start, end in [(0.0, 1.0), (0.25, 0.5), (-1.0, 0.3)]:
        for n in [1, 3, 10]:
            for cfl in [0.1, 0.5]:
                world = ScalarWorld("advection", [0.0], start=start, end_time=end, length=2.0)
                mesh = core.UniformMesh(world.domain, n)
                stepping = get_mesh_dependent_time_stepping(world, mesh, cfl)
                steps = list(stepping)
                rec.state("mesh", start, end, n, cfl)
                rec.step(len(steps))
                rec.valid()
                _judge(rec, steps, [cfl * 2.0 / n] * len(steps), start, end, stepping,
                       dict(n=n, cfl=cfl))
                for adaptive in [False, True]:

                    class Solution:
                        time = start
                        value = np.array([1.0, 2.0])

                    solution = Solution()
                    seen = []

                    def optimal(time, value):
                        seen.append((time, value.copy()))
                        return float(0.1 + 0.05 * value[0])

                    stepping = get_adaptive_time_stepping(world, solution, optimal, cfl, adaptive)
                    steps, limits = [], []
                    value = 0.15
                    for dt in stepping:
                        if adaptive:
                            value = 0.1 + 0.05 * solution.value[0]
                            rec.check(seen[-1][0] == solution.time
                                      and np.array_equal(seen[-1][1], solution.value),
                                      "optimal step of an old solution", dict(n=n))
                        steps.append(dt)
                        limits.append(cfl * value)
                        solution.time += dt
                        solution.value = solution.value * 1.5
                    rec.state("solution", start, end, cfl, adaptive)
                    rec.step(len(steps))
                    rec.valid()
                    _judge(rec, steps, limits, start, end, stepping,
                           dict(cfl=cfl, adaptive=adaptive))
    rec.outcome("builders")


def _long(job, rec):
    """Roundoff of many steps."""
    stepping = TimeStepping(100.0, 0.1, lambda: 1.0)
    steps = list(stepping)
    rec.state("long")
    rec.step(len(steps))
    rec.valid()
    rec.check(len(stepping) == len(steps), "length is not the number of steps",
              dict(length=len(stepping), number=len(steps)), key="length-100-0.1-1")
    rec.check(abs(sum(steps) - 100.0) < 1e-9 and stepping.time == 100.0, "time of many steps",
              dict(time=stepping.time))
    # very many steps without roundoff, constant and adaptive, twice
    for number, adaptive in itertools.product([1000, 4096, 70001], [False, True]):
        stepping = TimeStepping(3.0 + number / 1024, 0.5, lambda: 1 / 512, adaptive=adaptive, start_time=3.0)
        for _ in range(2):
            count = 0
            for step in stepping:
                count += 1
                if step != 1 / 1024 or stepping.time_steps_number != count or stepping.time != 3.0 + count / 1024:
                    rec.violate("one of many steps", dict(count=count, step=step, time=stepping.time, number=stepping.time_steps_number))
                    break
            rec.state("many", number, adaptive)
            rec.step(number)
            rec.valid()
            rec.check(count == number and (adaptive or len(stepping) == number), "number of many steps", lambda: dict(number=number, adaptive=adaptive, got=count))
