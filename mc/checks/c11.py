"""Runge-Kutta integrators.  The Butcher tableau is extracted from the real code by
executing a step with right hand sides returning unit vectors and judged with all
order conditions (every rooted tree up to the order); the extracted tableau decides
the method for every right hand side, which is cross-checked on nonlinear problems of
scalar, vector and matrix shape.  All sequences of execute and reinitialize up to a
depth are compared with a freshly built reference, arrays given and handed out are
watched for changes.  Time steps and states of very different scales are included."""
import itertools
from functools import lru_cache

import numpy as np

import core

from .. import fe, ref_ode
from ..worlds import ScalarWorld, ode_solver

METHODS = {
    "euler": (core.ForwardEuler, 1, 1),
    "heun": (core.Heun, 2, 2),
    "ssp3": (core.StrongStabilityPreservingRungeKutta3, 3, 3),
    "rk8": (core.RungeKutta8, 8, 11),
}
ASSUMPTIONS = [
    "right hand sides are functions; initial values are floats or float arrays",
]


def jobs(tier):
    deep = tier == "thorough"
    result = []
    for name in METHODS:
        result.append(dict(kind="tableau", name=name))
        result.append(dict(kind="problems", name=name, deep=deep))
        result.append(dict(kind="many", name=name))
        result.append(dict(kind="scales", name=name, deep=deep))
        for shape in ["float", "scalar", "vector", "matrix"]:
            result.append(dict(kind="sequences", name=name, shape=shape, deep=deep))
    result.append(dict(kind="choice"))
    return result


def run(job, rec):
    globals()["_" + job["kind"]](job, rec)


# ------------------------------------------------------------------ rooted trees
@lru_cache(maxsize=None)
def trees(order):
    """Rooted trees as sorted tuples of subtrees."""
    if order == 1:
        return ((),)
    result = set()
    for forest in forests(order - 1, order - 1):
        result.add(tuple(sorted(forest)))
    return tuple(sorted(result))


@lru_cache(maxsize=None)
def forests(size, largest):
    if size == 0:
        return ((),)
    result = []
    for k in range(1, min(size, largest) + 1):
        for tree in trees(k):
            for rest in forests(size - k, k):
                result.append(tuple(sorted((tree, *rest))))
    return tuple(set(result))


def order_of(tree):
    return 1 + sum(order_of(t) for t in tree)


def density(tree):
    result = order_of(tree)
    for t in tree:
        result *= density(t)
    return result


def stage_weights(tree, A):
    """Elementary weights of all stages."""
    result = np.ones(len(A))
    for t in tree:
        result = result * (A @ stage_weights(t, A))
    return result


def extract(method, stages, dt=1.0, start=0.0, u0=0.0):
    """Matrix, weights and nodes seen from outside."""
    calls = []

    def rhs(t, u):
        k = len(calls)
        calls.append((t, np.array(u)))
        e = np.zeros(max(stages, 1))
        if k < stages:
            e[k] = 1.0
        return e

    ode = method(rhs, np.full(stages, u0), initial_time=start)
    ode.execute(dt)
    A = np.array([(u - u0) / dt for _, u in calls])
    c = np.array([(t - start) / dt for t, _ in calls])
    return A, (ode.solution - u0) / dt, c, ode, calls


def _tableau(job, rec):
    name = job["name"]
    method, order, stages = METHODS[name]
    A, b, c, ode, calls = extract(method, stages)
    rec.check(len(calls) == stages, "number of stages", dict(got=len(calls)))
    rec.check(A.shape == (stages, stages) and np.all(np.triu(A) == 0), "method is not explicit",
              lambda: dict(A=A))
    count = 0
    for q in range(1, order + 1):
        for tree in trees(q):
            value = b @ stage_weights(tree, A)
            count += 1
            rec.state(name, tree)
            rec.step()
            rec.valid()
            rec.check(abs(value - 1 / density(tree)) <= 1e-13, "order condition is violated",
                      lambda: dict(tree=tree, value=value, expected=1 / density(tree)))
    rec.outcome(f"{name}: {count} trees")
    rec.check(np.allclose(c, A.sum(axis=1), atol=1e-14), "nodes are not the row sums",
              lambda: dict(c=c, A=A))
    rec.check(np.allclose(ode.time_nodes, [t for t, _ in calls], atol=0)
              and len(ode.stage_values) == stages
              and all(np.array_equal(v, u) for v, (_, u) in zip(ode.stage_values, calls)),
              "reported nodes or stage values differ from those used")
    # independence of step and starting point
    for dt, start, u0 in itertools.product([0.1, 2.0, 1e-3, 1 / 3], [0.0, -2.5, 10.0], [0.0, 1.0]):
        A2, b2, c2, ode, calls = extract(method, stages, dt, start, u0)
        rec.state(name, dt, start, u0)
        rec.step()
        rec.valid()
        eps = 1e-12 / dt
        rec.check(np.allclose(A, A2, atol=eps) and np.allclose(b, b2, atol=eps)
                  and np.allclose(c, c2, atol=eps * (1 + abs(start))),
                  "tableau depends on step or starting point", dict(dt=dt, start=start, u0=u0))
        rec.check(abs(ode.time - start - dt) <= 1e-15 * (1 + abs(start) + dt), "time reached",
                  dict(time=ode.time, dt=dt, start=start))
    for dt in [1e-5, 1e-9, 1e-14, 1e6]:
        A2, b2, c2, ode, calls = extract(method, stages, dt)
        rec.state(name, dt)
        rec.step()
        rec.valid()
        rec.check(np.allclose(A, A2, atol=1e-13) and np.allclose(b, b2, atol=1e-13) and np.allclose(c, c2, atol=1e-13),
                  "tableau depends on the step", dict(dt=dt))
    if name in ("euler", "heun", "ssp3"):
        # Shu-Osher form: convex combinations of Euler steps
        expected = {
            "euler": ([[0]], [1]),
            "heun": ([[0, 0], [1, 0]], [0.5, 0.5]),
            "ssp3": ([[0, 0, 0], [1, 0, 0], [0.25, 0.25, 0]], [1 / 6, 1 / 6, 2 / 3]),
        }[name]
        rec.check(np.allclose(A, expected[0], atol=1e-15) and np.allclose(b, expected[1], atol=1e-15),
                  "not the optimal strong stability preserving method", lambda: dict(A=A, b=b))


RHS = {
    "decay": lambda t, u: -u,
    "time": lambda t, u: 0 * u + 5 * t**4 - t,
    "square": lambda t, u: 0.5 * u * u - t * u,
    "mixed": lambda t, u: np.cos(t) * u + np.sin(u),
}
SHAPES = {
    "float": 0.7,
    "scalar": np.array([0.7]),
    "vector": np.array([0.7, -0.2, 1.3]),
    "matrix": np.array([[0.7, -0.2], [1.3, 0.4], [0.0, -1.0]]),
}


def _problems(job, rec):
    name = job["name"]
    method, order, _ = METHODS[name]
    for key, rhs in RHS.items():
        for shape, u0 in SHAPES.items():
            for start in [0.0, -1.5, 3.0]:
                for dt in [0.1, 0.5, 1e-3, 0.01]:
                    ode = method(rhs, u0, initial_time=start)
                    t, v = start, np.array(u0)
                    for _ in range(4 if job["deep"] else 2):
                        ode.execute(dt)
                        v = ref_ode.step(name, rhs, t, v, dt)
                        t += dt
                        rec.state(name, key, shape, start, dt, v)
                        rec.step()
                        rec.valid()
                        rec.check(np.shape(ode.solution) == np.shape(u0)
                                  and np.allclose(ode.solution, v, rtol=1e-11, atol=1e-11)
                                  and abs(ode.time - t) <= 1e-13,
                                  "step differs from the method",
                                  lambda: dict(rhs=key, shape=shape, dt=dt, got=ode.solution,
                                               expected=v))
    # polynomials in time of degree below the order are integrated exactly
    for k in range(order):
        for start, dt in [(0.0, 1.0), (-1.0, 2.0), (0.5, 0.25)]:
            ode = method(lambda t, u: np.array([(k + 1) * t**k]), np.array([start ** (k + 1)]),
                         initial_time=start)
            ode.execute(dt)
            rec.state(name, "polynomial", k, start)
            rec.step()
            rec.valid()
            rec.check(np.allclose(ode.solution, (start + dt) ** (k + 1), atol=1e-12),
                      "polynomial is not integrated exactly", dict(k=k, start=start, dt=dt))
    rec.outcome(name)


def _scales(job, rec):
    """Small, large and nearly constant values, long vectors, many steps."""
    name = job["name"]
    method = METHODS[name][0]
    sizes = [1, 4, 150, 1001] if job["deep"] else [1, 4, 150]
    for n, scale, dt in itertools.product(sizes, [1.0, 1e-5, 1e-9, 1e-14, 1e9], [0.1, 1e-4, 1e-8, 1e-12, 50.0]):
        index = np.arange(n)
        for shape in [(n,), (n, 2)]:
            base = scale * (1 + np.sin(1.0 + index))
            u0 = base if len(shape) == 1 else np.stack([base, -0.5 * base], axis=1)
            rate = 0.2 / dt
            for rhs in [lambda t, u: rate * u, lambda t, u: rate * (1 + rate * t) * np.abs(u)]:
                ode = method(rhs, u0.copy(), initial_time=0.0)
                t, v = 0.0, u0
                for _ in range(3):
                    ode.execute(dt)
                    v = ref_ode.step(name, rhs, t, v, dt)
                    t += dt
                    rec.state(name, n, scale, dt, shape, v[0])
                    rec.step()
                    rec.valid()
                    rec.check(np.shape(ode.solution) == shape and np.all(np.abs(ode.solution - v) <= 1e-12 * np.max(np.abs(v)))
                              and abs(ode.time - t) <= 1e-13 * t,
                              "step differs from the method",
                              lambda: dict(n=n, scale=scale, dt=dt, got=ode.solution, expected=v))
    # rates which change the solution slightly
    for rate in [1e-3, 1e-6, 1e-10]:
        rhs = lambda t, u: rate * (1 + np.cos(u) + t)
        u0 = np.array([1.0, -1.0, 0.25])
        ode, t, v = method(rhs, u0.copy(), initial_time=0.0), 0.0, u0
        for _ in range(400 if job["deep"] else 150):
            ode.execute(0.1)
            v = ref_ode.step(name, rhs, t, v, 0.1)
            t += 0.1
        rec.state(name, "many", rate)
        rec.step(150)
        rec.valid()
        rec.check(np.all(np.abs(ode.solution - v) <= 1e-13) and abs(ode.time - t) <= 1e-12, "many steps differ from the method",
                  lambda: dict(rate=rate, got=ode.solution, expected=v))
    rec.outcome(f"scales {name}")


OPERATIONS = [("step", 0.1), ("step", 0.25), ("reinitialize", 0.0), ("reinitialize", 1.5),
              ("plain",), ("mutate",)]


def _sequences(job, rec):
    """All sequences of operations up to a depth."""
    name, shape = job["name"], job["shape"]
    method = METHODS[name][0]
    rhs = RHS["mixed"]
    first = SHAPES[shape]
    second = first * 0.5 + 0.25
    depth = (6 if job["deep"] else 5) - (name == "rk8")
    for length in range(1, depth + 1):
        for word in itertools.product(OPERATIONS, repeat=length):
            given = [first.copy() if shape != "float" else first]
            originals = [np.array(first)]
            returned = []

            def watching(t, u):
                before = np.array(u)
                value = rhs(t, u)
                returned.append((value, np.array(value), u, before))
                return value

            ode = method(watching, given[0], initial_time=1.5)
            t, v = 1.5, np.array(first)
            for operation in word:
                if operation[0] == "step":
                    ode.execute(operation[1])
                    v = ref_ode.step(name, rhs, t, v, operation[1])
                    t += operation[1]
                elif operation[0] in ("reinitialize", "plain"):
                    # another value every time, sometimes at the time of the one before
                    value = second * (1.0 + 0.25 * len(given))
                    given.append(value)
                    originals.append(np.array(value))
                    ode.reinitialize(value, *operation[1:])
                    t, v = (operation[1] if len(operation) > 1 else 0.0), np.array(value)
                elif shape != "float":
                    # the array given is the user's own and may change later
                    given[-1] += 1.0
                    originals[-1] = originals[-1] + 1.0
                rec.step()
            rec.state(name, shape, word)
            rec.valid()
            rec.check(np.allclose(ode.solution, v, rtol=1e-11, atol=1e-11)
                      and abs(ode.time - t) <= 1e-13,
                      "sequence differs from a new integrator",
                      lambda: dict(word=word, got=ode.solution, expected=v, time=ode.time, t=t))
            rec.check(all(np.array_equal(a, b) for a, b in zip(given, originals)),
                      "given initial value is modified", lambda: dict(word=word, given=given))
            rec.check(all(np.array_equal(a, b) and np.array_equal(c, d)
                          for a, b, c, d in returned),
                      "stage value or right hand side is modified", lambda: dict(word=word))
    rec.outcome(f"{name} {shape}")


def _many(job, rec):
    """Many steps of one integrator, and of one which is reinitialized in between."""
    name = job["name"]
    method, rhs = METHODS[name][0], RHS["mixed"]
    for shape, often in itertools.product(["float", "vector"], [0, 97, 256]):
        first = SHAPES[shape]
        ode = method(rhs, first, initial_time=0.5)
        t, v = 0.5, np.array(first)
        for k in range(1, 1201 if name != "rk8" else 301):
            step = [0.001, 0.0005, 0.002][k % 3]
            ode.execute(step)
            v = ref_ode.step(name, rhs, t, v, step)
            t += step
            rec.step()
            if not (np.allclose(ode.solution, v, rtol=1e-10, atol=1e-10) and abs(ode.time - t) <= 1e-11):
                rec.violate("one of many steps", dict(name=name, shape=shape, k=k, got=ode.solution, expected=v, time=ode.time))
                break
            if often and k % often == 0:
                value = first * (1.0 + 1.0 / k)
                ode.reinitialize(value, 0.25)
                t, v = 0.25, np.array(value)
        rec.state("many", name, shape, often)
        rec.valid()
    rec.outcome(f"many {name}")


def _choice(job, rec):
    """The optimal integrator of a polynomial degree has at least order p + 1."""
    for p in range(1, 8):
        world = ScalarWorld("advection", lambda x: x)
        method = type(ode_solver(fe.SOLVERS["cg"](world, mesh_size=2, polynomial_degree=p)))
        name = ref_ode.optimal(p)
        rec.state("choice", p)
        rec.step()
        rec.valid()
        rec.check(method is METHODS[name][0], "optimal integrator",
                  dict(p=p, got=method.__name__, expected=name))
    rec.outcome("choice")
