"""Norms.  Every word of cellwise polynomials over an alphabet on every small mesh is
given to the norms (scalar, vector valued and over a time axis) and compared with
exact integrals and maxima.  Shapes which vanish at the center, the ends or the nodes
of a quadrature are part of the alphabet, and single cells of meshes with hundreds of
cells are varied."""
import itertools

import numpy as np
from numpy.polynomial import Polynomial

import core

ASSUMPTIONS = ["polynomials keep their sign in a cell (L1), roundoff 1e-11"]
# polynomials of the reference coordinate in [0, 1] which keep their sign
SHAPES = [
    [0.0], [1.0], [-2.0], [0.0, 1.0], [-1.0, 0.5], [1.0, -1.0], [0.0, 0.0, 3.0], [-1.0, 2.0, -1.0],
    [1.0, 0.0, 0.0, 2.0], [0.0, -1.0, 1.0], [2.0, 0.0, 0.0, 0.0, -1.0],
    # zeros at the center, at both ends, and at the nodes of quadratures
    [0.25, -1.0, 1.0], [-0.25, 1.0, -1.0], [0.0, 0.0, 1.0, -2.0, 1.0], [0.0, 0.25, -1.25, 2.0, -1.0],
    [1 / 36, -1 / 3, 4 / 3, -2.0, 1.0], [0.0625, -0.5, 1.0], [0.0, 1e-9],
]
INTERVALS = [(0, 1), (-1, 3), (0.5, 0.75), (0, 2.0**-20), (0, 2.0**23)]
SCALES = [2.0**-40, 2.0**-60, 2.0**30, 2.0**-20, 2.0**-120]


def jobs(tier):
    deep = tier == "thorough"
    return [dict(interval=i, n=n, deep=deep) for i in range(len(INTERVALS))
            for n in ([1, 2, 3] if not deep else [1, 2, 3, 4])] + [
        dict(interval=i, n=n, deep=deep) for i in range(len(INTERVALS)) for n in [7, 20]] + [
        dict(interval=i, n=n, large=True) for i in range(len(INTERVALS))
        for n in ([101, 256, 401] if not deep else [64, 101, 128, 200, 256, 257, 401, 1024])]


def run(job, rec):
    a, b = INTERVALS[job["interval"]]
    n = job["n"]
    mesh = core.UniformMesh(core.Interval(a, b), n)
    h = (b - a) / n
    if job.get("large"):
        _large(rec, mesh, h, a, b, n)
        return
    _infinite(rec, mesh, n)
    if n <= 4:
        letters = range(len(SHAPES)) if n < 3 or job["deep"] else [0, 2, 3, 5, 7]
        space = itertools.product(letters if n < 4 else [0, 2, 4, 5, 7, 8], repeat=n)
    else:
        space = [tuple((i * k + j) % len(SHAPES) for i in range(n)) for k in range(3)
                 for j in range(len(SHAPES))]
    for number, word in enumerate(space):
        _judge(rec, mesh, h, word, a, b, n, job["deep"])
        # the same function with tiny and huge values
        for scale in SCALES if job["deep"] else [SCALES[number % len(SCALES)]]:
            _judge(rec, mesh, h, word, a, b, n, job["deep"], scale)


def _infinite(rec, mesh, n):
    """A function which is not finite in one cell does not have a finite norm."""
    for bad in (np.inf, -np.inf, np.nan):
        for spike in range(n):
            function = lambda cell, x: bad if cell == spike else 1.0
            both = lambda cell, x: np.array([1.0, function(cell, x)])
            for norm in (core.L1Norm(mesh), core.L2Norm(mesh), core.solver_spaces(mesh)):
                with np.errstate(all="ignore"):
                    one, two = norm(function), norm(both)
                rec.step(2)
                rec.state("infinite", n, str(bad), spike, type(norm).__name__)
                rec.check(not np.isfinite(one) and np.isfinite(two[0]) and not np.isfinite(two[1]), "norm of a function which is not finite",
                          lambda: dict(n=n, value=str(bad), spike=spike, norm=type(norm).__name__, got=one, vector=two))


def _large(rec, mesh, h, a, b, n):
    """Every cell of large meshes counts: one cell differs from all others."""
    for spike in range(n):
        # a bump which vanishes at the center of its cell, everything else is zero
        left = a + spike * h
        bump = lambda cell, x: 4.0 * ((x - left) / h - 0.5) ** 2 if cell == spike else 0.0 * x
        got = core.L1Norm(mesh, quadrature_degree=3)(bump), core.L2Norm(mesh, quadrature_degree=3)(bump), core.solver_spaces(mesh, points_per_cell=2)(bump)
        expected = h / 3, np.sqrt(h / 5), 1.0
        rec.check(all(abs(x - y) <= 1e-11 * max(y, 1e-3) for x, y in zip(got, expected)), "norm of a bump in one cell",
                  lambda: dict(n=n, spike=spike, got=got, expected=expected))

        def function(cell, x):
            return -5.0 if cell == spike else 0.25 + 0.0 * x

        rec.state(a, b, n, spike)
        rec.valid()
        rec.step(3)
        for norm, expected in [(core.L1Norm(mesh), h * (5.0 + 0.25 * (n - 1))),
                               (core.L2Norm(mesh), np.sqrt(h * (25.0 + 0.0625 * (n - 1)))),
                               (core.solver_spaces(mesh, points_per_cell=2), 5.0)]:
            got = norm(function)
            rec.check(abs(got - expected) <= 1e-11 * (1 + expected), "norm differs from its definition",
                      lambda: dict(n=n, spike=spike, norm=type(norm).__name__, got=got, expected=expected))
    rec.outcome("large")


def _judge(rec, mesh, h, word, a, b, n, deep, scale=1.0):
    polynomials = [Polynomial(SHAPES[i]) * scale for i in word]
    degree = max(p.degree() for p in polynomials)

    def function(cell, x):
        return polynomials[cell]((x - (a + cell * h)) / h)

    detail = lambda: dict(word=word, interval=(a, b), scale=scale)
    l1 = h * sum(abs(p.integ()(1) - p.integ()(0)) for p in polynomials)
    l2 = np.sqrt(h * sum((p * p).integ()(1) - (p * p).integ()(0) for p in polynomials))
    rec.state(a, b, word, scale)
    rec.valid()
    weights = {"L1": h, "L2": np.sqrt(h)}
    close = lambda x, y, unit=1.0, key=None: np.shape(x) == np.shape(y) and np.all(
        np.abs(np.asarray(x) - y) <= 1e-11 * (scale * weights.get(key, 1.0) * np.abs(unit) + np.abs(y)))
    lines = {}
    for q in range(1, 8):
        if degree <= 2 * q - 1:
            lines["L1", q] = core.L1Norm(mesh, quadrature_degree=q)(function), l1
        if 2 * degree <= 2 * q - 1:
            lines["L2", q] = core.L2Norm(mesh, quadrature_degree=q)(function), l2
    for m in [2, 3, 7, 10, None]:
        points = np.linspace(0, 1, m or 10)
        expected = max(np.max(np.abs(p(points))) for p in polynomials)
        kwargs = {} if m is None else dict(points_per_cell=m)
        lines["Linf", m] = core.solver_spaces(mesh, **kwargs)(function), expected
    for key, (got, expected) in lines.items():
        rec.step()
        rec.check(close(got, expected, key=key[0]), "norm differs from its definition",
                  lambda: dict(detail(), norm=key, got=got, expected=expected))
        rec.outcome(f"{key[0]} positive={expected > 0}")
        if not any(any(SHAPES[i]) for i in word):
            rec.check(got == 0, "norm of zero", detail)
    # default quadrature: midpoint rule
    rec.check(close(core.L1Norm(mesh)(function), h * sum(abs(p(0.5)) for p in polynomials), key="L1")
              and close(core.L2Norm(mesh)(function),
                        np.sqrt(h * sum(p(0.5) ** 2 for p in polynomials)), key="L2"),
              "default quadrature", detail)
    # vector valued, over a time axis, homogeneous
    factors = np.array([1.0, -2.0, 0.0, 0.5])
    table = np.outer([1.0, -3.0, 0.25], factors[:2])
    mixed = np.outer([1.0, -3.0, 2.0**-45, 2.0**-90, 0.0], factors[:2])
    for key, norm, expected in [("L1", core.L1Norm(mesh, quadrature_degree=6), l1),
                           ("L2", core.L2Norm(mesh, quadrature_degree=6), l2),
                           ("Linf", core.solver_spaces(mesh, points_per_cell=4),
                            max(np.max(np.abs(p(np.linspace(0, 1, 4)))) for p in polynomials))]:
        rec.step(2)
        rec.check(close(norm(lambda c, x: factors * function(c, x)), np.abs(factors) * expected, key=key),
                  "norm of a vector valued function", detail)
        rec.check(close(norm(lambda c, x: table * function(c, x)), np.abs(table) * expected, key=key),
                  "norm over a time axis", detail)
        rec.check(close(norm(lambda c, x: mixed * function(c, x)), np.abs(mixed) * expected, mixed, key),
                  "norm over a time axis with tiny values", detail)
        # different functions in the components
        other = Polynomial([1.0, -0.5])
        both = norm(lambda c, x: np.array([function(c, x), other((x - a - c * h) / h)]))
        single = norm(lambda c, x: other((x - a - c * h) / h))
        rec.check(close(both, np.array([expected, single]), key=key), "components are mixed", detail)
