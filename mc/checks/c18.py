"""Gaussian quadrature rules.  Every number of nodes up to a bound, every interval of an
alphabet and every monomial up to the degree of exactness are enumerated and compared
with exact rational integrals.  Intervals of very different lengths and intervals
close to the reference intervals are included."""
from fractions import Fraction

import numpy as np

import core

from .c17 import INTERVALS

ASSUMPTIONS = ["equality up to 1e-12 relative to the interval"]


def jobs(tier):
    top = 25 if tier == "thorough" else 14
    return [dict(n=n) for n in [*range(0, top + 1), 33, 64]]


def run(job, rec):
    n = job["n"]
    if n == 0:
        for build in [lambda: core.SpecificGaussianQuadrature(0),
                      lambda: core.LocalElementQuadrature(0),
                      lambda: core.GaussianQuadrature(-1, core.Interval(0, 2))]:
            try:
                build()
            except AssertionError:
                rec.outcome("rejected")
                rec.state("rejected")
                continue
            rec.violate("quadrature without nodes is accepted")
        return
    _judge(rec, core.SpecificGaussianQuadrature(n), n, -1.0, 1.0, "specific")
    _judge(rec, core.LocalElementQuadrature(n), n, 0.0, 1.0, "local")
    for a, b in [*INTERVALS, (0.0, 1e-9), (-3e-5, 1e-5), (0.0, 1e7), (1000.0, 1000.5),
                 # close to the reference intervals
                 (-1.0, 1.0 + 1e-6), (-1.0 - 5e-6, 1.0), (-1.0 + 1e-9, 1.0 + 1e-9), (-1.0, 1.0 - 1e-4), (-1.001, 1.001),
                 (0.0, 1.0 + 1e-6), (1e-7, 1.0), (-3e-6, 1.0 - 3e-6), (0.0, 0.999), (1.0, 2.0), (-1, 0), (-1.0, 2.0), (-2, 1),
                 (-1e-9, 1e-9), (-7.0, 7.0), (1.0, 1.0 + 1e-6)]:
        _judge(rec, core.GaussianQuadrature(n, core.Interval(a, b)), n, float(a), float(b), "general")
    _judge(rec, core.GaussianQuadrature(n, core.Interval(-1, 1)), n, -1.0, 1.0, "general")
    _judge(rec, core.GaussianQuadrature(n, core.Interval(0, 1)), n, 0.0, 1.0, "general")
    # building others changes nothing
    old = core.GaussianQuadrature(n, core.Interval(2, 5))
    nodes, weights = np.array(old.nodes), np.array(old.weights)
    core.GaussianQuadrature(n, core.Interval(0, 7))
    core.LocalElementQuadrature(n)
    core.SpecificGaussianQuadrature(n + 1)
    rec.check(np.array_equal(nodes, old.nodes) and np.array_equal(weights, old.weights)
              and old.domain == core.Interval(2, 5), "rules share data", dict(n=n))


def _judge(rec, rule, n, a, b, kind):
    h, center = b - a, (a + b) / 2
    scale = max(abs(a), abs(b), h)
    nodes, weights = np.array(rule.nodes, dtype=float), np.array(rule.weights, dtype=float)
    detail = lambda: dict(kind=kind, n=n, a=a, b=b, nodes=nodes, weights=weights)
    rec.state(kind, n, a, b)
    rec.valid()
    rec.outcome(f"{kind} {n}")
    rec.check(len(nodes) == len(weights) == n == rule.degree, "number of nodes", detail)
    rec.check((rule.domain.a, rule.domain.b) == (a, b), "domain", detail)
    rec.check(np.all(np.diff(nodes) > 0) and a < nodes[0] and nodes[-1] < b,
              "nodes are not sorted inside the interval", detail)
    rec.check(np.allclose(nodes + nodes[::-1], a + b, rtol=0, atol=1e-12 * scale)
              and np.allclose(weights, weights[::-1], rtol=0, atol=1e-12 * h),
              "nodes are not symmetric", detail)
    rec.check(np.all(weights > 0) and abs(weights.sum() - h) <= 1e-12 * h,
              "weights are not positive with the sum of the length", detail)
    for k in range(2 * n + 1):
        # monomials of the reference coordinate in [-1, 1]
        function = lambda x: ((x - center) * 2 / h) ** k
        got = rule.integrate(function)
        exact = float(Fraction(0) if k % 2 else Fraction(2, k + 1)) * h / 2
        rec.step()
        if k < 2 * n:
            rec.check(abs(got - exact) <= 1e-12 * h * (1 + scale / h * 1e-2 * k),
                      "monomial is not integrated exactly",
                      lambda: dict(detail(), k=k, got=got, exact=exact))
            # the same on [0, 1], not symmetric
            shifted = rule.integrate(lambda x: ((x - a) / h) ** k)
            rec.check(abs(shifted - h / (k + 1)) <= 1e-12 * h * (1 + scale / h * 1e-2 * k),
                      "shifted monomial is not integrated exactly",
                      lambda: dict(detail(), k=k, got=shifted))
        elif n <= 8:
            rec.check(abs(got - exact) > 1e-9 * h, "vacuous: one degree more is exact",
                      lambda: dict(detail(), k=k, got=got))
    # Legendre polynomials of the reference coordinate have no mean value
    x = (nodes - center) * 2 / h
    before, now = np.ones(n), x
    for k in range(1, 2 * n):
        rec.step()
        got = weights @ now
        rec.check(abs(got) <= 1e-12 * h * (1 + scale / h * 1e-2 * k), "Legendre polynomial is not integrated exactly",
                  lambda: dict(kind=kind, n=n, a=a, b=b, k=k, got=got))
        before, now = now, ((2 * k + 1) * x * now - k * before) / (k + 1)
    # linearity and constants
    rec.check(abs(rule.integrate(lambda x: 3.0) - 3 * h) <= 1e-11 * h, "constant", detail)
    rec.check(rule.integrate(lambda x: 0.0) == 0, "zero", detail)
