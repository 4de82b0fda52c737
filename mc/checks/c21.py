"""Lagrange space.  All mesh sizes and degrees up to a bound are enumerated on several
intervals; for each space all unit vectors and a set of words of nodal values are
evaluated on a rational grid of points of every cell and compared with exact rational
Lagrange interpolation.  The numbering is enumerated completely.  Spaces with
hundreds of cells and scaled values are included."""
from fractions import Fraction

import numpy as np

import core
import finite_element

from .. import ref_fe
from ..worlds import Buffers

ASSUMPTIONS = ["degree at most eight (roundoff of the monomial representation)"]
DOMAINS = [(0.0, 1.0), (-1.0, 2.0), (0.25, 0.75), (10.0, 13.0)]


def jobs(tier):
    deep = tier == "thorough"
    result = []
    for p in range(1, 9):
        result.append(dict(kind="local", p=p, denominator=420 if deep else 60))
        for n in list(range(1, 9 if deep else 6)) + ([12, 25] if p < 3 else []):
            for domain in DOMAINS if deep or n < 4 else DOMAINS[1:2]:
                result.append(dict(kind="space", n=n, p=p, domain=domain, deep=deep))
        for n, domain in [(150 if p < 3 else 40, (0.0, 1.0)), (3, (0.0, 3e-6)), (2, (-2e5, 1e5)), (1, (0.0, 1e-9))]:
            result.append(dict(kind="space", n=n, p=p, domain=domain, deep=deep))
    return result


def run(job, rec):
    globals()["_" + job["kind"]](job, rec)


def _tolerance(p):
    return 1e-14 * 10**p


def _local(job, rec):
    p = job["p"]
    basis = finite_element.LocalLagrangeBasis(p)
    exact = ref_fe.basis(p)
    tol = _tolerance(p)
    rec.check(len(basis) == p + 1 and len(list(basis)) == p + 1, "number of elements")
    rec.check(np.allclose(basis.nodes, [k / p for k in range(p + 1)], atol=1e-15, rtol=0),
              "nodes of the local basis", list(basis.nodes))
    for i in range(p + 1):
        element = basis[i]
        rec.check(
            basis.get_element_at_node(basis.nodes[i]) is element
            or abs(basis.get_element_at_node(basis.nodes[i])(basis.nodes[i]) - 1) < tol,
            "element at node",
        )
        for j in range(p + 1):
            rec.step()
            rec.check(abs(element(j / p) - (i == j)) <= tol, "Kronecker property",
                      dict(i=i, j=j, p=p))
    points = [Fraction(k, job["denominator"]) for k in range(job["denominator"] + 1)]
    for x in points:
        values = [float(e(float(x))) for e in basis]
        slopes = [float(e.derivative(float(x))) for e in basis]
        rec.state("local", p, x)
        rec.step(2 * (p + 1))
        rec.valid()
        rec.check(abs(sum(values) - 1) <= tol, "partition of unity", dict(p=p, x=str(x)))
        rec.check(abs(sum(slopes)) <= 30 * tol, "derivatives sum to zero", dict(p=p, x=str(x)))
        for i in range(p + 1):
            v = float(ref_fe.poly_value(list(exact[i]), x))
            d = float(ref_fe.poly_value(ref_fe.poly_derivative(exact[i]), x))
            rec.check(abs(values[i] - v) <= tol, "value of a basis element",
                      lambda: dict(p=p, i=i, x=str(x), value=values[i], exact=v))
            rec.check(abs(slopes[i] - d) <= 30 * tol, "derivative of a basis element",
                      lambda: dict(p=p, i=i, x=str(x), value=slopes[i], exact=d))
    rec.outcome(f"local {p}")


def _words(dim, deep):
    for k in range(dim) if dim < 100 else [0, 1, dim // 2, dim - 2, dim - 1]:
        yield np.eye(dim)[k]
    yield np.ones(dim)
    yield np.arange(1.0, dim + 1)
    yield 1e-11 * np.cos(np.arange(dim))
    yield 1 + 1e-9 * np.cos(np.arange(dim))
    yield np.array([(-1.0) ** k * (1 + k % 3) for k in range(dim)])
    if deep and dim <= 6:
        from ..states import all_words

        yield from all_words([-1.0, 0.5, 2.0], dim)


def _special(rec, kind, space, ref, u, tol, detail):
    """Elements which know their points."""
    n, p = detail["n"], detail["p"]
    if kind is finite_element.AnchorNodesFastFiniteElement:
        element, points = kind(space), [k / p for k in range(p + 1)]
    else:
        quadrature = core.LocalElementQuadrature(p + 2)
        element, points = kind(space, quadrature), [(x + 1) / 2 for x in np.polynomial.legendre.leggauss(p + 2)[0]]
    h = ref.grid[1] - ref.grid[0] if n * p > 1 else detail["domain"][1] - detail["domain"][0]
    element.dof_vector = u.copy()
    element.set_values()
    element.set_derivatives()
    for cell in {0, n // 2, n - 1}:
        for k, x in enumerate(points):
            rec.step(2)
            rec.check(abs(element(cell, k) - ref.value(u, cell, x)) <= tol, "value of an element in its points",
                      lambda: dict(detail, kind=kind.__name__, cell=cell, x=x))
            rec.check(abs(element.derivative(cell, k) - ref.derivative(u, cell, x)) <= 30 * tol / h, "derivative of an element in its points",
                      lambda: dict(detail, kind=kind.__name__, cell=cell, x=x))


def _space(job, rec):
    n, p = job["n"], job["p"]
    # spaces of equal size on other intervals or of equal dimension are built before and after
    others = [(core.Interval(*d), n, p) for d in [(2.0, 2.5), (-1.0, 1.5)]]
    others += [(core.Interval(*job["domain"]), n * p // k, k) for k in (1, 2, 3) if n * p % k == 0]
    made = [finite_element.LagrangeSpace(core.UniformMesh(i, m), k) for i, m, k in others]
    a, b = job["domain"]
    mesh = core.UniformMesh(core.Interval(a, b), n)
    space = finite_element.LagrangeSpace(mesh, p)
    made += [finite_element.LagrangeSpace(core.UniformMesh(i, m), k) for i, m, k in others]
    for other, (i, m, k) in zip(made, 2 * others):
        rec.check(
            np.allclose(other.grid, ref_fe.Space(m, k, i.length, i.a).grid, rtol=0, atol=1e-13 * (abs(i.a) + abs(i.b))),
            "grid points of another space", lambda: dict(n=m, p=k, a=i.a, b=i.b, grid=other.grid))
    ref = ref_fe.Space(n, p, b - a, a)
    detail = dict(n=n, p=p, domain=job["domain"])
    rec.check(space.dimension == n * p and space.polynomial_degree == p, "dimension", detail)
    rec.check(
        np.shape(space.grid) == (n * p,)
        and np.allclose(space.grid, ref.grid, rtol=0, atol=1e-13 * (abs(a) + abs(b))),
        "grid points", lambda: dict(detail, grid=space.grid, expected=ref.grid))
    rec.check(space.grid[0] == a, "first grid point", detail)
    # numbering
    covered = {}
    for cell in range(n):
        for local in range(p + 1):
            index = space.global_index(cell, local)
            rec.step()
            rec.check(index == ref.cell_nodes(cell)[local], "global index",
                      dict(detail, cell=cell, local=local, index=index))
            covered.setdefault(index, set()).add(((cell * p + local) % (n * p)))
    rec.check(sorted(covered) == list(range(n * p)) and
              all(len(v) == 1 for v in covered.values()), "numbering is not one to one", detail)
    for degree in [2, 3]:
        fine = space.refine(degree)
        rec.check(fine.dimension == degree * n * p and fine.polynomial_degree == p
                  and len(fine.mesh) == degree * n, "refined space", detail)
        if n % degree == 0:
            coarse = space.coarsen(degree)
            rec.check(coarse.dimension == n * p // degree and coarse.polynomial_degree == p,
                      "coarsened space", detail)
    # elements
    h = (b - a) / n
    tol = 3 * _tolerance(p)
    points = [0.0, 0.1, 0.25, 0.5, 1 / 3, 0.875, 1.0]
    fast = finite_element.FastFiniteElement(space)
    # set for other points before, some of them as many
    for other in [points[:2], points[::-1], [0.4] * len(points)]:
        fast.set_values(*other)
        fast.set_derivatives(*other)
    fast.set_values(*points)
    fast.set_derivatives(*points)
    for made_element in (finite_element.QuadratureFastElement, finite_element.AnchorNodesFastFiniteElement):
        _special(rec, made_element, space, ref, np.cos(np.arange(n * p)), 30 * 3 * _tolerance(p), detail)
    buffers = Buffers()
    for u in _words(n * p, job["deep"]):
        element = space.element(u)
        fast.dof_vector = buffers(u)
        scale = np.max(np.abs(u))
        rec.state(n, p, a, u)
        rec.valid()
        # points in global coordinates suffer from cancellation
        xtol = 8 * p * p * 1e-16 * (abs(a) + abs(b)) / h * 50
        for cell in range(n):
            for k, x in enumerate(points):
                point = mesh[cell].a + x * h
                v, d = ref.value(u, cell, x), ref.derivative(u, cell, x)
                rec.step(4)
                for got in [element(cell, point), fast(cell, k)]:
                    rec.check(abs(got - v) <= (tol + xtol) * scale, "value of an element",
                              lambda: dict(detail, cell=cell, x=x, u=u, got=got, exact=v))
                for got in [element.derivative(cell, point), fast.derivative(cell, k)]:
                    rec.check(abs(got - d) <= 30 * (tol + xtol) * scale / h,
                              "derivative of an element",
                              lambda: dict(detail, cell=cell, x=x, u=u, got=got, exact=d))
            # continuity, across the seam, too
            right = (cell + 1) % n
            rec.check(
                abs(element(cell, mesh[cell].b) - element(right, mesh[right].a))
                <= 2 * (tol + xtol) * scale, "continuity",
                lambda: dict(detail, u=u, cell=cell))
        # nodal interpolation
        for i, x in enumerate(ref.grid):
            rec.check(abs(element(i // p, x) - u[i]) <= (tol + xtol) * scale,
                      "element does not interpolate", lambda: dict(detail, u=u, i=i))
    rec.outcome(f"space {p}")
