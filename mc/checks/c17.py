"""Meshes partition the domain.  All mesh sizes up to a bound on all intervals of an
alphabet, every cell, every refinement and coarsening degree and every point of the
grids of nodes, midpoints and points close to nodes are enumerated, and intervals
that are close to cells without being one."""
import itertools
from fractions import Fraction

import numpy as np

import core
import finite_element
import finite_volume

ASSUMPTIONS = ["nodes are compared with exact rational nodes up to relative roundoff 1e-13"]
INTERVALS = [(0, 1), (-1, 1), (0, 2 * np.pi), (-3.7, -0.2), (0.1, 0.3), (1e-6, 3e-6), (-100, 250),
             (1000, 1001), (-0.5, 0.0), (0, 1e4)]


def jobs(tier):
    deep = tier == "thorough"
    return [dict(kind="mesh", interval=i, deep=deep) for i in range(len(INTERVALS))] + [
        dict(kind="interval"), dict(kind="affine", deep=deep)]


def run(job, rec):
    globals()["_" + job["kind"]](job, rec)


def _mesh(job, rec):
    a, b = INTERVALS[job["interval"]]
    domain = core.Interval(a, b)
    A, B = Fraction(float(a)), Fraction(float(b))
    scale = max(abs(a), abs(b))
    sizes = [*range(1, 41), 64, 100, 127, 256, 401, 1000] + ([*range(41, 300, 7), 1000] if job["deep"] else [])
    meshes = {n: core.UniformMesh(domain, n) for n in sizes}
    for n, mesh in meshes.items():
        cells = list(mesh)
        detail = lambda: dict(interval=(a, b), n=n)
        rec.state(job["interval"], n)
        rec.step(n)
        rec.valid()
        rec.check(len(mesh) == n == len(cells), "number of cells", detail)
        rec.check(mesh.domain.a == a and mesh.domain.b == b, "domain", detail)
        rec.check(cells[0].a == a and cells[-1].b == b, "cells do not end at the domain", detail)
        rec.check(all(c.b == d.a for c, d in zip(cells, cells[1:])), "gap between cells", detail)
        nodes = [A + (B - A) * k / n for k in range(n + 1)]
        ok = all(abs(float(nodes[k]) - c.a) <= 1e-13 * scale
                 and abs(float(nodes[k + 1]) - c.b) <= 1e-13 * scale for k, c in enumerate(cells))
        rec.check(ok, "cells are not of equal length", detail)
        h = float((B - A) / n)
        rec.check(abs(mesh.step_length - h) <= 1e-13 * h, "step length", detail)
        rec.check(np.shape(mesh.space_steps) == (n,)
                  and np.all(np.abs(mesh.space_steps - h) <= 1e-13 * h), "space steps", detail)
        rec.check(all(mesh[i] == c and mesh.index(c) == i for i, c in enumerate(cells)), "index",
                  detail)
        others = [core.Interval(a, cells[n // 2].center), core.Interval(a - 1, b + 1), core.Interval(b, b + h)]
        others += [core.Interval(cells[0].a, cells[1].b)] if n > 2 else []
        for other in others:
            try:
                i = mesh.index(other)
            except Exception:
                continue
            rec.violate("an interval which is no cell has an index", lambda: dict(detail(), got=i))
        # points
        grid = [a] + [c.b for c in cells]
        points = []
        for i, x in enumerate(grid):
            for y in (x, np.nextafter(x, -np.inf), np.nextafter(x, np.inf)):
                points.append(y)
            if i:
                points += [(grid[i - 1] + x) / 2, grid[i - 1] + 0.1 * (x - grid[i - 1])]
        points += [a - 1, b + 1]
        for x in points if n <= 40 or job["deep"] else points[:50] + points[-20:]:
            expected = [i for i, c in enumerate(cells) if c.a <= x <= c.b]
            rec.step()
            rec.check(list(mesh.find_cell_indices(x)) == expected, "cells of a point",
                      lambda: dict(detail(), x=x, got=mesh.find_cell_indices(x), expected=expected))
            rec.check([(c.a, c.b) for c in mesh.find_cells(x)]
                      == [(cells[i].a, cells[i].b) for i in expected], "cells of a point",
                      lambda: dict(detail(), x=x))
        # refinement and coarsening
        for degree in range(1, 9):
            fine = mesh.refine(degree)
            rec.step()
            rec.check(len(fine) == n * degree and fine.domain == domain
                      and fine == core.UniformMesh(domain, n * degree), "refinement",
                      lambda: dict(detail(), degree=degree))
            rec.check(all(abs(fine[i * degree].a - c.a) <= 1e-13 * scale
                          and abs(fine[(i + 1) * degree - 1].b - c.b) <= 1e-13 * scale
                          for i, c in enumerate(cells)), "refined cells", detail)
            try:
                coarse = mesh.coarsen(degree)
            except AssertionError:
                rec.outcome("rejected")
                rec.check(n % degree != 0, "coarsening is refused",
                          lambda: dict(detail(), degree=degree))
                continue
            rec.check(n % degree == 0 and len(coarse) == n // degree and coarse.domain == domain
                      and abs(coarse.step_length - degree * h) <= 1e-12 * h, "coarsening",
                      lambda: dict(detail(), degree=degree, got=len(coarse)))
            rec.outcome("coarsened")
        rec.check(mesh.refine() == mesh.refine(2), "default refinement", detail)
        # spaces on the mesh
        space = finite_volume.FiniteVolumeSpace(mesh)
        rec.check(np.allclose(space.grid, [float((x + y) / 2) for x, y in zip(nodes, nodes[1:])],
                              rtol=0, atol=1e-13 * scale) and space.dimension == n,
                  "cell centers", detail)
        if n <= 12:
            for p in range(1, 5):
                element_space = finite_element.LagrangeSpace(mesh, p)
                rec.check(len(element_space.refine(3).mesh) == 3 * n
                          and element_space.refine(3).polynomial_degree == p, "refined space",
                          detail)
            rec.check(len(space.refine(3).mesh) == 3 * n, "refined space", detail)
    for n, m in itertools.product(list(sizes)[:20], repeat=2):
        rec.check((meshes[n] == core.UniformMesh(domain, m)) == (n == m), "equality of meshes",
                  dict(n=n, m=m))


def _interval(job, rec):
    numbers = [-2, -0.5, 0, 0.25, 1, 1e-9, 3, 7.5]
    for a, b in itertools.product(numbers, repeat=2):
        rec.state(a, b)
        rec.step()
        rec.valid()
        if not a < b:
            try:
                core.Interval(a, b)
            except AssertionError:
                rec.outcome("rejected")
                continue
            rec.violate("empty interval is accepted", dict(a=a, b=b))
            continue
        interval = core.Interval(a, b)
        rec.outcome("interval")
        detail = dict(a=a, b=b)
        rec.check(abs(interval.length - (float(b) - float(a))) <= 1e-15 * (abs(a) + abs(b)) and abs(interval.center - (a + b) / 2) <= 1e-15 * (abs(a) + abs(b))
                  and interval.a == a and interval.b == b, "length and center", detail)
        for x in [*numbers, np.nextafter(a, -9), np.nextafter(b, 9), (a + b) / 2]:
            rec.check((x in interval) == (a <= x <= b), "containment", dict(detail, x=x))
            rec.check(interval.is_in_inner(x) == (a < x < b), "inner", dict(detail, x=x))
            rec.check(interval.is_in_boundary(x) == (x == a or x == b), "boundary",
                      dict(detail, x=x))
        for c, d in itertools.product(numbers, repeat=2):
            if c < d:
                other = core.Interval(c, d)
                rec.check((interval == other) == ((a, b) == (c, d)), "equality",
                          dict(detail, c=c, d=d))
                if interval == other:
                    rec.check(hash(interval) == hash(other), "hash", detail)


def _affine(job, rec):
    mapping = core.AffineTransformation()
    for a, b in INTERVALS:
        for n in range(1, 9):
            for cell in core.UniformMesh(core.Interval(a, b), n):
                scale = max(abs(cell.a), abs(cell.b))
                rec.state(a, b, n, cell.a)
                rec.valid()
                detail = lambda: dict(cell=(cell.a, cell.b))
                h = cell.b - cell.a
                rec.check(mapping.derivative(cell) == h
                          and abs(mapping.inverse_derivative(cell) * h - 1) < 1e-14, "derivative",
                          detail)
                for k in range(-4, 13):
                    t = k / 8
                    x = mapping(t, cell)
                    rec.step()
                    rec.check(abs(x - (cell.a + t * h)) <= 1e-14 * (scale + h), "mapping", detail)
                    rec.check(abs(mapping.inverse(x, cell) - t) <= 1e-14 * (1 + scale / h) * 4,
                              "inverse", lambda: dict(detail(), t=t))
                    y = cell.a + k * h / 8
                    rec.check(abs(mapping(mapping.inverse(y, cell), cell) - y)
                              <= 1e-14 * (scale + h), "inverse", detail)
    rec.outcome("affine")
