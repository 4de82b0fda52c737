"""Neighbour mappings and local bounds.  For all mesh sizes and degrees up to a
bound the neighbour indices are compared with sets enumerated from the geometry,
and local maxima and minima with brute force for all words over an alphabet on
small meshes and structured vectors on larger ones."""
import numpy as np

import core
import finite_element
import finite_volume

from .. import ref_fe, states

LETTERS = [-2.0, 0.0, 1.5]


def jobs(tier):
    deep = tier == "thorough"
    limit = 60000 if deep else 7000
    result = []
    for n in list(range(1, 10 if deep else 8)) + [16, 33, 300] + ([1025] if deep else []):
        for periodic in [False, True]:
            result.append(dict(kind="volume", n=n, periodic=periodic, limit=limit))
    for p in range(1, 8 if deep else 5):
        for n in list(range(1, 8 if deep else 6)) + [11, 150]:
            result.append(dict(kind="element", n=n, p=p, limit=limit))
    result.append(dict(kind="fine"))
    return result


def run(job, rec):
    globals()["_" + job["kind"]](job, rec)


def _space_of_states(n, limit):
    if len(LETTERS) ** n <= limit:
        return states.all_words(LETTERS, n)
    return states.patterns(states.SCALAR, n)


def _compare(rec, mapping, expected, limit, detail):
    n = len(expected)
    for i in range(n):
        got = sorted(int(j) for j in mapping(i))
        rec.step()
        rec.check(got == expected[i], "neighbour indices", lambda: dict(detail, i=i, got=got, expected=expected[i]))
        rec.check(sorted({int(j) for j in mapping.array[i]}) == expected[i], "neighbour array",
                  lambda: dict(detail, i=i))
        rec.check(i in expected[i] and all(i in expected[j] for j in expected[i]), "symmetry", detail)
    maximum, minimum = core.LocalMaximum(mapping), core.LocalMinimum(mapping)
    held = v = None
    for k, u in enumerate(_space_of_states(n, limit)):
        if k % 2:  # the array of the state before, changed in place
            v[:] = u
        else:
            v = u.copy()
        top, bottom = maximum(v), minimum(v)
        rec.state(sorted(detail.items()), u)
        rec.step(2)
        rec.valid()
        rec.check(
            np.array_equal(v, u)
            and np.array_equal(top, [max(u[j] for j in js) for js in expected])
            and np.array_equal(bottom, [min(u[j] for j in js) for js in expected]),
            "local bounds are not the bounds over the neighbours",
            lambda: dict(detail, u=u, top=top, bottom=bottom),
        )
        if held is not None:
            rec.check(
                all(np.array_equal(a, b) for a, b in zip(held[:2], held[2:])),
                "later calls change local bounds which were returned before",
                lambda: dict(detail, u=u, held=held),
            )
        held = (top, bottom, top.copy(), bottom.copy())


def _volume(job, rec):
    n, periodic = job["n"], job["periodic"]
    expected = []
    for i in range(n):
        js = {i}
        for j in (i - 1, i + 1):
            if 0 <= j < n:
                js.add(j)
            elif periodic:
                js.add(j % n)
        expected.append(sorted(js))
    _compare(rec, finite_volume.NeighbourIndicesMapping(n, periodic), expected, job["limit"],
             dict(kind="volume", n=n, periodic=periodic))
    rec.outcome(f"volume {periodic}")


def _element(job, rec):
    n, p = job["n"], job["p"]
    space = finite_element.LagrangeSpace(core.UniformMesh(core.Interval(0, 1), n), p)
    expected = ref_fe.Space(n, p, 1.0).neighbours
    _compare(rec, space.dof_neighbours, expected, job["limit"], dict(kind="element", n=n, p=p))
    # spaces without wrap around
    index = finite_element.GlobalIndexMapping(space.mesh, p, periodic=False)
    rec.check(index.dimension == n * p + 1 and not index.periodic, "dimension", dict(n=n, p=p))
    cells = [[c * p + k for k in range(p + 1)] for c in range(n)]
    for c in range(n):
        for k in range(p + 1):
            rec.step()
            rec.check(index(c, k) == cells[c][k], "global index", dict(n=n, p=p, c=c, k=k))
    expected = [
        sorted({j for cell in cells if i in cell for j in cell}) for i in range(n * p + 1)
    ]
    _compare(rec, finite_element.NeighbourIndicesMapping(index), expected, job["limit"],
             dict(kind="open element", n=n, p=p))
    rec.outcome(f"element {p}")


def _fine(job, rec):
    for n in [*range(1, 25), 300, 1200]:
        for degree in range(1, n + 2) if n < 25 else [1, 2, 3, 40, 60, n, n + 1]:
            rec.state("fine", n, degree)
            rec.step()
            rec.valid()
            if n % degree:
                try:
                    core.FineGridIndicesMapping(n, degree)
                    rec.violate("coarsening which does not divide is accepted", dict(n=n, degree=degree))
                except ValueError:
                    continue
            mapping = core.FineGridIndicesMapping(n, degree)
            got = [list(mapping(i)) for i in range(n // degree)]
            expected = [[i * degree + k for k in range(degree)] for i in range(n // degree)]
            rec.check(got == expected, "fine cells of a coarse cell", dict(n=n, degree=degree, got=got))
    rec.outcome("fine")
