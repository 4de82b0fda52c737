"""Finite element operators.  All mesh sizes and degrees up to a bound are enumerated on
several intervals; every entry of every matrix and vector is compared with the exact
rational integral, over all words of nodal values on small spaces and structured ones
on larger (the flux gradient by quadrature for degrees above five only in every
fourth of them in the quick tier), and the algebraic structure is checked.  Spaces
with hundreds of cells and scaled values are included."""
import numpy as np

import core
import finite_element as F

from .. import fe, ref_fe, states
from ..worlds import Buffers

ASSUMPTIONS = ["degree at most eight (roundoff of the monomial representation)"]
DOMAINS = [(0.0, 1.0), (-1.0, 2.0), (0.25, 0.75)]


def jobs(tier):
    deep = tier == "thorough"
    result = []
    for p in range(1, 9):
        for n in list(range(1, 9 if deep else 6)) + ([12, 30] if p < 3 else []):
            domains = DOMAINS if deep or n < 4 else DOMAINS[1:2]
            if p > 5 and not deep:
                domains = DOMAINS[1:2]
            for domain in domains:
                result.append(dict(n=n, p=p, domain=domain, limit=800 if deep else 90))
        for n, domain in [(130 if p == 1 else 60 if p == 2 else 15, (0.0, 1.0)), (3, (0.0, 3e-6)), (2, (-2e5, 1e5))]:
            if deep or n == 3 or p < 5:
                result.append(dict(n=n, p=p, domain=domain, limit=12))
    return result


def _dense(matrix):
    return np.asarray(matrix().toarray())


def _strangers(n, p):
    """Operators on spaces of equal size on another interval and of equal dimension."""
    spaces = [(n, p, 2.5)] + [(n * p // k, k, 1.5) for k in (1, 2) if n * p % k == 0]
    for m, k, length in spaces:
        space = F.LagrangeSpace(core.UniformMesh(core.Interval(-2.0, length - 2.0), m), k)
        u = np.linspace(-1.0, 2.0, m * k)
        F.MassMatrix(space)(), F.DiscreteGradient(space)(), F.DiscreteUpwind(space)()
        F.LumpedMassVector(space)(np.zeros(m * k))
        F.BurgersArtificialDiffusion(space).assemble(u)
        for problem in ["advection", "burgers"]:
            for exact in [False, True]:
                F.build_flux_gradient(problem, space, exact)(u)


def run(job, rec):
    n, p = job["n"], job["p"]
    a, b = job["domain"]
    dim = n * p
    _strangers(n, p)
    mesh = core.UniformMesh(core.Interval(a, b), n)
    space = F.LagrangeSpace(mesh, p)
    ref = ref_fe.Space(n, p, b - a, a)
    tol = 1e-14 * 8**p
    detail = dict(n=n, p=p, domain=job["domain"])

    def same(name, got, expected, scale=1.0, **more):
        got, expected = np.asarray(got), np.asarray(expected)
        rec.step()
        rec.check(
            got.shape == expected.shape
            and bool(np.all(np.abs(got - expected) <= tol * scale)),
            f"{name} differs from the exact integral",
            lambda: dict(detail, got=got, expected=expected, **more),
        )

    mass, gradient = F.MassMatrix(space), F.DiscreteGradient(space)
    lumped = F.LumpedMassVector(space)(np.zeros(dim))
    M, C = _dense(mass), _dense(gradient)
    rec.state("matrices", n, p, a)
    h = (b - a) / n
    same("mass matrix", M, ref.M, h)
    same("discrete gradient", C, ref.C)
    same("lumped mass", np.ravel(lumped), ref.m, h)
    same("symmetric mass", M, M.T, h)
    same("row sums of mass", M.sum(axis=1), np.ravel(lumped), h)
    same("skew symmetric gradient", C, -C.T)
    same("row sums of gradient", C.sum(axis=1), np.zeros(dim))
    if n > 1 and dim > 1:
        rec.check(np.all(np.linalg.eigvalsh((M + M.T) / 2) > 0), "mass is not positive definite", detail)
    for i in range(dim):
        for j in range(dim):
            rec.check(mass[i, j] == M[i, j] and gradient[i, j] == C[i, j],
                      "entries differ from the matrix", detail)
    rec.valid()

    D = _dense(F.build_artificial_diffusion("advection", space))
    same("upwind diffusion", D, ref.diffusion("advection", np.ones(dim)))

    upwind = F.DiscreteUpwind(space)
    same("upwind diffusion", _dense(upwind), D)
    burgers = F.BurgersArtificialDiffusion(space)
    flux_gradients = {
        (problem, exact): F.build_flux_gradient(problem, space, exact)
        for problem in ["advection", "burgers"]
        for exact in [False, True]
    }
    approximation = {
        problem: F.build_flux_approximation(problem) for problem in ["advection", "burgers"]
    }
    words = fe.space_of_states(dim, job["limit"]) if dim > 2 else list(
        states.all_words(states.SCALAR, dim))
    quadrature, buffers = {}, Buffers()
    for d in [p, p + 1]:
        quadrature[d] = np.array(core.LocalElementQuadrature(d).nodes)
    _strangers(n, p)
    for k, u in enumerate(states.magnified(words, 4) if dim > 2 or p > 1 else words):
        rec.state(n, p, a, u)
        rec.valid()
        size = np.max(np.abs(u))
        buffer = buffers(u)
        burgers.assemble(buffer)
        D = _dense(burgers)
        same("burgers diffusion", D, ref.diffusion("burgers", u), 4 * size, u=u)
        off = D - np.diag(np.diagonal(D))
        rec.check(np.all(off >= 0), "negative off-diagonal diffusion", lambda: dict(detail, u=u))
        same("symmetric diffusion", D, D.T, size, u=u)
        same("row sums of diffusion", D.sum(axis=1), np.zeros(dim), size * dim, u=u)
        same("product with diffusion", burgers.dot(u), D @ u, size**2 * dim, u=u)
        for problem in ["advection", "burgers"]:
            scale = size if problem == "advection" else size**2
            same("flux approximation", approximation[problem](buffer), ref.flux(problem, u), scale, u=u)
            same(
                f"{problem} flux gradient", flux_gradients[problem, False](buffer),
                -ref.C @ ref.flux(problem, u), 10 * scale * dim, u=u,
            )
            # the evaluation by quadrature is slow for high degrees
            if p <= 5 or k % 4 == 0 or job["limit"] > 100:
                same(
                    f"exact {problem} flux gradient", flux_gradients[problem, True](buffer),
                    ref.exact_flux_gradient(problem, u), 100 * scale * dim, u=u,
                )
        if k < 6:
            for degree, kind in [(p + 1, "value"), (p, "derivative")]:
                nodes = quadrature[degree]
                left = lambda cell, index: ref.value(u, cell, nodes[index])
                if kind == "value":
                    vector = F.BasisL2Product(left, space, degree)()
                    expected, scale = ref.M @ u, size * h
                else:
                    vector = F.BasisGradientL2Product(left, space, degree)()
                    expected, scale = ref.C.T @ u, size
                same(f"L2 product with basis {kind}", vector, expected, 10 * scale * dim, u=u)
    rec.outcome(f"p={p}")
