"""Reference model of the periodic finite element schemes.

All integrals are computed exactly with rational polynomials from the
definition of the Lagrange basis; matrices are dense.
"""
import itertools
from fractions import Fraction
from functools import lru_cache

import numpy as np


# ------------------------------------------------------- rational polynomials
def poly_mul(a, b):
    c = [Fraction(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            c[i + j] += x * y
    return c


def poly_derivative(a):
    return [k * a[k] for k in range(1, len(a))] or [Fraction(0)]


def poly_integral(a):
    """Integral over [0, 1]."""
    return sum(c / (k + 1) for k, c in enumerate(a))


def poly_value(a, x):
    value = 0 * x
    for c in reversed(a):
        value = value * x + (c if isinstance(x, Fraction) else float(c))
    return value


@lru_cache(maxsize=None)
def basis(p):
    """Lagrange polynomials of the nodes k/p."""
    nodes = [Fraction(k, p) for k in range(p + 1)]
    result = []
    for i in range(p + 1):
        poly = [Fraction(1)]
        for j in range(p + 1):
            if j != i:
                d = nodes[i] - nodes[j]
                poly = poly_mul(poly, [-nodes[j] / d, 1 / d])
        result.append(tuple(poly))
    return tuple(result)


@lru_cache(maxsize=None)
def local_matrices(p):
    b = basis(p)
    d = [poly_derivative(x) for x in b]
    mass = [[float(poly_integral(poly_mul(x, y))) for y in b] for x in b]
    gradient = [[float(poly_integral(poly_mul(x, y))) for y in d] for x in b]
    lumped = [float(poly_integral(x)) for x in b]
    # integral of phi_k phi_l phi_i'
    triple = np.array(
        [
            [[float(poly_integral(poly_mul(poly_mul(x, y), z))) for z in d] for y in b]
            for x in b
        ]
    )
    return np.array(mass), np.array(gradient), np.array(lumped), triple


class Space:
    def __init__(self, n, p, length, a=0.0):
        self.n, self.p, self.length, self.a = n, p, length, a
        self.h = length / n
        self.dim = n * p
        m, c, l, self.triple = local_matrices(p)
        self.M = np.zeros((self.dim, self.dim))
        self.C = np.zeros((self.dim, self.dim))
        self.m = np.zeros(self.dim)
        for cell in range(n):
            nodes = self.cell_nodes(cell)
            for i, gi in enumerate(nodes):
                self.m[gi] += l[i] * self.h
                for j, gj in enumerate(nodes):
                    self.M[gi, gj] += m[i, j] * self.h
                    self.C[gi, gj] += c[i, j]
        self.Minv = np.linalg.inv(self.M)
        self.grid = np.array([a + self.h * k / p for k in range(self.dim)])
        self.neighbours = [
            sorted(
                {
                    j
                    for cell in range(n)
                    if i in self.cell_nodes(cell)
                    for j in self.cell_nodes(cell)
                }
            )
            for i in range(self.dim)
        ]

    def cell_nodes(self, cell):
        return [(cell * self.p + k) % self.dim for k in range(self.p + 1)]

    def flux(self, problem, u):
        return u if problem == "advection" else 0.5 * u * u

    def diffusion(self, problem, u):
        A = np.abs(self.C) if problem == "advection" else np.abs(self.C * u[None, :])
        D = np.maximum(A, A.T)
        np.fill_diagonal(D, 0.0)
        np.fill_diagonal(D, -D.sum(axis=1))
        return D

    def time_step(self, problem, u):
        d = np.abs(np.diagonal(self.diffusion(problem, u)))
        return np.min(np.where(d > 0, self.m / (2 * np.where(d > 0, d, 1.0)), np.inf))

    def bounds(self, u):
        return (
            np.array([max(u[j] for j in js) for js in self.neighbours]),
            np.array([min(u[j] for j in js) for js in self.neighbours]),
        )

    def exact_flux_gradient(self, problem, u):
        if problem == "advection":
            return -self.C @ u
        result = np.zeros(self.dim)
        for cell in range(self.n):
            nodes = self.cell_nodes(cell)
            v = u[nodes]
            np.add.at(result, nodes, 0.5 * np.einsum("kli,k,l->i", self.triple, v, v))
        return result

    def cg(self, problem, exact=False):
        if exact:
            return lambda t, u: self.Minv @ self.exact_flux_gradient(problem, u)
        return lambda t, u: self.Minv @ (-self.C @ self.flux(problem, u))

    def cg_low(self, problem):
        def rhs(t, u):
            D = self.diffusion(problem, u)
            return (D @ u - self.C @ self.flux(problem, u)) / self.m

        return rhs

    def mcl(self, problem):
        low = self.cg_low(problem)

        def rhs(t, u):
            D, f = self.diffusion(problem, u), self.flux(problem, u)
            du = low(t, u)
            top, bottom = self.bounds(u)
            correction = np.zeros(self.dim)
            for cell in range(self.n):
                for i, j in itertools.combinations(self.cell_nodes(cell), 2):
                    d, c = D[i, j], self.C[i, j]
                    target = self.M[i, j] * (du[i] - du[j]) + d * (u[i] - u[j])
                    # bar states of both nodes
                    bar = d * (u[i] + u[j]) + (f[i] - f[j]) * c
                    high = min(2 * d * top[i] - bar, bar - 2 * d * bottom[j])
                    low_ = max(2 * d * bottom[i] - bar, bar - 2 * d * top[j])
                    limited = max(low_, min(high, target))
                    correction[i] += limited
                    correction[j] -= limited
            return du + correction / self.m

        return rhs

    def integral(self, u):
        return float(self.m @ u)

    def value(self, u, cell, x):
        """Value at the relative position x in [0, 1] of a cell."""
        return sum(
            u[i] * poly_value(b, x) for i, b in zip(self.cell_nodes(cell), basis(self.p))
        )

    def derivative(self, u, cell, x):
        return (
            sum(
                u[i] * poly_value(poly_derivative(b), x)
                for i, b in zip(self.cell_nodes(cell), basis(self.p))
            )
            / self.h
        )
