"""Coherence of system matrices and vectors.  All sequences of operations up to a
bounded depth (set all values, set entries and update, build the factorization,
multiply, solve, add, scale rows and columns, assemble) are executed on the real
matrices next to a dense model; all sequences of evaluations, assignments and in-
place changes of the argument are executed on the real flux vectors.  Matrices of
several kinds with up to hundreds of rows are judged for all short sequences, too."""
import itertools

import numpy as np

import core
import finite_element as F

from .. import ref_fe

ASSUMPTIONS = ["matrices are regular where they are inverted"]

A = np.array([[2.0, 1.0, 0.0], [0.0, 3.0, -1.0], [1.0, 0.0, 4.0]])
B = np.array([[0.0, 1.0, 0.0], [2.0, 0.0, 0.0], [0.0, 0.0, -5.0]])
V = np.array([1.0, -2.0, 0.5])
W = np.array([3.0, 0.25, -1.0])

MATRIX_OPS = ["set A", "set B", "entry", "add entry", "factorize", "solve", "dot", "structure"]
FE_STATES = [np.array([1.0, 0.0, 2.0]), np.array([-1.0, 3.0, 0.5]), np.array([0.0, 0.0, 0.0])]


def jobs(tier):
    depth = 6 if tier == "thorough" else 5
    result = [dict(kind="matrix", prefix=list(prefix), depth=depth if tier == "thorough" else 4)
              for prefix in itertools.product(range(len(MATRIX_OPS)), repeat=2)]
    for first in range(len(SMALL_OPS)):
        result.append(dict(kind="small", first=first, depth=depth + 1 if tier == "thorough" else depth))
    for problem in ["advection", "burgers"]:
        result.append(dict(kind="diffusion", problem=problem, depth=depth - 1))
        result.append(dict(kind="mass", problem=problem, depth=depth - 1))
        for first in range(5):
            result.append(dict(kind="vector", problem=problem, depth=depth, first=first))
    for first in range(len(MOVES)):
        result.append(dict(kind="moves", first=first, depth=depth - 1))
    for n in [10, 33, 64, 65, 100, 129, 200] + ([256, 257, 400, 600] if tier == "thorough" else []):
        result.append(dict(kind="large", n=n, depth=3 if tier == "thorough" else 2))
    return result


def run(job, rec):
    globals()["_" + job["kind"]](job, rec)


def _close(a, b):
    return np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=1e-10, atol=1e-12)


def _matrix(job, rec):
    rest = job["depth"] - len(job["prefix"])
    # shorter sequences are prefixes of these
    for tail in itertools.product(range(len(MATRIX_OPS)), repeat=rest):
        trace = [*job["prefix"], *tail]
        matrix, model = core.SystemMatrix(3), A.copy()
        matrix.set_values(A)
        for k, op in enumerate(trace):
            name = MATRIX_OPS[op]
            before = model.copy()
            rec.step()
            if name == "set A":
                model = A.copy()
                matrix.set_values(A)
            elif name == "set B":
                model = B.copy()
                matrix.set_values(B)
            elif name == "entry":
                model[0, 2] = 7.0
                matrix[0, 2] = 7.0
                matrix.update_csr_values()
            elif name == "add entry":
                model[1, 1] += 10.0
                matrix[1, 1] += 10.0
                matrix.update_csr_values()
            elif name == "factorize":
                matrix.build_inverse()
            elif name == "solve":
                x = matrix.inverse(V.copy())
                ok = _close(x, np.linalg.solve(model, V)) and _close(matrix.dot(x), V)
                rec.check(ok, "solution does not belong to the latest values",
                          lambda: dict(trace=[MATRIX_OPS[o] for o in trace[: k + 1]], x=x))
            elif name == "dot":
                rec.check(_close(matrix.dot(W.copy()), model @ W),
                          "product does not belong to the latest values",
                          lambda: dict(trace=[MATRIX_OPS[o] for o in trace[: k + 1]]))
            elif name == "structure":
                other = core.SystemMatrix(3)
                other.set_values(B)
                ok = (
                    _close(matrix().toarray(), model)
                    and _close((matrix + other).toarray(), model + B)
                    and _close((matrix - other).toarray(), model - B)
                    and _close(matrix.multiply_row(W).toarray(), model * W[None, :])
                    and _close(matrix.multiply_column(W).toarray(), model * W[:, None])
                    and all(matrix[i, j] == model[i, j] for i in range(3) for j in range(3))
                    and matrix.dimension == 3
                )
                rec.check(ok, "values, sum, difference or scaled matrix",
                          lambda: dict(trace=[MATRIX_OPS[o] for o in trace[: k + 1]]))
            rec.state(model, name, before, k)
        # every state is asked for everything in the end
        for _ in range(2):
            ok = _close(matrix.dot(V), model @ V) and _close(
                matrix.inverse(W), np.linalg.solve(model, W)
            ) and _close(matrix().toarray(), model)
            rec.check(ok, "matrix does not return its latest values",
                      lambda: dict(trace=[MATRIX_OPS[o] for o in trace]))
            matrix.build_inverse()
        rec.valid()
    rec.check(np.array_equal(A[0], [2, 1, 0]) and np.array_equal(B[0], [0, 1, 0]),
              "given values were modified")
    rec.outcome("matrix")


def large(n):
    """Regular matrices with N rows."""
    index = np.arange(n)
    second = 2.5 * np.eye(n) - np.eye(n, k=1) - np.eye(n, k=-1)
    second[0, -1] = second[-1, 0] = -1.0
    result = {
        "symmetric": second,
        "indefinite": second - 2.0 * np.eye(n) + 0.001 * np.diag(index),
        "nonsymmetric": 3.0 * np.eye(n) - np.eye(n, k=1) + 0.5 * np.eye(n, k=-2),
        "diagonal": np.diag(1.0 + (index * 7) % 11),
        "scaled": 1e-7 * (second + np.diag(0.1 * ((index * 3) % 5))),
        "permutation": np.eye(n)[(index * 1 + 1) % n],
    }
    for degree in (1, 2):
        if n % degree == 0:
            result[f"mass {degree}"] = ref_fe.Space(n // degree, degree, 2.0).M
    return result


LARGE_OPS = ["set", "entry", "factorize", "solve", "dot", "scale"]


def _large(job, rec):
    """Large systems of different kinds, one after the other in one matrix."""
    n = job["n"]
    matrices = large(n)
    index = np.arange(n)
    right = [np.sin(index), np.eye(n)[n // 2], np.eye(n)[-1], 1e-6 * np.cos(3 * index), np.ones(n)]

    def judge(matrix, model, where):
        norm = np.abs(model).sum(axis=1).max()
        ok = True
        for b in right:
            x = matrix.inverse(b.copy())
            ok = ok and np.abs(model @ x - b).max() <= 1e-12 * (norm * np.abs(x).max() + np.abs(b).max())
        rec.check(ok, "solution does not belong to the latest values", where)
        ok = all(np.abs(matrix.dot(b.copy()) - model @ b).max() <= 1e-13 * norm * np.abs(b).max() for b in right)
        rec.check(ok, "product does not belong to the latest values", where)

    for first, second in itertools.permutations(matrices, 2):
        for trace in itertools.product(LARGE_OPS, repeat=job["depth"]):
            if n > 100 and job["depth"] > 2 and trace[0] == trace[1]:
                continue
            matrix, model = core.SystemMatrix(n), matrices[first].copy()
            matrix.set_values(model.copy())
            for op in trace:
                rec.step()
                if op == "set":
                    model = matrices[second].copy()
                    matrix.set_values(model.copy())
                elif op == "entry":
                    model[n - 1, n - 1] *= 2.0
                    matrix[n - 1, n - 1] = model[n - 1, n - 1]
                    matrix.update_csr_values()
                elif op == "factorize":
                    matrix.build_inverse()
                elif op == "solve":
                    judge(matrix, model, dict(n=n, matrices=(first, second), trace=trace))
                elif op == "dot":
                    matrix.dot(right[0])
                elif op == "scale":
                    scaled = matrix.multiply_column(right[0])
                    rec.check(_close(scaled.toarray(), model * right[0][:, None]), "scaled matrix", dict(n=n, matrices=(first, second), trace=trace))
            judge(matrix, model, dict(n=n, matrices=(first, second), trace=trace))
            rec.state("large", n, first, second, trace)
            rec.valid()
    for degree in (1, 2, 3):
        if n % degree:
            continue
        space = F.LagrangeSpace(core.UniformMesh(core.Interval(0, 2), n // degree), degree)
        mass, model = F.MassMatrix(space), ref_fe.Space(n // degree, degree, 2.0).M
        for built in range(2):
            judge(mass, model, dict(n=n, degree=degree, built=built))
            mass.build_inverse()
        rec.state("large mass", n, degree)
    rec.outcome(f"large {n}")


SMALL_OPS = ["tiny", "huge", "entry", "nudge", "nudge all", "factorize", "solve", "dot"]


def _small(job, rec):
    """Tiny values and tiny changes of values."""
    for tail in itertools.product(range(len(SMALL_OPS)), repeat=job["depth"] - 2):
        trace = [job["first"], *tail]
        matrix, model = core.SystemMatrix(3), A.copy()
        matrix.set_values(A)
        where = lambda: dict(trace=[SMALL_OPS[o] for o in trace])

        def solved():
            x, expected = matrix.inverse(V.copy()), np.linalg.solve(model, V)
            return np.all(np.abs(x - expected) <= 1e-12 * np.abs(expected).max() * np.linalg.cond(model))

        def product():
            expected = model @ W
            return np.all(np.abs(matrix.dot(W.copy()) - expected) <= 1e-14 * np.abs(model).max() * 10)

        for op in trace:
            name = SMALL_OPS[op]
            rec.step()
            if name in ("tiny", "huge"):
                model = {"tiny": 1e-9, "huge": 1e6}[name] * A
                matrix.set_values(model.copy())
            elif name == "entry":
                model[0, 2] += 5e-10
                matrix[0, 2] += 5e-10
                matrix.update_csr_values()
            elif name == "nudge":
                model[1, 1] *= 1 + 1e-7
                matrix[1, 1] = model[1, 1]
                matrix.update_csr_values()
            elif name == "nudge all":
                model = model * (1 + 1e-9)
                matrix.set_values(model.copy())
            elif name == "factorize":
                matrix.build_inverse()
            elif name == "solve":
                rec.check(solved(), "solution does not belong to the latest values", where)
            else:
                rec.check(product(), "product does not belong to the latest values", where)
            rec.state("small", model, name)
        for _ in range(2):
            rec.check(solved() and product(), "matrix does not return its latest values", where)
        rec.valid()
    rec.outcome("small")


MOVES = {
    "roll columns": lambda a: np.roll(a, 1, axis=1),
    "roll rows": lambda a: np.roll(a, 1, axis=0),
    "transpose": lambda a: a.T.copy(),
    "negate": lambda a: -a,
    "swap columns": lambda a: a[:, [1, 0, 2]],
    "reverse": lambda a: a[::-1, ::-1].copy(),
    "factorize": None,
    "solve": None,
}


def _moves(job, rec):
    """The same entries at other positions (equal sums, norms, structure or values)."""
    names = list(MOVES)
    starts = [np.diag([1.0, 2.0, 3.0]), np.diag([1.0, 1.0, -1.0]), np.array([[2.0, 1.0, 0.0], [0.0, 2.0, 1.0], [1.0, 0.0, 2.0]]), A]
    for start, by_entries in itertools.product(starts, (False, True)):
        for tail in itertools.product(range(len(names)), repeat=job["depth"] - 2):
            trace = [names[o] for o in (job["first"], *tail)]
            matrix, model = core.SystemMatrix(3), start.copy()
            matrix.set_values(start)
            where = lambda: dict(trace=trace, start=start, by_entries=by_entries)
            for name in trace:
                rec.step()
                if name == "factorize":
                    matrix.build_inverse()
                elif name == "solve":
                    rec.check(_close(matrix.inverse(V.copy()), np.linalg.solve(model, V)), "solution does not belong to the latest values", where)
                else:
                    model = MOVES[name](model)
                    if by_entries:
                        for i, j in itertools.product(range(3), repeat=2):
                            if matrix[i, j] != model[i, j]:
                                matrix[i, j] = model[i, j]
                        matrix.update_csr_values()
                    else:
                        matrix.set_values(model.copy())
                rec.state("moves", model, name)
            for _ in range(2):
                ok = _close(matrix.dot(W.copy()), model @ W) and _close(matrix.inverse(V.copy()), np.linalg.solve(model, V)) and _close(matrix().toarray(), model)
                rec.check(ok, "matrix does not return its latest values", where)
                matrix.build_inverse()
            rec.valid()
    # the same degrees of freedom at other nodes
    space, ref = _space()
    state = np.array([1.0, -2.0, 4.0])
    for problem in ("advection", "burgers"):
        matrix = F.build_artificial_diffusion(problem, space)
        for order in itertools.permutations(range(3)):
            for u in (state[list(order)], -state[list(order)]):
                matrix.assemble(u.copy())
                expected = ref.diffusion(problem, u)
                rec.check(_close(matrix.dot(V), expected @ V) and _close(matrix().toarray(), expected),
                          "artificial diffusion does not belong to the latest state", lambda: dict(u=u))
    rec.outcome("moves")


def _space():
    return F.LagrangeSpace(core.UniformMesh(core.Interval(0, 2), 3), 1), ref_fe.Space(3, 1, 2.0)


def _diffusion(job, rec):
    space, ref = _space()
    ops = list(range(len(FE_STATES))) + ["dot", "diagonal", "values"]
    for trace in itertools.product(ops, repeat=job["depth"]):
        matrix = F.build_artificial_diffusion(job["problem"], space)
        matrix.assemble(FE_STATES[0].copy())
        state = 0
        for op in trace:
            rec.step()
            if isinstance(op, int):
                state = op
                u = FE_STATES[op].copy()
                matrix.assemble(u)
                u[:] = 99.0
            expected = ref.diffusion(job["problem"], FE_STATES[state])
            if op == "dot":
                ok = _close(matrix.dot(V), expected @ V)
            elif op == "diagonal":
                ok = _close(matrix().diagonal(), np.diagonal(expected))
            elif op == "values":
                ok = _close([[matrix[i, j] for j in range(3)] for i in range(3)], expected)
            else:
                ok = True
            rec.check(ok, "artificial diffusion does not belong to the latest state",
                      lambda: dict(trace=trace))
            rec.state(job["problem"], state, op)
        rec.valid()
    rec.outcome("diffusion")


def _mass(job, rec):
    space, ref = _space()
    problem = job["problem"]
    for trace in itertools.product(["assemble", "factorize", "solve", "solve V", "dot"], repeat=job["depth"]):
        matrix = F.MassMatrix(space)
        model = ref.M.copy()
        for op in trace:
            rec.step()
            if op == "assemble":
                # adds the local contributions once more
                matrix.assemble()
                model = model + ref.M
            elif op == "factorize":
                matrix.build_inverse()
            elif op == "solve":
                rec.check(_close(matrix.inverse(W), np.linalg.solve(model, W)),
                          "inverse mass", lambda: dict(trace=trace))
            elif op == "solve V":
                rec.check(_close(matrix.inverse(V), np.linalg.solve(model, V)),
                          "inverse mass", lambda: dict(trace=trace))
            else:
                rec.check(_close(matrix.dot(V), model @ V), "mass product", lambda: dict(trace=trace))
            rec.state("mass", model, op)
        rec.valid()
    rec.outcome("mass")


def _vector(job, rec):
    """Flux vectors with an argument which is replaced or changed in place."""
    space, ref = _space()
    problem = job["problem"]
    builders = {
        "approximation": (
            lambda: F.build_flux_approximation(problem),
            lambda u: ref.flux(problem, u),
        ),
        "gradient": (
            lambda: F.build_flux_gradient(problem, space, False),
            lambda u: -ref.C @ ref.flux(problem, u),
        ),
        "exact gradient": (
            lambda: F.build_flux_gradient(problem, space, True),
            lambda u: ref.exact_flux_gradient(problem, u),
        ),
        "lumped mass": (lambda: F.LumpedMassVector(space), lambda u: ref.m),
    }
    ops = ["evaluate", "change in place", "replace", "swap back", "copy"]
    for name, (build, expected) in builders.items():
        depth = job["depth"] - (name == "exact gradient")
        for tail in itertools.product(range(len(ops)), repeat=depth - 1):
            vector = build()
            u = FE_STATES[0].copy()
            first = u
            k = 0
            for op in (job["first"], *tail):
                rec.step()
                if ops[op] == "evaluate":
                    before = u.copy()
                    value = vector(u)
                    rec.check(_close(value, expected(u)), f"{name} is not that of the latest state",
                              lambda: dict(trace=[job["first"], *tail], u=u, value=value))
                    rec.check(np.array_equal(before, u), f"{name} changes its argument")
                elif ops[op] == "change in place":
                    k += 1
                    u[k % 3] += 1.0
                elif ops[op] == "replace":
                    u = FE_STATES[1].copy()
                elif ops[op] == "swap back":
                    u = first
                elif ops[op] == "copy":
                    u = u.copy()
                rec.state(problem, name, u, ops[op])
            rec.check(_close(vector(u), expected(u)), f"{name} is not that of the latest state",
                      lambda: dict(trace=[job["first"], *tail], u=u))
            rec.valid()
    rec.outcome("vector")
