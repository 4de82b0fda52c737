"""Finite element solvers and their bounded state spaces."""
import numpy as np

import finite_element.scalar.solver as F

from . import ref_fe, states
from .worlds import mixed

SOLVERS = {
    "cg": F.ContinuousGalerkinSolver,
    "cg-exact": lambda benchmark, **kwargs: F.ContinuousGalerkinSolver(
        benchmark, exact_flux=True, **kwargs
    ),
    "cg-low": F.LowOrderContinuousGalerkinSolver,
    "mcl-fem": F.MCLSolver,
}

MIXED = mixed(SOLVERS)


def reference(space, scheme, problem):
    return {
        "cg": lambda: space.cg(problem),
        "cg-exact": lambda: space.cg(problem, exact=True),
        "cg-low": lambda: space.cg_low(problem),
        "mcl-fem": lambda: space.mcl(problem),
    }[scheme]()


def nodal(values, n, p, length, a=0.0):
    """Initial data taking the given values at the nodes of the space."""
    dim = n * p

    def function(x):
        k = (x - a) / length * dim
        return float(values[int(round(k)) % dim])

    return function


def space_of_states(dim, limit, letters=states.SCALAR_SMALL):
    """All words if there are not more than LIMIT, else structured states, all words
    over two letters if possible and all words of a short window in a constant state."""
    if len(letters) ** dim <= limit:
        return list(states.all_words(letters, dim))
    result = list(states.patterns(letters, dim))
    if 2**dim <= limit // 2:
        result += list(states.all_words([letters[0], letters[-1]], dim))
    window = 1
    while len(letters) ** (window + 1) <= limit // 2:
        window += 1
    window = min(window, dim - 1)
    for word in states.all_words(letters, window):
        u = np.full(dim, float(letters[1]))
        u[:window] = word
        result.append(u)
    return result
