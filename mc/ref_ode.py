"""Reference Runge-Kutta methods.  The low order ones are written in Shu-Osher
form, the eighth order method of Cooper and Verner as Butcher tableau."""
import numpy as np

from .ref_fv import rk_step

S = np.sqrt(21.0)
A8 = [
    [],
    [1 / 2],
    [1 / 4, 1 / 4],
    [1 / 7, (-7 - 3 * S) / 98, (21 + 5 * S) / 49],
    [(11 + S) / 84, 0, (18 + 4 * S) / 63, (21 - S) / 252],
    [(5 + S) / 48, 0, (9 + S) / 36, (-231 + 14 * S) / 360, (63 - 7 * S) / 80],
    [(10 - S) / 42, 0, (-432 + 92 * S) / 315, (633 - 145 * S) / 90,
     (-504 + 115 * S) / 70, (63 - 13 * S) / 35],
    [1 / 14, 0, 0, 0, (14 - 3 * S) / 126, (13 - 3 * S) / 63, 1 / 9],
    [1 / 32, 0, 0, 0, (91 - 21 * S) / 576, 11 / 72, (-385 - 75 * S) / 1152,
     (63 + 13 * S) / 128],
    [1 / 14, 0, 0, 0, 1 / 9, (-733 - 147 * S) / 2205, (515 + 111 * S) / 504,
     (-51 - 11 * S) / 56, (132 + 28 * S) / 245],
    [0, 0, 0, 0, (-42 + 7 * S) / 18, (-18 + 28 * S) / 45, (-273 - 53 * S) / 72,
     (301 + 53 * S) / 72, (28 - 28 * S) / 45, (49 - 7 * S) / 18],
]
B8 = [1 / 20, 0, 0, 0, 0, 0, 0, 49 / 180, 16 / 45, 49 / 180, 1 / 20]


def step(name, rhs, t, u, dt):
    if name != "rk8":
        return rk_step(name, rhs, t, u, dt)
    stages = []
    for row in A8:
        v = u + dt * sum((a * k for a, k in zip(row, stages)), 0 * u)
        stages.append(rhs(t + dt * sum(row), v))
    return u + dt * sum(b * k for b, k in zip(B8, stages))


def optimal(p):
    """Integrator of the consistent Galerkin scheme of degree p."""
    return {1: "heun", 2: "ssp3"}.get(p, "rk8")
