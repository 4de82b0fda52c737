"""Entropy conservation and stability.  For every ordered pair and triple of wet
states (close, thin and of very different heights among them), bottom step and
gravitational acceleration of bounded alphabets the rate
of change of the total energy is computed from the real right hand sides of es
and es1: with outflow boundaries it reduces to entropy variables times the flux of
the edge cells and the jump of the entropy potential, which on two cells is
Tadmor's condition for the single interface; on periodic domains it is zero (es)
or not positive (es1)."""
import numpy as np

import finite_volume.shallow_water.solver as SW

from .. import ref_fv, states
from ..worlds import WaterWorld, Mixed, Reused as right_hand_side

ASSUMPTIONS = [
    "wet states",
    "on periodic domains the bottom agrees in the first and the last cell",
]
LETTERS = [(1.0, 0.0), (1.0, 2.0), (0.5, -1.0), (3.0, 0.25), (0.1, 1.0), (0.2, -1.5),
           (1e-2, 1e-3), (2.0, -8.0), (1.0, 1.0), (10.0, 0.0)]
CLOSE = [(1.0, 0.5), (1.004, 1.5), (0.999, -0.5), (1.0 + 1e-5, 0.5 + 1e-4), (1.0, 0.5 + 2e-3), (2.0, 1.0), (2.0 - 1e-9, 1.02)]
THIN = [(1e-5, 1e-6), (1.001e-5, -2e-5), (1e-5, 3e-5), (3e-5, 0.0)]
APART = [(2.0, 1.0), (1e-4, -3e-4), (1e-8, 2e-8), (30.0, 0.0)]
STEPS = [0.0, 0.5, -0.5, 2.0, 1e-4]


def jobs(tier):
    deep = tier == "thorough"
    result = []
    for name in ["es", "es1"]:
        for g in [0.5, 1.0, 2.0, 9.812]:
            result.append(dict(kind="pairs", name=name, g=g, deep=deep))
            for n in [3, 4, 12, 120]:
                result.append(dict(kind="periodic", name=name, g=g, n=n, deep=deep))
    return result


def run(job, rec):
    globals()["_" + job["kind"]](job, rec)


def _solver(name):
    return {"es": SW.EnergyStableSolver, "es1": SW.FirstOrderDiffusiveEnergyStableSolver}[name]


def _variables(u, b, g):
    v = ref_fv.velocity(u)
    return np.stack([g * (u[:, 0] + b) - v * v / 2, v], axis=1)


def _potential(u, g):
    return 0.5 * g * u[:, 0] ** 2 * ref_fv.velocity(u)


def _judge(rec, name, total, expected, size, detail):
    eps = 1e-13 * size
    if name == "es":
        rec.check(abs(total - expected) <= eps, "energy is not conserved", detail)
    else:
        rec.check(total <= expected + eps, "energy is produced", detail)
        rec.outcome(f"es1 dissipates: {bool(total < expected - eps)}")


def _pairs(job, rec):
    name, g = job["name"], job["g"]
    letters = LETTERS
    h = 0.5
    for n in [2, 3]:
        for steps in states.all_words(STEPS if n == 2 or job["deep"] else STEPS[:2], n - 1):
            bottom = np.array([0.25, *(0.25 + np.cumsum(steps))])
            world = WaterWorld([(1, 0)] * n, bottom, boundary=("outflow", "outflow"), g=g,
                               length=n * h)
            rhs = right_hand_side(Mixed(_solver(name))(world, mesh_size=n))
            space = list(states.all_words(letters if n == 2 or job["deep"] else letters[:5], n))
            for more in (CLOSE, THIN, APART):
                space += states.all_words(more if n == 2 or job["deep"] else more[:3], n)
            for u in space:
                value = rhs(0.0, u.copy())
                w = _variables(u, bottom, g)
                total = h * np.sum(w * value)
                f = ref_fv.physical_flux(u, g)
                psi = _potential(u, g)
                expected = w[0] @ f[0] - w[-1] @ f[-1] + psi[-1] - psi[0]
                rec.state(name, g, bottom, u)
                rec.step()
                rec.valid()
                size = np.sum(np.abs(w)) * np.sum(np.abs(f) + g * np.abs(u) * 2)
                _judge(rec, name, total, expected, size,
                       lambda: dict(u=u, bottom=bottom, g=g, total=total, expected=expected))


def _periodic(job, rec):
    name, g, n, deep = job["name"], job["g"], job["n"], job["deep"]
    h = 2.0
    for key, bottom in states.bottoms(n).items():
        bottom = np.zeros(n) if bottom is None else np.array(bottom)
        bottom[-1] = bottom[0]
        world = WaterWorld([(1, 0)] * n, bottom, boundary="periodic", g=g, length=n * h)
        rhs = right_hand_side(Mixed(_solver(name))(world, mesh_size=n))
        if n <= 4:
            space = list(states.all_words(LETTERS[: (6 if n == 3 else 4) + 2 * deep], n))
            space += states.all_words(CLOSE[: 4 if n == 3 else 3], n)
        else:
            space = [*states.patterns(LETTERS[: 4 + 4 * deep], n), *states.patterns(CLOSE[:4], n)]
        for u in space:
            value = rhs(0.0, u.copy())
            w = _variables(u, bottom, g)
            total = h * np.sum(w * value)
            f = np.abs(ref_fv.physical_flux(u, g)) + g * np.abs(u) * 2
            rec.state("periodic", name, g, key, u)
            rec.step()
            rec.valid()
            _judge(rec, name, total, 0.0, np.sum(np.abs(w)) * np.sum(f),
                   lambda: dict(u=u, bottom=key, g=g, total=total))
