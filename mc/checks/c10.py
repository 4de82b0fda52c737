"""Boundary conditions.  The ghost values and neighbours the real boundary
conditions deliver are compared with an independent extension of the state for
every pair of conditions, radius, mesh size and state of bounded alphabets, scalar
and shallow water, and for sequences of close and distant times; real solvers with recording inflow functions are run with
every integrator, the inflow must be asked at exactly the stage times, and a
solver driven by inflow must equal one stepped by the model."""
import itertools

import numpy as np

import core
import finite_volume.scalar.solver as SS
import finite_volume.shallow_water as swe_package
import finite_volume.shallow_water.solver as SW

from .. import ref_fv, ref_ode, states
from ..worlds import INTEGRATORS, ScalarWorld, WaterWorld, solve

ASSUMPTIONS = [
    "a wall repeats the reflected edge cell for every radius",
    "a periodic boundary is given as a single condition",
]
NODES = {"euler": [0.0], "heun": [0.0, 1.0], "ssp3": [0.0, 1.0, 0.5]}


def jobs(tier):
    deep = tier == "thorough"
    result = []
    for system in [False, True]:
        for radius in [1, 2, 3, 4, 5, 6] + ([8, 11] if deep else []):
            result.append(dict(kind="ghosts", system=system, radius=radius, deep=deep))
            result.append(dict(kind="cells", system=system, radius=radius, deep=deep))
    result.append(dict(kind="errors"))
    result += [dict(kind="times", system=system, radius=radius, deep=deep) for system in (False, True) for radius in (1, 2, 3)]
    for name in ["scalar-llf", "scalar-mcl", "scalar-central", "llf", "mcl", "low-order",
                 "central"]:
        for sides in [("inflow", "outflow"), ("outflow", "inflow"), ("inflow", "inflow")]:
            result.append(dict(kind="inflow", name=name, sides=sides, deep=deep))
    return result


def run(job, rec):
    globals()["_" + job["kind"]](job, rec)


def _builder(system):
    return swe_package.get_boundary_conditions if system else core.get_boundary_conditions


def _conditions(system):
    sides = ["outflow", "inflow"] + (["wall"] if system else [])
    yield ("periodic",)
    for side in sides:
        yield (side,)
    yield from itertools.product(sides, repeat=2)


def _states(system, n, deep):
    letters = states.WATER if system else states.SCALAR
    if n <= 2 or (n == 3 and (deep or not system)):
        return states.all_words(letters, n)
    if n <= 4:
        return states.all_words(letters[:3], n)
    return states.patterns(letters[:4], n)


def _left(system):
    return (lambda t: np.array([1.0 + t, 0.3])) if system else (lambda t: 1.5 + t)


def _right(system):
    return (lambda t: np.array([2.0, -0.5 - t])) if system else (lambda t: -0.5 - t)


def _ghosts(job, rec):
    system, radius = job["system"], job["radius"]
    left, right = _left(system), _right(system)
    for conditions in _conditions(system):
        pair = conditions if len(conditions) == 2 else conditions * 2
        bc = _builder(system)(*conditions, radius=radius, inflow_left=left, inflow_right=right)
        rec.check(bool(bc.periodic) == (conditions == ("periodic",)), "periodic flag",
                  dict(conditions=conditions))
        for n in range(radius, radius + 4):
            for u in _states(system, n, job["deep"]):
                for t in [0.0, 0.75]:
                    given = u.copy()
                    e = ref_fv.extend(u, pair, t, left, right, radius)
                    rec.state(system, radius, conditions, u, t)
                    for r in range(1, radius + 1):
                        got = bc.get_node_neighbours(given, radius=r, time=t)
                        rec.step()
                        rec.valid()
                        count = len(e) - 2 * r + 1
                        ok = len(got) == 2 * r and all(
                            np.array_equal(got[k], e[k : k + count]) for k in range(2 * r)
                        )
                        rec.check(ok, "node neighbours",
                                  lambda: dict(u=u, conditions=conditions, radius=radius, r=r,
                                               t=t, got=[g.tolist() for g in got], extended=e))
                        for g in got:
                            g += 1.0
                        rec.check(np.array_equal(given, u), "input is modified",
                                  lambda: dict(u=u, given=given))
        rec.outcome(f"ghosts {conditions}")


def _cells(job, rec):
    """Values of the left and right node of every extended cell."""
    system, radius = job["system"], job["radius"]
    left, right = _left(system), _right(system)
    for conditions in _conditions(system):
        bc = _builder(system)(*conditions, radius=radius, inflow_left=left, inflow_right=right)
        for n in range(radius, radius + 4):
            nodes = n + 2 * radius - 1
            base = np.arange(-radius + 1, n + radius)
            for kind in ["same", "two", "shuffled"]:
                # node values as they appear in a periodic or plain extension
                def at(j, offset):
                    key = j % n if conditions == ("periodic",) else j
                    value = float((key * 7 + offset) % 11)
                    return value if kind == "shuffled" else float(key) + offset

                x = np.array([at(j, 0.0) for j in base])
                y = None if kind == "same" else np.array([at(j, 0.25) for j in base])
                x0, y0 = x.copy(), None if y is None else y.copy()
                got_left, got_right = bc.get_cell_neighbours(x, y)
                rec.state("cells", system, radius, conditions, n, kind)
                rec.step()
                rec.valid()
                y_ = x0 if y is None else y0
                ok = len(got_left) == len(got_right) == nodes + 1
                ok = ok and np.array_equal(got_left[1:], y_) and np.array_equal(got_right[:-1], x0)
                if conditions == ("periodic",):
                    # cell number -radius (its right node is the first one) has
                    # the left node -radius, the last one the node n + radius
                    offset = 0.0 if y is None else 0.25
                    ok = ok and got_left[0] == at(-radius, offset)
                    ok = ok and got_right[-1] == at(n + radius, 0.0)
                else:
                    ok = ok and np.isnan(got_left[0]) and np.isnan(got_right[-1])
                rec.check(ok, "cell neighbours",
                          lambda: dict(conditions=conditions, radius=radius, n=n, kind=kind,
                                       left=x0, right=y0, got=[got_left, got_right]))
                rec.check(np.array_equal(x, x0) and (y is None or np.array_equal(y, y0)),
                          "input is modified", dict(conditions=conditions))
                got_left += 1
                got_right += 1
                rec.check(np.array_equal(x, x0) and (y is None or np.array_equal(y, y0)),
                          "result shares memory with the input", dict(conditions=conditions))
    rec.outcome("cells")


TIMES = [0.0, 1e-12, 1e-9, 1e-5, 0.5, 0.5 + 1e-12, 0.5 + 1e-7, 0.5 + 1e-5, 1000.0, 1000.0 + 1e-9, 1000.001, 1000.004, 1e6, 1e6 + 0.5, -0.25, -0.25 - 1e-8]


def _times(job, rec):
    """Sequences of times, some of which hardly differ or go back, one set of
    conditions for all of them; the inflow varies fast."""
    system, radius = job["system"], job["radius"]
    wild = lambda t: (t * 1e9) % 7.0
    left = (lambda t: np.array([1.0 + wild(t), t])) if system else (lambda t: wild(t))
    right = (lambda t: np.array([2.0 + t, wild(t)])) if system else (lambda t: t - wild(t))
    u = np.array([(1.0, 0.5), (2.0, -1.0), (0.5, 0.25)]) if system else np.array([1.0, -2.0, 0.5])
    for conditions in [("inflow", "outflow"), ("outflow", "inflow"), ("inflow", "inflow"), ("inflow",)]:
        pair = conditions * 2 if len(conditions) == 1 else conditions
        bc = _builder(system)(*conditions, radius=radius, inflow_left=left, inflow_right=right)
        for word in itertools.product(TIMES, repeat=3 if job["deep"] else 2):
            for t in word:
                e = ref_fv.extend(u, pair, t, left, right, radius)
                got = bc.get_node_neighbours(u.copy(), radius=radius, time=t)
                rec.step()
                rec.check(all(np.array_equal(got[k], e[k : k + len(u) + 1]) for k in range(2 * radius)), "neighbours at a time of a sequence",
                          lambda: dict(conditions=conditions, radius=radius, word=word, t=t, got=got, extended=e))
            rec.state("times", system, radius, conditions, word)
            rec.valid()
    rec.outcome("times")


def _errors(job, rec):
    f = lambda t: np.array([1.0, 0.0])

    def raises(*args, **kwargs):
        try:
            builder(*args, **kwargs)
        except ValueError:
            return True
        return False

    for system in [False, True]:
        builder = _builder(system)
        known = {"periodic", "outflow", "inflow"} | ({"wall"} if system else set())
        names = ["periodic", "outflow", "inflow", "wall", "", "open", "Outflow", "reflecting"]
        for a, b in itertools.product(names, repeat=2):
            for left, right in itertools.product([None, f], repeat=2):
                bad = a not in known or b not in known
                bad = bad or (a == "inflow" and left is None) or (b == "inflow" and right is None)
                rec.state("errors", system, a, b, left is None, right is None)
                rec.step()
                rec.valid()
                rec.check(raises(a, b, inflow_left=left, inflow_right=right) == bad,
                          "unknown conditions and missing data must be rejected, others not",
                          dict(conditions=(a, b), left=left is not None, right=right is not None))
                rec.outcome(f"rejected {bad}")
        for a in names:
            bad = a not in known
            rec.check(raises(a, inflow_left=f, inflow_right=f) == bad, "single condition", a)


def _inflow(job, rec):
    name, sides = job["name"], tuple(job["sides"])
    start, h, n, cfl = 0.25, 0.5, 3, 0.1 if "scalar" in name else 0.05
    g = 2.0
    for integrator, ode in INTEGRATORS.items():
        for steps in [1, 2.5, 4]:
            system = "scalar" not in name
            words = (states.all_words(states.WET[:2], n) if system
                     else states.all_words([-1.0, 0.5, 2.0], n))
            for u in words:
                end = start + steps * cfl * h
                calls = {"left": set(), "right": set()}
                data = {"left": _left(system), "right": _right(system)}

                def recording(side):
                    def inflow(t):
                        calls[side].add(round(float(t), 12))
                        return data[side](t)

                    return inflow

                kwargs = dict(start=start, end_time=end, length=n * h, boundary=sides,
                              left=recording("left"), right=recording("right"))
                options = dict(mesh_size=n, cfl_number=cfl, ode_solver_type=ode,
                               save_history=True)
                if system:
                    world = WaterWorld(u, g=g, **kwargs)
                    factory = {"llf": SW.LaxFriedrichsSolver, "mcl": SW.MCLSolver,
                               "low-order": SW.LowOrderSolver, "central": SW.CentralFluxSolver}
                    solver = factory[name](world, **options)
                    rhs = ref_fv.Water(name, g, h, sides, None, data["left"], data["right"])
                else:
                    scheme = name.split("-")[1]
                    world = ScalarWorld("burgers", u, **kwargs)
                    factory = {"llf": SS.LaxFriedrichsSolver, "mcl": SS.MCLSolver,
                               "central": SS.CentralFluxSolver}
                    solver = factory[scheme](world, **options)
                    rhs = ref_fv.scalar_rhs(scheme, "burgers", sides, h, data["left"],
                                            data["right"])
                solve(solver)
                t, v, expected_times, values = start, u, set(), [u]
                while end - t > 1e-12:
                    dt = min(cfl * h, end - t)
                    expected_times |= {round(t + c * dt, 12) for c in NODES[integrator]}
                    v = ref_ode.step(integrator, rhs, t, v, dt)
                    values.append(v)
                    t += dt
                rec.state("inflow", name, sides, integrator, steps, u)
                rec.step(len(values) - 1)
                rec.valid()
                for side, condition in zip(["left", "right"], sides):
                    expected = expected_times if condition == "inflow" else set()
                    ok = len(calls[side]) == len(expected) and all(
                        abs(a - b) < 1e-10
                        for a, b in zip(sorted(calls[side]), sorted(expected))
                    )
                    rec.check(ok, "inflow is not evaluated at the stage times",
                              lambda: dict(side=side, integrator=integrator, u=u,
                                           got=sorted(calls[side]), expected=sorted(expected)))
                history = np.asarray(solver.solution.value_history)
                rec.check(
                    history.shape == np.shape(values)
                    and np.all(np.abs(history - np.array(values)) <= 1e-9),
                    "run with inflow differs from the model",
                    lambda: dict(u=u, integrator=integrator, got=history, expected=values),
                )
    rec.outcome(f"inflow {name}")
