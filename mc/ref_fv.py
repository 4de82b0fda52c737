"""Reference models of the finite volume schemes, written from the formulas.

A reference right hand side is a plain function of cell values.  Cells are
extended by ghost cells; node j separates extended cells j and j+1.
"""
import numpy as np

# ------------------------------------------------------------------- scalar


def flux(problem, u):
    return u if problem == "advection" else 0.5 * u * u


def speed(problem, u):
    return np.ones_like(u) if problem == "advection" else np.abs(u)


def extend(u, boundary, time, left=None, right=None, radius=1):
    """Values including RADIUS ghost cells on both sides."""
    u = np.asarray(u, dtype=float)
    if isinstance(boundary, str):
        boundary = (boundary, boundary)
    n = len(u)
    L, R = [], []
    for k in range(radius):
        if boundary[0] == "periodic":
            L.insert(0, u[(-1 - k) % n])
        elif boundary[0] == "outflow":
            L.insert(0, u[0])
        elif boundary[0] == "inflow":
            L.insert(0, left(time))
        elif boundary[0] == "wall":
            L.insert(0, u[0] * np.array([1, -1]))
        if boundary[1] == "periodic":
            R.append(u[k % n])
        elif boundary[1] == "outflow":
            R.append(u[-1])
        elif boundary[1] == "inflow":
            R.append(right(time))
        elif boundary[1] == "wall":
            R.append(u[-1] * np.array([1, -1]))
    return np.array([*L, *u, *R], dtype=float)


def scalar_node_flux(scheme, problem, e, periodic=False):
    """Flux at each node of the extended vector E (one ghost cell per side)."""
    ul, ur = e[:-1], e[1:]
    fl, fr = flux(problem, ul), flux(problem, ur)
    central = 0.5 * (fl + fr)
    if scheme == "central":
        return central
    lam = np.maximum(speed(problem, ul), speed(problem, ur))
    llf = central - 0.5 * lam * (ur - ul)
    if scheme == "llf":
        return llf
    # monolithic convex limiting
    safe = np.where(lam > 0, lam, 1.0)
    bar = np.where(
        lam > 0, 0.5 * (ul + ur) - (fr - fl) / (2 * safe), 0.5 * (ul + ur)
    )
    n = len(e)
    top, bottom = np.empty(n), np.empty(n)
    for i in range(n):
        neighbours = [e[max(i - 1, 0)], e[i], e[min(i + 1, n - 1)]]
        if periodic and i == 0:
            neighbours.append(e[n - 3])
        if periodic and i == n - 1:
            neighbours.append(e[2])
        top[i], bottom[i] = max(neighbours), min(neighbours)
    high = lam * np.minimum(top[1:] - bar, bar - bottom[:-1])
    low = lam * np.maximum(bottom[1:] - bar, bar - top[:-1])
    return llf + np.maximum(low, np.minimum(high, central - llf))


def scalar_rhs(scheme, problem, boundary, h, left=None, right=None):
    periodic = boundary in ("periodic", ("periodic",))

    def rhs(t, u):
        e = extend(u, boundary, t, left, right)
        f = scalar_node_flux(scheme, problem, e, periodic)
        return (f[:-1] - f[1:]) / h

    return rhs


# ------------------------------------------------------------------- systems


def velocity(u):
    h, q = u[:, 0], u[:, 1]
    return np.where(h > 1e-15, q / np.where(h > 1e-15, h, 1.0), 0.0)


def physical_flux(u, g):
    h, q = u[:, 0], u[:, 1]
    v = velocity(u)
    wet = h >= 1e-15
    return np.where(
        wet[:, None], np.stack([q, q * v + 0.5 * g * h * h], axis=1), 0.0
    )


def max_speed(ul, ur, g):
    return np.maximum(
        np.abs(velocity(ul)) + np.sqrt(g * ul[:, 0]),
        np.abs(velocity(ur)) + np.sqrt(g * ur[:, 0]),
    )


def safe_divide(a, b):
    return np.where(b > 0, a / np.where(b > 0, b, 1.0), 0.0)


class Water:
    """Node fluxes (left, right) of the shallow water schemes.

    LEFT is what the cell left of the node gains, RIGHT what the cell right of
    the node gains, BOTTOM holds the bottom of each cell or None if flat.
    """

    def __init__(self, scheme, g, h, boundary, bottom=None, left=None, right=None,
                 high=None, gamma=0.1, time_step=0.0):
        self.scheme, self.g, self.h, self.boundary = scheme, g, h, boundary
        self.left, self.right = left, right
        self.high, self.gamma, self.time_step = high, gamma, time_step
        self.ill = False
        if bottom is not None and np.all(
            np.abs(np.asarray(bottom) - bottom[0]) < 1e-15
        ):
            bottom = None
        self.bottom = None if bottom is None else np.asarray(bottom, dtype=float)

    @property
    def periodic(self):
        return self.boundary in ("periodic", ("periodic",))

    def bottom_extended(self, n):
        if self.bottom is None:
            return np.zeros(n + 2)
        return np.array([self.bottom[0], *self.bottom, self.bottom[-1]])

    def __call__(self, t, u):
        L, R = self.node_fluxes(t, u)
        return (R[:-1] + L[1:]) / self.h

    def node_fluxes(self, t, u):
        e = extend(u, self.boundary, t, self.left, self.right)
        return self.fluxes(self.scheme, e)

    def fluxes(self, scheme, e):
        return getattr(self, "_" + scheme.replace("-", "_"))(e)

    # ---- schemes
    def _source(self, e):
        db = np.diff(self.bottom_extended(len(e) - 2))
        hm = 0.5 * (e[:-1, 0] + e[1:, 0])
        return np.stack([0 * hm, 0.5 * self.g * hm * db], axis=1)

    def _with_source(self, e, f):
        s = self._source(e)
        return -f - s, f - s

    def _raw_llf(self, e):
        ul, ur = e[:-1], e[1:]
        lam = max_speed(ul, ur, self.g)[:, None]
        return 0.5 * (physical_flux(ul, self.g) + physical_flux(ur, self.g)) - (
            0.5 * lam * (ur - ul)
        )

    def _llf(self, e):
        return self._with_source(e, self._raw_llf(e))

    def _central(self, e):
        p = physical_flux(e, self.g)
        return self._with_source(e, 0.5 * (p[:-1] + p[1:]))

    def _lw(self, e):
        lam = max_speed(e[:-1], e[1:], self.g)[:, None]
        f = self._raw_llf(e) + self.time_step * lam * (e[1:] - e[:-1]) / self.h
        return -f, f

    def _raw_es(self, e):
        h, v = e[:, 0], velocity(e)
        hm, vm = 0.5 * (h[1:] + h[:-1]), 0.5 * (v[1:] + v[:-1])
        h2 = 0.5 * (h[1:] ** 2 + h[:-1] ** 2)
        return np.stack([hm * vm, hm * vm * vm + 0.5 * self.g * h2], axis=1)

    def _es(self, e):
        return self._with_source(e, self._raw_es(e))

    def _es1(self, e):
        g = self.g
        f = self._raw_es(e)
        b = self.bottom_extended(len(e) - 2)
        v = velocity(e)
        w = np.stack([g * (e[:, 0] + b) - v * v / 2, v], axis=1)
        jump = w[1:] - w[:-1]
        a = 0.5 * (e[1:] + e[:-1])
        va, c = velocity(a), np.sqrt(g * a[:, 0])
        d = np.empty_like(f)
        for k in range(len(f)):
            lm, lp = va[k] - c[k], va[k] + c[k]
            m = np.zeros((2, 2))
            for lam in (lm, lp):
                r = np.array([1.0, lam])
                m += abs(lam) * np.outer(r, r)
            m *= 1 / (2 * g) / np.sqrt(2 * g) / 2
            d[k] = m @ jump[k]
        return self._with_source(e, f - d)

    def _bar(self, e):
        """Quantities shared by the low order and the limited scheme."""
        g = self.g
        ul, ur = e[:-1], e[1:]
        lam = max_speed(ul, ur, g)
        fl, fr = physical_flux(ul, g), physical_flux(ur, g)
        bar = 0.5 * (ul + ur) - np.where(
            lam[:, None] > 0, (fr - fl) / (2 * np.where(lam > 0, lam, 1.0))[:, None], 0
        )
        db = np.diff(self.bottom_extended(len(e) - 2))
        fix = np.sign(db) * np.minimum(0.5 * np.abs(db), bar[:, 0])
        hm = 0.5 * (ul[:, 0] + ur[:, 0])
        vm = 0.5 * (velocity(ul) + velocity(ur))
        source = -safe_divide(g * hm * fix, lam)
        hl, hr = bar[:, 0] + fix, bar[:, 0] - fix
        ql = bar[:, 1] + vm * fix + source
        qr = bar[:, 1] - vm * fix + source
        return ul, ur, lam, fl, fr, bar, hl, hr, ql, qr

    def _low_order(self, e):
        ul, ur, lam, fl, fr, bar, hl, hr, ql, qr = self._bar(e)
        l = lam[:, None]
        return (
            l * (np.stack([hl, ql], 1) - ul) - fl,
            l * (np.stack([hr, qr], 1) - ur) + fr,
        )

    def cell_neighbours(self, x, y):
        """Left and right values seen by every extended cell from node values X
        (used right of a node... i.e. by the node's left cell) and Y."""
        return x, y

    def _mcl(self, e):
        ul, ur, lam, fl, fr, bar, hl, hr, ql, qr = self._bar(e)
        L, R = self._low_order(e)
        HL, HR = self.fluxes(self.high or "central", e)
        anti = HR - R
        # velocities of almost empty bar states are ratios of roundoff
        for x in (bar[:, 0], hl, hr, hl + hr):
            if np.any((np.abs(x) > 0) & (np.abs(x) < 1e-9) & (lam > 0)):
                self.ill = True
        nodes = len(lam)

        def cells(left_of_node, right_of_node):
            """For each extended cell the value of its left and right node."""
            at_left = np.empty(nodes + 1)
            at_right = np.empty(nodes + 1)
            at_left[1:] = right_of_node
            at_right[:-1] = left_of_node
            if self.periodic:
                # extended cell 0 is the last cell: its left node is the one
                # before the seam, extended cell n+1 is the first cell
                at_left[0] = right_of_node[-2]
                at_right[-1] = left_of_node[1]
            else:
                at_left[0] = at_left[1]
                at_right[-1] = at_right[-2]
            return at_left, at_right

        a, b = cells(hl, hr)
        hmax, hmin = np.maximum(a, b), np.minimum(a, b)
        top = lam * np.minimum(hmax[1:] - hr, hl - hmin[:-1])
        low = lam * np.maximum(hmin[1:] - hr, hl - hmax[:-1])
        fh = np.maximum(low, np.minimum(top, anti[:, 0]))
        hlim = bar[:, 0] + safe_divide(fh, lam)
        vbar = safe_divide(ql + qr, hl + hr)
        base = lam * (qr - hlim * vbar)
        fv = anti[:, 1] + base
        h1, h2 = cells(bar[:, 0], bar[:, 0])
        v1, v2 = cells(vbar, vbar)
        q1, q2 = cells(ql, qr)
        w1, w2 = safe_divide(q1, h1), safe_divide(q2, h2)
        vmax = np.max([v1, v2, w1, w2], axis=0)
        vmin = np.min([v1, v2, w1, w2], axis=0)
        # over steep bottom the limited height may be negative
        top = lam * np.minimum(hlim * (vmax[1:] - vbar), hlim * (vbar - vmin[:-1]))
        low = lam * np.maximum(hlim * (vmin[1:] - vbar), hlim * (vbar - vmax[:-1]))
        fv = np.maximum(low, np.minimum(top, fv))
        fq = fv - base
        lim = np.stack([fh, fq], 1)
        return L - lim, R + lim

    def _antidiffusion(self, e):
        L, R = self.fluxes(self.high or "llf", e)
        a = self.gamma * (e[1:] - e[:-1]) / self.h
        return L - a, R + a


# ------------------------------------------------------------------ integrators


def rk_step(name, rhs, t, u, dt):
    if name == "euler":
        return u + dt * rhs(t, u)
    if name == "heun":
        u1 = u + dt * rhs(t, u)
        return 0.5 * u + 0.5 * (u1 + dt * rhs(t + dt, u1))
    if name == "ssp3":
        u1 = u + dt * rhs(t, u)
        u2 = 0.75 * u + 0.25 * (u1 + dt * rhs(t + dt, u1))
        return u / 3 + 2 / 3 * (u2 + dt * rhs(t + dt / 2, u2))
    raise ValueError(name)


def cell_average(function, a, b):
    """Two point Gauss average, exact for cubics and for piecewise constants."""
    m, r = 0.5 * (a + b), 0.5 * (b - a) / np.sqrt(3)
    return 0.5 * (np.asarray(function(m - r)) + np.asarray(function(m + r)))
