"""Reference model of the numerical pipeline, written from its documentation in plain double-precision Python.

Quantities are in internal units (Mpc/h, 1e10 Msun/h, km/s) unless a name says otherwise.  Every discrete decision
(a particle in or out of a shell, another iteration or not, ...) that is closer to a tie than REL is counted in
`tie`: the caller then leaves the affected numbers uncompared, because rounding may legitimately decide them.
"""
import numpy as np

REL = 2e-6
CM = {'kpc': 3.085678e21, 'Mpc': 3.085678e24, 'Gpc': 3.085678e27, 'pc': 3.085678e18}
GR = {'Msun': 1.989e33, 'E+10Msun': 1.989e43}


def unit_cm(u, h):
    return (CM[u[:-2]] / h if u.endswith('/h') else CM[u]) if isinstance(u, str) else float(u)


def unit_g(u, h):
    return (GR[u[:-2]] / h if u.endswith('/h') else GR[u]) if isinstance(u, str) else float(u)


class Units:
    """in/out = (length, mass); h.  Factors into and out of internal units."""

    def __init__(self, inl='Mpc/h', inm='E+10Msun/h', outl='kpc', outm='Msun', h=0.6774, inv=1e5, outv=1e5):
        self.spec = (inl, inm, outl, outm, h)
        lint, mint = unit_cm('Mpc/h', h), unit_g('E+10Msun/h', h)
        self.h = h
        self.lin = unit_cm(inl, h) / lint          # input -> internal
        self.min = unit_g(inm, h) / mint
        self.lout = lint / unit_cm(outl, h)        # internal -> output
        self.mout = mint / unit_g(outm, h)
        self.vin = (1e5 if inv == 'km/s' else inv) / 1e5
        self.vout = 1e5 / (1e5 if outv == 'km/s' else outv)
        self.dout = self.mout / self.lout ** 3


class Ties:
    def __init__(self):
        self.margin = np.inf

    def lt(self, a, b):
        """elementwise a < b, remembering how close a call it was (relative to b)"""
        a = np.asarray(a, float)
        b = np.asarray(b, float)
        with np.errstate(all='ignore'):
            m = np.abs(a - b) / np.maximum(np.abs(b), 1e-300)
        m = m[np.isfinite(m)] if np.ndim(m) else m
        if np.size(m):
            self.margin = min(self.margin, float(np.min(m)))
        return a < b

    @property
    def tie(self):
        return not self.margin > REL


def unwrap(xyz, L):
    xyz = np.array(xyz, float)
    if L == 0 or len(xyz) == 0:
        return xyz
    d = xyz - xyz[0]
    return xyz - L * (d > L / 2) + L * (d < -L / 2)


def com(xyz, m):
    m = np.asarray(m, float)
    return (xyz * m[:, None]).sum(axis=0) / m.sum()


def mode(xyz, m, rad, ties):
    while True:
        c = com(xyz, m)
        d = np.linalg.norm(xyz - c, axis=1)
        if d.max() < 1e-12 * (1 + np.abs(c).max()):
            return c                     # all at one point
        sel = ties.lt(d, rad)
        if sel.sum() < 5:
            return c
        xyz, m, rad = xyz[sel], m[sel], rad * 0.83


def center(xyz, m, how, rad, ties):
    return mode(xyz, m, rad, ties) if how == 'mode' else com(xyz, m)


def into_box(c, L):
    c = np.array(c, float)
    c = np.where(c >= L, c - L, c)
    return np.where(c < 0, c + L, c)


class Cat:
    """A catalogue handed to the library in input units, and its internal-unit image."""

    def __init__(self, xyz, masses, idx_cat, r200, L, units, min_ptcs, how, vel=None):
        self.xyz_in, self.m_in, self.idx_in, self.r200_in, self.L_in = np.array(xyz, float), np.array(masses, float), idx_cat, np.array(r200, float), float(L)
        self.u, self.min_ptcs, self.how = units, min_ptcs, how
        self.keep = [k for k, o in enumerate(idx_cat) if len(o) >= min_ptcs and len(o) > 0]
        self.objs = [np.array(idx_cat[k], int) for k in self.keep]
        self.xyz = self.xyz_in * units.lin
        self.m = self.m_in * units.min
        self.L = self.L_in * units.lin
        self.r200 = np.array([self.r200_in[k] for k in self.keep]) * units.lin
        self.vel = vel

    def parts(self, o):
        i = self.objs[o]
        return unwrap(self.xyz[i], self.L), self.m[i]

    def _center(self, o, ties, shape=False):
        x, m = self.parts(o)
        rad = float(np.max(x.max(axis=0) - x.min(axis=0))) if shape else 1000.0
        return center(x, m, self.how, rad, ties)

    # masses and centres as returned (output units), and whether the centre is a close call
    def mass_center(self, o):
        t = Ties()
        x, m = self.parts(o)
        c = self._center(o, t)
        edge = np.min(np.abs(np.concatenate([c, c - self.L]))) < 1e-9 * max(self.L, 1e-30)
        return m.sum() * self.u.mout, into_box(c, self.L) * self.u.lout, t.tie or edge

    # -- densities (output units) ----------------------------------------------------------------
    def dens_sph(self, o, r):
        t = Ties()
        x, m = self.parts(o)
        c = self._center(o, t)
        d = np.linalg.norm(x - c, axis=1)
        r = np.asarray(r, float)
        edges = np.concatenate([[1e-8], (r[:-1] + r[1:]) / 2, r[-1:]]) * self.r200[o]
        prof = np.zeros(len(r))
        for k in range(len(r)):
            sel = t.lt(d, edges[k + 1]) & ~t.lt(d, edges[k])
            prof[k] = m[sel].sum() / (4 / 3 * np.pi * (edges[k + 1] ** 3 - edges[k] ** 3))
        return prof * self.u.dout, t.tie

    def dens_ell(self, o, r, shape):
        """shape: dict d,q,s,major,inter,minor (per katz radius, internal units)"""
        t = Ties()
        x, m = self.parts(o)
        c = self._center(o, t)
        r = np.asarray(r, float)
        mid = (r[:-1] + r[1:]) / 2
        edges = np.concatenate([[mid[0] ** 2 / mid[1]], mid, r[-1:]]) * self.r200[o]
        a_ = np.asarray(shape['d'], float)
        ok = ~np.isnan(shape['q'])
        bad = not ok.all()
        shape = {k: np.asarray(v)[ok] for k, v in shape.items() if k != 'conv'}
        a_ = a_[ok]
        if bad and len(a_) < 2:
            return np.full(len(r), np.nan), t.tie
        nanx = lambda y, at: np.where(bad & (at > a_[-1]), np.nan, y)      # nothing is known beyond the last converged radius
        lin = lambda y, at: nanx(_interp_extrap(a_, np.asarray(y), at), np.asarray(at))
        if bad and np.min(np.abs(np.concatenate([edges, r * self.r200[o]]) / a_[-1] - 1)) < REL:
            t.margin = 0.0
        a, b, cc = lin(a_, edges), lin(a_ * shape['q'], edges), lin(a_ * shape['s'], edges)
        prof = np.full(len(r), np.nan)
        aligned = {}
        for ax in ('major', 'inter', 'minor'):      # the sign of an eigenvector is arbitrary
            A = np.array(shape[ax], float)
            for k in range(1, len(A)):
                dp = float(A[k] @ A[k - 1])
                if abs(dp) < 1e-6:
                    t.margin = 0.0
                if dp < 0:
                    A[k] = -A[k]
            aligned[ax] = A
        for k in range(len(r)):
            p = []
            for ax in ('major', 'inter', 'minor'):
                v = np.array([lin(aligned[ax][:, j], np.array([r[k] * self.r200[o]]))[0] for j in range(3)])
                p.append((x - c) @ (v / np.linalg.norm(v)))
            o2 = (p[0] / a[k + 1]) ** 2 + (p[1] / b[k + 1]) ** 2 + (p[2] / cc[k + 1]) ** 2
            i2 = (p[0] / a[k]) ** 2 + (p[1] / b[k]) ** 2 + (p[2] / cc[k]) ** 2
            with np.errstate(invalid='ignore'):
                sel = t.lt(o2, 1.0) & ~t.lt(i2, 1.0) & np.isfinite(o2 + i2)
            vol = 4 / 3 * np.pi * (a[k + 1] * b[k + 1] * cc[k + 1] - a[k] * b[k] * cc[k])
            if sel.any():
                prof[k] = m[sel].sum() / vol
        return prof * self.u.dout, t.tie

    def dens_kernel(self, o, r):
        """value and an absolute error allowance (single-precision kernel evaluation)"""
        t = Ties()
        x, m = self.parts(o)
        c = self._center(o, t)
        d = np.linalg.norm(x - c, axis=1)
        r200 = self.r200[o]
        h = 0.005 * r200 * np.sqrt(d / (0.1 * r200))
        prof = np.zeros(len(r)); tol = np.zeros(len(r))
        for k, rr in enumerate(np.asarray(r, float)):
            R = rr * r200
            e1 = np.exp(-(d - R) ** 2 / (2 * h ** 2)); e2 = np.exp(-(d + R) ** 2 / (2 * h ** 2))
            kt = 1 / (2 * (2 * np.pi) ** 1.5) / (R * d / h ** 2) * (e1 - e2)
            sens = 4e-6 + 3e-7 * (np.abs(d - R) * np.maximum(d, R) / h ** 2)
            prof[k] = (m * kt / h ** 3).sum()
            tol[k] = (m / h ** 3 / (2 * (2 * np.pi) ** 1.5) / (R * d / h ** 2) * (e1 + e2) * sens + m / h ** 3 * 1e-30).sum()
        return prof * self.u.dout, tol * self.u.dout, t.tie

    # -- shapes ----------------------------------------------------------------------------------
    def shape_local(self, o, katz, vel=False):
        """list (per radius) of dicts or None (= not converged), each with 'tie'"""
        t0 = Ties()
        x, m = self.parts(o)
        c = self._center(o, t0, shape=True)
        v = vc = None
        if vel:
            v = self.vel[self.objs[o]]
            vc = com(v, m)
        rr = np.asarray(katz['ROverR200'], float) * self.r200[o]
        out = []
        spread = np.abs(x - x.mean(axis=0)).max()
        for k, d in enumerate(rr):
            if spread == 0 or self.r200[o] == 0:
                out.append((None, t0.tie))
                continue
            delta = None
            if katz['SHELL_BASED']:
                delta = d if k == 0 else d - rr[k - 1]
            out.append(katz_iterate(x, m, c, d, delta, katz, v, vc, t0))
        return out

    def shape_global(self, o, katz, vel=False, safe=6.0):
        t0 = Ties()
        x, m = self.parts(o)
        c = self._center(o, t0, shape=True)
        v = vc = None
        if vel:
            v = self.vel[self.objs[o]]
            vc = com(v, m)
        if np.abs(x - x.mean(axis=0)).max() == 0:
            return None, t0.tie
        return katz_iterate(x, m, c, self.r200[o] + safe, None, katz, v, vc, t0)


def _interp_extrap(xs, ys, at):
    xs = np.asarray(xs, float)
    if len(xs) == 1:
        raise ValueError
    i = np.clip(np.searchsorted(xs, at), 1, len(xs) - 1)
    x0, x1 = xs[i - 1], xs[i]
    return ys[i - 1] + (ys[i] - ys[i - 1]) * (at - x0) / (x1 - x0)


def katz_iterate(x, m, c, d, delta, katz, v, vc, t0):
    """(None | dict d,q,s,axes(3 rows major,inter,minor),gap, tie).  delta None = solid ellipsoid."""
    t = Ties()
    t.margin = t0.margin
    y = x - c
    r2 = (y ** 2).sum(axis=1)
    sel = t.lt(r2, d ** 2)
    if delta is not None and delta != d:
        sel = sel & ~t.lt(r2, (d - delta) ** 2)
    rell = np.sqrt(r2)
    q = s = 1.0
    w, wc = (x, c) if v is None else (v, vc)
    it, err, res = 1, 1.0, None
    while err > katz['IT_TOL']:
        if it > katz['IT_WALL'] or sel.sum() < katz['IT_MIN']:
            return None, t.tie
        z = w[sel] - wc
        wt = m[sel]
        if katz['REDUCED']:              # a particle exactly at the centre has no direction and does not count
            rs = rell[sel]
            if ((rs > 0) & (rs < 1e-7 * d)).any():
                t.margin = 0.0
            wt = np.where(rs == 0, 0., wt / np.where(rs == 0, 1., rs) ** 2)
        T = (z[:, :, None] * z[:, None, :] * wt[:, None, None]).sum(axis=0)
        e, V = np.linalg.eigh(T)
        if not np.isfinite(e).all() or e[0] <= 1e-10 * e[2]:
            return None, True            # flat or single-point set: not defined
        qo, so = q, s
        q, s = np.sqrt(e[1] / e[2]), np.sqrt(e[0] / e[2])
        err = max(abs(q - qo) / qo, abs(s - so) / so)
        t.margin = min(t.margin, abs(err - katz['IT_TOL']) / max(katz['IT_TOL'], 1e-300) / 2)
        axes = V.T[::-1]
        # near-degenerate eigenvalues leave the axes (hence later membership) undetermined
        gap = min(e[1] - e[0], e[2] - e[1]) / e[2]
        if gap < 1e-4:
            t.margin = 0.0
        res = {'d': d, 'q': q, 's': s, 'axes': axes, 'gap': gap, 'n': int(sel.sum()), 'it': it}
        p = y @ axes.T
        rell2 = p[:, 0] ** 2 + (p[:, 1] / q) ** 2 + (p[:, 2] / s) ** 2
        rell = np.sqrt(rell2)
        sel = t.lt(rell2, d ** 2)
        if delta is not None and delta != d:
            with np.errstate(all='ignore'):
                inner = (p[:, 0] / (d - delta)) ** 2 + (p[:, 1] / (q * d - delta)) ** 2 + (p[:, 2] / (s * d - delta)) ** 2
            sel = sel & ~t.lt(inner, 1.0)
        it += 1
    return res, t.tie


# ------------------------------------------------------------------------------------------------ synthetic clouds
def cloud(n, axes, seed, rot=None, power=0.6):
    """n generic points filling an ellipsoid with semi-axes `axes`; deterministic, no two alike."""
    g = np.random.default_rng(1000 + seed)
    u = g.normal(size=(n, 3))
    u /= np.linalg.norm(u, axis=1)[:, None]
    r = ((np.arange(n) + 0.37) / n) ** power
    p = u * r[:, None] * np.asarray(axes, float)
    p -= p.mean(axis=0)
    if rot is not None:
        from math import cos, sin
        a, b, c = rot
        Rz = np.array([[cos(a), -sin(a), 0], [sin(a), cos(a), 0], [0, 0, 1]])
        Rx = np.array([[1, 0, 0], [0, cos(b), -sin(b)], [0, sin(b), cos(b)]])
        Rw = np.array([[cos(c), -sin(c), 0], [sin(c), cos(c), 0], [0, 0, 1]])
        p = p @ (Rz @ Rx @ Rw).T
    return p


def close(a, b, rtol=1e-5, atol=0.0):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    na, nb = np.isnan(a), np.isnan(b)
    if (na != nb).any():
        return False
    return bool(np.all(np.abs(a - b)[~na] <= (atol + rtol * np.abs(b))[~na]))
