"""Catalogues ("worlds") shared by the checks, and the glue that drives the library's public classes."""
import os
import numpy as np
import refmodel as rm

DEF_KATZ = {'ROverR200': np.logspace(-1.5, 0, 70), 'IT_TOL': 1e-2, 'IT_WALL': 100, 'IT_MIN': 10, 'REDUCED': False, 'SHELL_BASED': False}

UNITS = {
    'int': ('Mpc/h', 'E+10Msun/h', 'Mpc/h', 'E+10Msun/h', 0.6774),
    'a': ('kpc', 'Msun', 'Mpc', 'E+10Msun', 0.6774),
    'b': ('Mpc/h', 'E+10Msun/h', 'kpc', 'Msun', 0.7),
    'c': ('kpc/h', 'E+10Msun', 'kpc/h', 'Msun/h', 0.5),
    'd': (3.0e24, 2.5e43, 1.0e21, 7.0e40, 0.6),
}


def set_units(cp, key):
    inl, inm, outl, outm, h = UNITS[key] if isinstance(key, str) else key
    cp.updateInUnitSystem(inl, inm, 'km/s', h)
    cp.updateOutUnitSystem(outl, outm, 'km/s', h)
    return rm.Units(inl, inm, outl, outm, h)


def katz(radii, tol=1e-2, wall=100, imin=10, reduced=False, shell=False):
    return {'ROverR200': np.asarray(radii, float), 'IT_TOL': tol, 'IT_WALL': wall, 'IT_MIN': imin, 'REDUCED': reduced, 'SHELL_BASED': shell}


def scaled(spec, f):
    """the same objects, f times larger (use with L=10 * f)"""
    return [(n, r200 * f, tuple(a * f for a in axes), c, seed, rot) for n, r200, axes, c, seed, rot in spec]


def make(u, spec, L=10.0, how='com', min_ptcs=1, strays=3, order='inter', shift=(0., 0., 0.), wrap=True, vel=False, massfn=None, open=False):
    """spec: list of (n particles, r200, (axes), centre in units of L, seed, rot) in internal units.
    Returns Cat in the input units of `u`.  Particles of the objects are interleaved in the file order
    ('inter'), or stored object by object ('block'), or reversed ('rev'); `strays` belong to no object.
    open: no periodicity (box size zero), coordinates of either sign and beyond L."""
    pos, own = [], []
    for k, (n, r200, axes, c, seed, rot) in enumerate(spec):
        p = rm.cloud(n, axes, seed, rot) if n > 1 else np.zeros((n, 3))
        p = p + np.asarray(c) * L + np.asarray(shift)
        for j in range(n):
            pos.append(p[j]); own.append((j, k))
    pos = np.array(pos).reshape(-1, 3)
    N = len(pos)
    if order == 'inter':
        perm = sorted(range(N), key=lambda i: own[i])
    elif order == 'rev':
        perm = list(range(N))[::-1]
    else:
        perm = list(range(N))
    g = np.random.default_rng(77)
    stray = g.uniform(0, L, size=(strays, 3))
    allpos = np.concatenate([stray[:1], pos[perm], stray[1:]]) if strays else pos[perm]
    off = 1 if strays else 0
    place = {perm[i]: i + off for i in range(N)}
    idx, base = [], 0
    for k, (n, *_r) in enumerate(spec):
        idx.append([place[base + j] for j in range(n)])
        base += n
    if open:
        allpos = allpos + np.array([-17., 40., 0.])
        L = 0.
    if wrap and L:
        allpos = allpos % L
    M = len(allpos)
    m = (massfn or (lambda i: 0.01 * (1 + ((7 * i) % 11) / 10.0)))(np.arange(M))
    v = None
    if vel:
        v = np.random.default_rng(5).normal(size=(M, 3)) * np.array([100., 60., 30.]) + np.array([250., -80., 33.])
    r200 = np.array([s[1] for s in spec])
    return rm.Cat(allpos / u.lin, m / u.min, idx, r200 / u.lin, L / u.lin, u, min_ptcs, how, vel=v)


def build(cp, cat, scratch, snap='001', cls=None, viz='viz', catd='cat', **kw):
    cls = cls or cp.DensShapeProfs
    return cls(cat.xyz_in.copy(), cat.m_in.copy(), [list(o) for o in cat.idx_in], cat.r200_in.copy(), cat.L_in, snap,
               os.path.join(scratch, viz), os.path.join(scratch, catd), MIN_NUMBER_PTCS=cat.min_ptcs, CENTER=cat.how, **kw)
