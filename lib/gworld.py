"""Worlds on disk: a Gadget snapshot plus FoF/SUBFIND catalogue, and the same world as a reference catalogue."""
import os, shutil
import numpy as np
import refmodel as rm, gadgetgen as gg

PT = {'gas': 0, 'dm': 1, 'stars': 4}

_n = 0


def make(scratch, u, halos, otype='dm', L=10., min_ptcs=5, how='com', rdef='Rvir', kind='hdf5', fmt=1, swap=False, dt='f8',
         splits=1, fof_splits=1, time=1.0, z=0.0, massarr=False, tag='g', others=True, velfn=None, seed=3, mscale=0.01, keep=None):
    """halos: list of (n_central, n_rest, nsubs, r, axes, centre/L, seed, rot), internal units.  Returns (Cat, snapbase, groupdir);
    Cat.vel holds peculiar velocities.  Everything is written in the input units of `u`."""
    # a new folder per world: the readers cache by path
    global _n
    if keep is None:
        for d in os.listdir(scratch):
            if d.startswith('gw_'):
                shutil.rmtree(os.path.join(scratch, d))
    _n += 1
    root = os.path.join(scratch, 'gw_%s%d' % (tag, _n))
    os.makedirs(root + '/snap')
    rng = np.random.default_rng(seed)
    t = PT[otype]
    pos, idx, gl, sl, ns, rv = [], [], [], [], [], []
    base = 0
    for (n, rest, nsub, r, axes, c, sd, rot) in halos:
        p = rm.cloud(n, axes, sd, rot) if n > 1 else np.zeros((n, 3))
        p = p + np.asarray(c) * L
        q = rng.uniform(0, L, (rest, 3))
        pos += [p, q]
        if nsub > 0 and n >= min_ptcs:
            idx.append(list(range(base, base + n)))
            rv_keep = True
        gl.append([n + rest if k == t else (3 + len(gl) + k if others else 0) for k in range(6)])
        if nsub:
            sl.append([n if k == t else (2 + k if others else 0) for k in range(6)])
            left = rest
            for s in range(1, nsub):
                w = left // 2
                left -= w
                sl.append([w if k == t else (1 if others else 0) for k in range(6)])
        ns.append(nsub)
        rv.append(r)
        base += n + rest
    pos.append(rng.uniform(0, L, (4, 3)))
    pos = np.concatenate(pos) % L
    N = len(pos)
    v = velfn(N) if velfn else rng.normal(size=(N, 3)) * [100., 60., 30.] + [250., -80., 33.]
    m = np.full(N, mscale) if massarr else mscale * (1 + ((7 * np.arange(N)) % 11) / 10.0)
    marr = [0.] * 6
    if massarr:
        marr[t] = mscale / u.min
    pu = {t: dict(pos=pos / u.lin, vel=v / np.sqrt(time), ids=np.arange(1, N + 1), mass=m / u.min)}
    if others:
        for k in (0, 1, 2, 3, 4, 5):
            if k != t:
                K = sum(g[k] for g in gl) + 2
                pu[k] = dict(pos=rng.uniform(0, L, (K, 3)) / u.lin, vel=rng.normal(size=(K, 3)) * 50, ids=np.arange(K) + 100000 * (k + 1), mass=np.full(K, 7.7 + k))
    files = split(pu, splits)
    gg.write_snapshot(root + '/snap/snap_099', files, marr, kind=kind, dt=dt, box=L / u.lin, time=time, z=z, **({} if kind == 'hdf5' else dict(fmt=fmt, swap=swap)))
    G = len(halos)
    good = np.asarray(rv, float) / u.lin
    bad = good * 1.7 + .1
    ff = []
    cuts = [round(G * k / fof_splits) for k in range(fof_splits + 1)]
    scuts = [round(len(sl) * k / fof_splits) for k in range(fof_splits + 1)]
    for k in range(fof_splits):
        a, b = cuts[k], cuts[k + 1]
        d = {}
        if b > a or fof_splits == 1:
            d.update(group_len=np.array(gl)[a:b].reshape(-1, 6), nsubs=np.array(ns)[a:b], rvir=(good if rdef == 'Rvir' else bad)[a:b], r200=(bad if rdef == 'Rvir' else good)[a:b])
        if scuts[k + 1] > scuts[k] or fof_splits == 1:
            d['sh_len'] = np.array(sl).reshape(-1, 6)[scuts[k]:scuts[k + 1]]
        ff.append(d)
    gg.write_fof(root + '/group', ff)
    kept = [k for k, h in enumerate(halos) if h[2] > 0 and h[0] >= min_ptcs]
    r200 = np.float32(np.float32(good) * u.lin).astype(float)[kept] / u.lin
    cat = rm.Cat(pos / u.lin, m / u.min, idx, r200, L / u.lin, u, min_ptcs, how, vel=v)
    cat.allm = m
    return cat, root + '/snap/snap_099', root + '/group'


def split(pu, k):
    out = [{} for _ in range(k)]
    for t, d in pu.items():
        n = len(d['ids'])
        c = [round(n * j / k) for j in range(k + 1)]
        for j in range(k):
            if c[j + 1] > c[j]:
                out[j][t] = {f: np.asarray(a)[c[j]:c[j + 1]] for f, a in d.items()}
    return out


def build(cp, w, scratch, otype='dm', rdef='Rvir', snap='099', viz='viz', catd='cat'):
    cat, s, g = w
    return cp.DensShapeProfsGadget(s, g, otype, snap, os.path.join(scratch, viz), os.path.join(scratch, catd), RVIR_OR_R200=rdef,
                                   MIN_NUMBER_PTCS=cat.min_ptcs, CENTER=cat.how)
