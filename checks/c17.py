"""C17 loading on any number of processes: k real rank processes over a simulated communicator whose coordinator enumerates who runs when."""
import os, shutil, itertools, time, pickle
import numpy as np
import refmodel as rm, worlds, gworld, gadgetgen as gg, queries as Q, mpisim, dumps, big
from mc import Violation, HarnessError

META = {"assumptions": ["the communicator follows the MPI standard; message loss and process failure are outside it",
                        "processes differ in nothing but their rank (same settings, same memory pressure on their caches)",
                        "a process's local computation between two communication calls does not read what another process writes (checked: only the leading process writes files)"]}
R = (.3, .2, .1)
H = [(36, 4, 1, .9, (.8, .6, .4), (.3, .6, .5), 1, R), (9, 2, 1, .5, (.5, .4, .3), (.6, .1, .2), 4, None), (24, 3, 2, .7, (.9, .5, .45), (.98, .02, .4), 2, None),
     (3, 1, 1, .5, (.5, .4, .3), (.1, .8, .2), 3, None), (12, 6, 3, .4, (.6, .4, .3), (.7, .5, .2), 5, R), (0, 4, 0, .3, (1., 1., 1.), (.2, .2, .2), 6, None), (15, 0, 1, .6, (.6, .5, .3), (.4, .3, .8), 7, R),
     (7, 2, 2, .3, (.6, .5, .3), (.9, .3, .8), 8, None), (22, 1, 1, .8, (.6, .6, .3), (.1, .1, .9), 9, R)]
BIG = [(60, 4, 1, .9, (.8, .6, .4), (.3, .6, .5), 1, R), (45, 3, 2, .7, (.9, .5, .45), (.98, .02, .4), 2, None), (50, 1, 1, .8, (.6, .6, .3), (.1, .1, .9), 9, R)]
ARR = [(34, .9, (.8, .6, .4), (.3, .6, .5), 1, R), (21, .6, (.9, .5, .45), (.98, .02, .4), 2, None), (30, .5, (.5, .4, .3), (.7, .8, .9), 3, None)]


# ------------------------------------------------------------------------------------ inside a rank process
_written = []


def handler(job, rank, size):
    import sys
    import cosmic_profiles as cp
    global _written
    if not getattr(sys, '_c17_hook', None):
        sys._c17_hook = True

        def hook(ev, args):
            if ev == 'open' and isinstance(args[0], str):
                mode, flags = args[1], args[2]
                if (mode and any(c in mode for c in 'wax+')) or (isinstance(flags, int) and flags & 3):
                    if not args[0].startswith('/dev/'):
                        _written.append(os.path.abspath(args[0]))
            elif ev in ('os.rename', 'os.remove', 'os.truncate'):
                _written.append(os.path.abspath(str(args[0])))
        sys.addaudithook(hook)
    del _written[:]
    os.makedirs(job['root'], exist_ok=True)
    os.chdir(job['root'])
    u = worlds.set_units(cp, 'a')
    res = {}
    for name, task in job['tasks']:
        try:
            res[name] = ('ok', run(cp, u, task, res))
        except mpisim.SimMPIError:
            raise
        except Exception as e:
            if not job.get('catch'):
                raise
            res[name] = ('exc', type(e).__name__, str(e))
    objs.clear()
    return res, list(_written)


objs = {}


def run(cp, u, t, res):
    k = t[0]
    if k == 'load':
        name, snap, group, otype, rdef, how, mn, dst = t[1:]
        o = objs[name] = cp.DensShapeProfsGadget(snap, group, otype, '099', dst + '/viz', dst + '/cat', RVIR_OR_R200=rdef, MIN_NUMBER_PTCS=mn, CENTER=how)
        return describe(o)
    if k == 'arrays':
        a, dst = worlds.make(u, ARR, min_ptcs=5), t[2]
        o = objs[t[1]] = worlds.build(cp, a, dst, viz='viz', catd='cat')
        return describe(o)
    if k == 'mock':
        r = cp.genHalo(100., 200, {'r_s': .2}, 'nfw', np.linspace(.1, 1., 5), np.linspace(.1, .8, 5), np.linspace(.1, .6, 5))
        return None if r is None or r[0] is None else [len(r[0]), float(r[3]), float(r[4])]
    o, q, sel = objs[t[1]], t[2], t[3]
    if q == 'vel':
        return o.getVelXYZ()
    if q == 'header':
        h = o.getHeader()
        return [float(h.boxsize), float(h.time), [int(x) for x in h.nall]]
    if q == 'info':
        return o.getObjInfoGadget()
    if q == 'describe':
        return describe(o)
    return {**Q.ROWS, **Q.FITS, **Q.VEL, **Q.DUMPS, **Q.VDUMPS, **Q.PLOTS}[q](o, sel)


def describe(o):
    return [o.getIdxCat(), o.getR200(), o.getXYZMasses()]


# ------------------------------------------------------------------------------------ the exploring side
def canonical(en, key):
    return en[0]


def reverse(en, key):
    return en[-1]


class Rotate:
    """always another process than the last one"""

    def __init__(self):
        self.last = -1

    def __call__(self, en, key):
        self.last = min(en, key=lambda r: ((r - self.last - 1) % 64))
        return self.last


def freeze(x):
    if isinstance(x, (list, tuple)):
        return tuple(freeze(y) for y in x)
    if isinstance(x, np.ndarray):
        return (x.dtype.str, x.shape, x.tobytes())
    return x


def tree(d):
    """names and contents of what a run left behind (figures: names only)"""
    out = {}
    for p, ds, fs in os.walk(d):
        for f in fs:
            fn = os.path.join(p, f)
            out[os.path.relpath(fn, d)] = None if f.endswith('.pdf') else open(fn, 'rb').read()
        for s in ds:
            out[os.path.relpath(os.path.join(p, s), d) + '/'] = None
    return out


def explore(X):
    import matplotlib, scipy.optimize, sklearn.neighbors, h5py, scipy.integrate, scipy.special      # so that the rank processes need not import them each
    worldsz = {}
    nth = [0]

    def world(k):
        if k not in worldsz:
            worldsz[k] = mpisim.World(k, handler)
        return worldsz[k]

    def drop(k):
        worldsz.pop(k).close()

    def execute(k, make_job, choose, mode):
        """one run on k processes with fresh paths: (per-rank results, leading process's files)"""
        nth[0] += 1
        root = os.path.join(X.scratch, 'run%d' % nth[0])
        os.makedirs(root)
        try:
            job = make_job(root)
            try:
                out = world(k).run(job, choose, mode)
            except mpisim.Failure as e:
                drop(k)
                raise Violation("%d processes (%s messages): %s" % (k, mode, e))
            X.step(world(k).steps)
            for r, o in enumerate(out):
                if o[0] == 'exc':
                    raise Violation("%d processes (%s messages): process %d fails: %s: %s\n%s" % (k, mode, r, o[1], o[2], o[3][-1500:]))
            for r in range(1, k):
                bad = [f for f in out[r][1][1] if f.startswith(root + '/')]
                if bad:
                    raise Violation("%d processes: process %d writes %s as well as the leading one" % (k, r, bad[0][len(root) + 1:]))
            return [o[1][0] for o in out], tree(root + '/out')
        finally:
            shutil.rmtree(root, ignore_errors=True)

    def jobs(w, tasks, catch=False):
        def make(root):
            os.makedirs(root + '/out')
            os.symlink(os.path.dirname(w[1]), root + '/snap')
            os.symlink(w[2], root + '/group')
            sn, gr = root + '/snap/' + os.path.basename(w[1]), root + '/group'
            ts = []
            for n, t in tasks:
                ts.append((n, tuple(root + '/out' if x == 'OUT' else sn if x == 'SNAP' else gr if x == 'GROUP' else x for x in t)))
            return {'root': root + '/out', 'tasks': ts, 'catch': catch}
        return make

    def compare(k, mode, what, got, ref):
        if list(got) != list(ref):
            raise Violation("%d processes: answered %s, one process %s" % (k, list(got), list(ref)))
        for n in ref:
            if freeze(got[n]) != freeze(ref[n]) and not same(got[n], ref[n]):
                raise Violation("%d processes (%s messages), %s: %s gives %s, on one process %s" % (k, mode, what, n, str(got[n])[:700], str(ref[n])[:700]))

    def same(a, b):
        if isinstance(a, (list, tuple)):
            return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            return Q.same(a, b)
        return type(a) == type(b) and a == b

    def against_ref(w, d, what):
        cat = w[0]
        (idx, sz), r200, (xyz, m) = d
        u = cat.u
        if list(sz) != [len(cat.idx_in[j]) for j in range(len(cat.idx_in))] or list(idx) != [i for o in cat.idx_in for i in o]:
            raise Violation("%s: objects of sizes %s, the files hold %s" % (what, list(sz), [len(o) for o in cat.idx_in]))
        if len(xyz) != len(cat.xyz_in) or not np.allclose(xyz, cat.xyz_in * u.lin * u.lout, rtol=1e-6) or not np.allclose(m, cat.m_in * u.min * u.mout, rtol=1e-6):
            raise Violation("%s: the particles are not those of the files in file order" % what)
        if not np.allclose(r200, cat.r200_in * u.lin * u.lout, rtol=1e-6):
            raise Violation("%s: radii %s, the files hold %s" % (what, r200, cat.r200_in * u.lin * u.lout))

    u = rm.Units(*[worlds.UNITS['a'][j] for j in (0, 1, 2, 3, 4)])

    def config(c):
        w = gworld.make(X.scratch, u, [H[j] for j in c['halos']], c['otype'], rdef=c['rdef'], kind=c['kind'], splits=c['splits'], fof_splits=c['files'], how=c['how'], min_ptcs=5)
        tasks = [('load', ('load', 'o', 'SNAP', 'GROUP', c['otype'], c['rdef'], c['how'], 5, 'OUT')), ('again', ('load', 'o', 'SNAP', 'GROUP', c['otype'], c['rdef'], c['how'], 5, 'OUT'))]
        if c.get('other'):
            o2 = {'dm': 'gas', 'gas': 'stars', 'stars': 'dm'}[c['otype']]
            tasks.insert(1, ('other', ('load', 'p', 'SNAP', 'GROUP', o2, c['rdef'], c['how'], 1, 'OUT')))
            tasks.insert(1, ('radius', ('load', 'q', 'SNAP', 'GROUP', c['otype'], 'R200' if c['rdef'] == 'Rvir' else 'Rvir', c['how'], 5, 'OUT')))
        if c.get('info'):
            tasks += [('info', ('q', 'o', 'info', None)), ('masses', ('q', 'o', 'masses', [0])), ('vel', ('q', 'o', 'vel', None)), ('header', ('q', 'o', 'header', None))]
        catch = bool(c.get('other'))           # the other type's lists need not name particles that exist
        mk = jobs(w, tasks, catch)
        (one,), _ = execute(1, mk, canonical, 'sync')
        if one['load'][0] == 'ok':
            against_ref(w, one['load'][1], 'one process')
        for k in c['procs']:
            if c['how_many'] == 'orders':
                for mode in ('eager', 'sync'):
                    for ch in (canonical, reverse, Rotate()):
                        out, _ = execute(k, mk, ch, mode)
                        compare(k, mode, '%d group files' % c['files'], out[0], one)
                        X.ok()
                        X.outcome('cfg', k, c['files'], tuple(c['halos']), c['otype'], c['rdef'])
                        X.state('run', k, c['files'], tuple(c['halos']), c['otype'], c['rdef'], c['splits'], mode, getattr(ch, '__name__', 'rotate'))
                X.count('configurations')
            else:
                for mode in ('eager', 'sync'):
                    n = [0]

                    def one_run(choose):
                        out, _ = execute(k, mk, choose, mode)
                        compare(k, mode, '%d group files' % c['files'], out[0], one)
                        X.ok()
                        if X.progress:
                            os.utime(X.progress.fileno())
                    s, t, runs, full = mpisim.explore(one_run, c['limit'])
                    X.count('protocol_states', s)
                    X.count('protocol_transitions', t)
                    X.count('schedules', runs)
                    X.count('protocols_explored_completely' if full else 'protocols_cut_off', 1)
                    for j in range(s):
                        X.state('proto', k, c['files'], tuple(c['halos']), mode, j)
                    X.outcome('proto', k, c['files'], mode, full)

    # A. process and file counts
    q = X.quick
    P = [2, 3, 4, 5] if q else [2, 3, 4, 5, 6, 7, 8]
    cs = []
    j = 0
    POPS = [[0, 1, 2, 4, 6, 7, 8], [0, 3, 4], [2], [5, 0, 5], [0, 1, 2, 3, 4, 5, 6, 7, 8]]
    for files in ((1, 2, 3, 4, 5, 7) if q else (1, 2, 3, 4, 5, 6, 7, 8, 9, 11)):
        for pop in POPS:
            for v in range(1 if q else 3):
                cs.append(dict(halos=pop, files=files, procs=P, otype=('dm', 'stars', 'gas')[j % 3], rdef=('Rvir', 'R200')[j % 2], kind=('hdf5', 'binary')[j // 2 % 2], splits=(1, 3, 2)[j // 3 % 3],
                               how=('com', 'mode')[j % 2], how_many='orders', info=j % 4 == 0))
                j += 1
    for files in (11, 12):                # file number order is not name order
        cs.append(dict(halos=POPS[4], files=files, procs=P[:3] if q else P, otype='dm', rdef='R200', kind='hdf5', splits=2, how='com', how_many='orders'))
    for files in (2, 3, 5):               # several catalogues from the same files in one session
        cs.append(dict(halos=POPS[0], files=files, procs=[2, 4], otype='dm', rdef='Rvir', kind='hdf5', splits=1, how='com', how_many='orders', other=True))
    X.bounds.update(processes=max(P), group_files=12, groups=9)
    X.each(cs, config, group='configurations')

    # B. every order in which processes can proceed, to completion
    ps = [dict(halos=h, files=f, procs=[k], otype='dm', rdef='Rvir', kind='hdf5', splits=1, how='com', how_many='all', limit=lim)
          for k, f, h, lim in ([(2, 1, [0, 4], 400), (2, 2, [0, 4, 6], 400), (2, 3, [0, 1, 4], 400), (2, 5, [2, 6, 1], 400), (3, 1, [0, 4], 400), (3, 2, [0, 1, 4], 400), (3, 3, [0, 4, 6], 400), (3, 5, [0, 1, 4], 400)]
                            + ([] if q else [(k, f, [0, 1, 2, 4, 6], 20000) for k in (2, 3, 4) for f in (1, 2, 3, 4, 5, 7)]))]
    X.each(ps, config, group='orders')

    # C. all queries on several processes
    def queries(c):
        w = gworld.make(X.scratch, u, big.HALOS if c.get('large') else BIG, 'dm', fof_splits=c['files'], splits=3 if c.get('large') else 1, min_ptcs=5)       # large: more particles than narrow counters hold
        n = c['query']
        if c['front'] == 'gadget':
            tasks = [('load', ('load', 'o', 'SNAP', 'GROUP', 'dm', 'Rvir', 'com', 5, 'OUT'))]
        elif c['front'] == 'arrays':
            tasks = [('load', ('arrays', 'o', 'OUT'))]
        else:
            tasks = [('mock', ('mock',))]
        if n:
            tasks += [('q', ('q', 'o', n, [0, 1, 2])), ('q2', ('q', 'o', n, [2, 0])), ('after', ('q', 'o', 'describe', None))]
        mk = jobs(w, tasks)
        (one,), files1 = execute(1, mk, canonical, 'sync')
        for k in c['procs']:
            for mode, ch in (('eager', canonical), ('sync', reverse), ('eager', reverse)):
                out, files = execute(k, mk, ch, mode)
                if n or c['front'] != 'mock':
                    compare(k, mode, c['front'] + ' ' + str(n), out[0], one)
                elif freeze(out[0]) != freeze(one):
                    raise Violation("%d processes: genHalo gives %s, on one process %s" % (k, out[0], one))
                if files != files1:
                    raise Violation("%d processes: %s leaves the files %s, on one process %s" % (k, n, sorted(files), sorted(files1)) +
                                    (" (other contents)" if sorted(files) == sorted(files1) else ""))
                X.ok()
        X.state('query', c['front'], n, c['files'])
        X.outcome('query', c['front'], n)
    qs = [dict(front='gadget', query=n, files=2, procs=[2] if q else [2, 3, 5]) for n in (*Q.ROWS, *Q.FITS, *Q.VEL, *Q.DUMPS, *Q.VDUMPS, *Q.PLOTS, 'info', 'vel', 'header')]
    qs += [dict(front='arrays', query=n, files=2, procs=[2] if q else [2, 3]) for n in (*Q.ROWS, *Q.FITS, *Q.DUMPS, *Q.PLOTS)]
    qs += [dict(front='mock', query=None, files=1, procs=[2, 3])]
    qs += [dict(front='gadget', query='masses', files=3, procs=[2, 3], large=True)]
    X.each(qs, queries, group='queries')

    # D. requests that cannot be met fail on every process rather than hang some
    def bad(c):
        w = gworld.make(X.scratch, u, [H[j] for j in (0, 2, 4)], 'dm', fof_splits=c['files'], min_ptcs=5)
        mk0 = jobs(w, [('load', ('load', 'o', 'SNAP', 'NOWHERE' if c['what'] == 'nofiles' else 'GROUP', 'dm', 'Rmax' if c['what'] == 'radius' else 'Rvir', 'com', 10 ** 6 if c['what'] == 'toosmall' else 5, 'OUT')),
                       ('load2', ('load', 'o', 'SNAP', 'GROUP', 'dm', 'Rvir', 'com', 5, 'OUT'))], True)

        def mk(root):
            os.makedirs(root + '/nothing')
            job = mk0(root)
            job['tasks'] = [(n, tuple(root + '/nothing' if x == 'NOWHERE' else x for x in t)) for n, t in job['tasks']]
            return job
        (one,), _ = execute(1, mk, canonical, 'sync')
        for k in c['procs']:
            for mode, ch in (('eager', canonical), ('sync', reverse), ('eager', Rotate())):
                out, _ = execute(k, mk, ch, mode)
                compare(k, mode, c['what'], {n: v[:2] if v[0] == 'exc' else v for n, v in out[0].items()}, {n: v[:2] if v[0] == 'exc' else v for n, v in one.items()})
                for r in range(1, k):
                    if [v[0] for v in out[r].values()] != [v[0] for v in one.values()]:
                        raise Violation("%d processes, %s: process %d %s, one process %s" % (k, c['what'], r, {n: v[:3] for n, v in out[r].items()}, {n: v[:2] for n, v in one.items()}))
                X.ok()
        X.outcome('bad', c['what'], one['load'][0])
        X.state('bad', c['what'], c['files'])
    X.each([dict(what=w_, files=f, procs=[2, 4]) for w_ in ('nofiles', 'radius', 'toosmall') for f in (1, 2, 3)], bad, group='rejected')
    for k in list(worldsz):
        drop(k)
