"""C05 periodic boundaries: every translation of a lattice x every reference particle, against the unshifted, unwrapped object."""
import itertools
import numpy as np
import refmodel as rm, worlds, gworld, queries as Q
from mc import Violation

META = {"assumptions": ["objects extend over less than half the box in every direction", "generic particle positions (no decision closer to a tie than rounding)"]}
R = (.3, .2, .1)
# (n, r200, axes, seed, rot) ; L chosen per case, extents below L/2
OBJ = {'blob': (24, .5, (.8, .6, .4), 1, R), 'disc': (45, .9, (.95, .9, .12), 2, (1., .4, .2)), 'rod': (17, .4, (.95, .2, .25), 3, None), 'few': (6, .5, (.5, .4, .3), 4, R), 'pair': (2, .5, (.5, .4, .3), 5, R)}
RTOL = {'kernel': 2e-3, 'ell': 1e-5}


def explore(X):
    import cosmic_profiles as cp
    base = {}

    def results(o, n):
        X.step(len(Q.ROWS))
        return {k: np.asarray(f(o, list(range(n)))) for k, f in Q.ROWS.items()}

    def build(u, un, pos, m, idx, r200, L, how):
        return worlds.build(cp, rm.Cat(pos / u.lin, m / u.min, idx, np.array(r200) / u.lin, L / u.lin, u, 1, how), X.scratch)

    def compare(got, ref, shift, L, u, what):
        for k in Q.ROWS:
            a, b = got[k], ref[k]
            if k == 'masses':
                if not Q.same(a['mass'], b['mass'], 1e-9):
                    raise Violation("%s: masses %s, unshifted %s" % (what, a['mass'], b['mass']))
                c = a['centre'] / u.lout
                if L and not (np.all(c >= 0) and np.all(c <= L * (1 + 1e-12))):
                    raise Violation("%s: centre %s outside the box of %g" % (what, c, L))
                d = c - (b['centre'] / u.lout + shift)
                if L:
                    d = d - L * np.round(d / L)
                if not np.all(np.abs(d) < 1e-6 * max(L, 1)):
                    raise Violation("%s: centre %s, expected %s" % (what, c, (b['centre'] / u.lout + shift) % L if L else b['centre'] / u.lout + shift))
            elif k == 'kernel':
                if not np.all(np.abs(a - b) <= 2e-3 * np.abs(b) + 1e-6 * np.max(np.abs(b))):
                    raise Violation("%s: kernel density %s, unshifted %s" % (what, a, b))
            elif not Q.close_rows(a, b, RTOL.get(k, 1e-6)):
                raise Violation("%s: %s\n%s\nunshifted:\n%s" % (what, k, a, b))
            X.ok()

    def fn(c):
        u = worlds.set_units(cp, c['units'])
        L, names, how = c['L'], c['names'], c['how']
        pos, m, idx, r200 = [], [], [], []
        mid = (L or 10.) / 2
        for j, nm in enumerate(names):
            n, r, ax, sd, rot = OBJ[nm]
            p = rm.cloud(n, ax, sd, rot) + mid
            f = c['ref'] if c['ref'] >= 0 else None
            order = list(range(n))
            if f is not None:                           # the first particle is the reference for unwrapping
                ext = [0, int(np.argmax(p[:, 0])), int(np.argmin(p[:, 0])), int(np.argmax(p[:, 1])), int(np.argmin(p[:, 1])), int(np.argmax(p[:, 2])), int(np.argmin(p[:, 2]))][f]
                order = [ext] + [i for i in order if i != ext]
            p = p[order] + np.array([.13, -.21, .08]) * j
            idx.append(list(range(len(pos), len(pos) + n)))
            pos += list(p)
            m += [.01 * (1 + ((7 * i) % 11) / 10.) for i in order]
            r200.append(r)
        pos, m = np.array(pos), np.array(m)
        key = (names, how, c['ref'], L, c['units'])
        if key not in base:
            base.clear()
            base[key] = results(build(u, c['units'], pos, m, idx, r200, L, how), len(names))
        for s in c['shifts']:
            s = np.array(s)
            q = pos + s
            if L:
                q = q % L
            got = results(build(u, c['units'], q, m, idx, r200, L, how), len(names))
            compare(got, base[key], s, L, u, "%s shifted by %s" % (names, s))
            X.state(names, how, c['ref'], L, tuple(s))
            X.outcome(tuple(np.round(got['masses']['centre'].ravel() / u.lout, 3)))

    def lattice(L, n):
        # puts the centre at the faces, a little inside and outside of them, and elsewhere
        v = [0., L / 2, L / 2 - .15, L / 2 + .2, -L / 4, L / 2 + 1e-9, 1.5 * L + .3][:n]
        return list(itertools.product(v, repeat=3))
    cs = []
    UN = ('int', 'a', 'b', 'c', 'd')
    for ni, names in enumerate([('blob',), ('disc',), ('rod', 'few'), ('blob', 'pair', 'disc')]):
        for how in ('com', 'mode'):
            for ref in (-1, 0, 1, 2, 3, 4, 5, 6)[1:]:
                for L in (4.3, 10.):
                    if X.quick and (ref + ni) % 3 and L == 10.:
                        continue
                    sh = lattice(L, 4 if X.quick else 6)
                    if X.quick and len(names) > 1:
                        sh = sh[::2]
                    for k in range(0, len(sh), 16):
                        cs.append(dict(names=names, how=how, ref=ref, L=L, units=UN[(ni + ref) % 5], shifts=sh[k:k + 16]))
    # not periodic: box size zero, plain translations
    cs += [dict(names=nm, how=how, ref=ref, L=0., units='b', shifts=[(a, b, d) for a in (0., 3.3, -20.) for b in (.1, 50.) for d in (0., -7.)]) for nm in (('blob',), ('disc', 'few')) for how in ('com', 'mode') for ref in (0, 3)]
    X.bounds.update(shifts_per_object=64 if X.quick else 216, reference_particles=7)
    X.each(cs, fn)

    # velocity shapes and the snapshot front end
    def snap(c):
        u = worlds.set_units(cp, c['units'])
        L = 4.35
        ax, rot, sd = {'blob': ((.8, .6, .4), R, 1), 'disc': ((.95, .9, .12), None, 2)}[c['obj']]

        def one(ctr):
            w = gworld.make(X.scratch, u, [(50, 3, 1, .7, ax, ctr, sd, rot), (30, 2, 1, .5, (.5, .4, .3), [(x + .1) % 1 for x in ctr], 5, R)], L=L, how=c['how'], kind=('hdf5', 'bin')[c['k'] % 2])
            o = gworld.build(cp, w, X.scratch)
            r = results(o, 2)
            r.update({k: np.asarray(f(o, [0, 1])) for k, f in Q.VEL.items()})
            X.step(2)
            return r
        ref = one((.5, .5, .5))
        for s in c['shifts']:
            got = one([(.5 + x / L) % 1 for x in s])
            compare(got, ref, np.array(s), L, u, "snapshot shifted by %s" % (s,))
            for k in Q.VEL:
                if not Q.close_rows(got[k], ref[k], 1e-6):
                    raise Violation("snapshot shifted by %s: %s\n%s\nunshifted:\n%s" % (s, k, got[k], ref[k]))
                X.ok()
            X.state('snap', c['obj'], c['how'], tuple(s))
    sh = lattice(4., 3)
    X.each([dict(obj=o, how=h, units=UN[k % 5], k=k, shifts=sh[k:k + 9]) for o in ('blob', 'disc') for h in ('com', 'mode') for k in range(0, 27, 9)], snap, group='snapshot')

    # centres exactly on the faces of the box (dyadic numbers: exact in any order of summation): the upper face is the lower one
    def faces(c):
        u = worlds.set_units(cp, 'int')
        L, d = c['L'], np.array(list(itertools.product((-1, 1), repeat=3)), float)
        for ctr in itertools.product((0., L / 2, L), repeat=3):
            for first in range(8):
                p = d[[first] + [i for i in range(8) if i != first]] * (.25, .125, .5) * c['scale']
                o = build(u, 'int', (p + ctr) % L, np.full(8, 2. ** -7), [list(range(8))], [.5], L, c['how'])
                X.step()
                m = o.getMassesCenters([0])[0]
                if not (m['mass'] == 2. ** -4 and np.all(m['centre'] == np.array(ctr) % L)):
                    raise Violation("centre %s mass %s of the corners of a cuboid about %s in a box of %g" % (m['centre'], m['mass'], ctr, L))
                X.state('faces', L, c['how'], c['scale'], ctr, first)
                X.ok()
    X.each([dict(L=L, how=h, scale=s) for L in (4., 16.) for h in ('com', 'mode') for s in (1., .5)], faces, group='faces')
