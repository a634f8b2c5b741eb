"""C11 unit systems: every history of accepted and rejected unit changes, constructions and queries, against a reference model of the units in force."""
import itertools, os, re
import numpy as np
import refmodel as rm, worlds, gworld, queries as Q
from mc import Violation

META = {"assumptions": ["dimensional results of an object are compared only while little h has the value it had when the object was built",
                        "unit names are resolved with the little h given in the same call"]}
R = (.3, .2, .1)
L = 10.
SPEC = [(34, .9, (.8, .6, .4), (.3, .6, .5), 1, R), (21, .6, (.9, .5, .45), (.98, .02, .4), 2, None), (12, .5, (.5, .4, .3), (.7, .8, .9), 3, R)]
HALOS = [(30, 4, 1, .9, (.8, .6, .4), (.3, .6, .5), 1, R), (3, 5, 1, .4, (.5, .4, .3), (.1, .1, .1), 5, R), (22, 3, 2, .7, (.9, .5, .45), (.98, .02, .4), 2, None)]
# accepted systems: (length, mass, velocity, h)
SYS = {'A': ('kpc', 'Msun', 'km/s', .6774), 'B': ('Mpc/h', 'E+10Msun/h', 'km/s', .6774), 'C': ('kpc/h', 'E+10Msun', 'km/s', .5), 'N': (3.0e24, 2.5e43, 1e5, .6774), 'P': ('pc', 'Msun/h', 1e5, .5), 'G': ('Gpc/h', 2e33, 'km/s', .7)}
BAD = {'l': ('kpx', 'Msun', 'km/s', .3), 'm': ('kpc', 'Msol', 'km/s', .3), 'v': ('Gpc', 'E+10Msun', 'm/s', .3)}
DIM = {'d': 'L', 'm': 'M', 'mass': 'M', 'centre': 'L', 'centers': 'L', 'rho_s': 'D', 'r_s': 'L'}
UL, UM, UD = 'L', 'M', 'D'


def explore(X):
    import cosmic_profiles as cp
    import cosmic_profiles.common.config as config
    deep = X.quick

    class Conf:
        def __init__(self):
            self.inn, self.out, self.h = None, None, None

        def apply(self, side, s):
            l, m, v, h = s
            t = (rm.unit_cm(l, h), rm.unit_g(m, h))
            if side == 'i':
                self.inn = t
            else:
                self.out = t
            self.h = h
            w = v if not isinstance(v, str) else {'km/s': 1e5}[v]
            if side == 'i':
                self.vin = w
            else:
                self.vout = w

        def fin(self):
            return self.inn[0] / rm.unit_cm('Mpc/h', self.h), self.inn[1] / rm.unit_g('E+10Msun/h', self.h)

        def fout(self):
            a, b = rm.unit_cm('Mpc/h', self.h) / self.out[0], rm.unit_g('E+10Msun/h', self.h) / self.out[1]
            return {'L': a, 'M': b, 'D': b / a ** 3}

        def key(self):
            return self.inn, self.out, self.h

    def reset(conf):
        for side, s in (('i', SYS['B']), ('o', SYS['B'])):
            (cp.updateInUnitSystem if side == 'i' else cp.updateOutUnitSystem)(*s)
            conf.apply(side, s)

    u0 = worlds.set_units(cp, 'int')
    cat0 = worlds.make(u0, SPEC, L)
    # snapshots of the same world, one per set of input units: written when first needed
    gsets = {}
    rootkeep = os.path.join(X.scratch, 'keep')
    os.makedirs(rootkeep, exist_ok=True)

    class FU:
        pass

    def gset(fin, h):
        k = (fin, h)
        if k not in gsets:
            u = FU(); u.lin, u.min = fin; u.lout = u.mout = u.dout = 1.
            gsets[k] = gworld.make(rootkeep, u, HALOS, keep=True, tag='c11_', kind='bin' if len(gsets) % 2 else 'hdf5')
        return gsets[k]

    def construct(kind, fin, h):
        if kind == 'A':
            c = rm.Cat(cat0.xyz_in * u0.lin / fin[0], cat0.m_in * u0.min / fin[1], cat0.idx_in, np.asarray(cat0.r200_in) * u0.lin / fin[0], L / fin[0], None, 5, 'com') if False else None
            return cp.DensShapeProfs(cat0.xyz_in / fin[0], cat0.m_in / fin[1], [list(o) for o in cat0.idx_in], np.asarray(cat0.r200_in) / fin[0], L / fin[0], '001',
                                     os.path.join(X.scratch, 'viz'), os.path.join(X.scratch, 'cat'), MIN_NUMBER_PTCS=5, CENTER='com')
        cat, s, g = gset(fin, h)
        return cp.DensShapeProfsGadget(s, g, 'dm', '099', os.path.join(X.scratch, 'viz'), os.path.join(X.scratch, 'catg'), RVIR_OR_R200='Rvir', MIN_NUMBER_PTCS=5, CENTER='mode')

    PI = Q.prof(2)
    LIGHT = {'radii': lambda o, f: o.getR200(), 'masses': lambda o, f: o.getMassesCenters([1, 0])}
    HEAVY = {'sph': lambda o, f: o.estDensProfs(Q.R6, [0, 1]), 'kernel': lambda o, f: o.estDensProfs(Q.R6, [1], direct_binning=False), 'local': lambda o, f: o.getShapeCatLocal([0, 1], katz_config=Q.KZ),
             'ell': lambda o, f: o.estDensProfs(Q.R6, [0], spherical=False, katz_config=Q.KZ), 'global': lambda o, f: o.getShapeCatGlobal([1, 0], katz_config=Q.KZ),
             'fit': lambda o, f: o.fitDensProfs(PI * f['D'], Q.RF, Q.NFW, [0, 1]), 'conc': lambda o, f: o.estConcentrations(PI * f['D'], Q.RF, Q.NFW, [1, 0])}
    GADGET = {'vlocal': lambda o, f: o.getShapeCatVelLocal([0, 1], katz_config=Q.KZ), 'vglobal': lambda o, f: o.getShapeCatVelGlobal([0, 1], katz_config=Q.KZ)}
    UNIT = {'radii': 'L', 'sph': 'D', 'kernel': 'D', 'ell': 'D', 'conc': None}
    one = {'L': 1., 'M': 1., 'D': 1.}

    # baselines in internal units
    conf = Conf()
    reset(conf)
    base = {}
    for kind in 'AG':
        o = construct(kind, conf.fin(), conf.h)
        for n, q in {**LIGHT, **HEAVY, **(GADGET if kind == 'G' else {})}.items():
            base[kind, n] = np.array(q(o, one))
        base[kind, 'xyz'] = [np.array(a) for a in o.getXYZMasses()]

    def cmp(name, kind, got, f, dims_only, hist):
        ref = base[kind, name]
        got = np.asarray(got)
        rt = {'fit': 1e-2, 'conc': 1e-2, 'kernel': 2e-3}.get(name, 2e-6)

        def one_(a, b, unit, what):
            if dims_only and unit:
                X.skipped += 1
                return
            b = b * f[unit] if unit else b
            if what in Q.AX:
                d = np.abs(np.sum(a * b, axis=-1))
                if not Q.same(np.isnan(a), np.isnan(b)) or not np.all(np.abs(d[~np.isnan(d)] - 1) <= 1e-5):
                    raise Violation("after %s: %s of the %s object: %s, expected %s" % (hist, name + ' ' + what, kind, a, b))
                return
            sc = np.nanmax(np.abs(b)) if b.dtype.kind == 'f' and b.size and not np.all(np.isnan(b)) else 0
            if a.shape != b.shape or not (Q.same(a, b) if a.dtype.kind != 'f' else rm.close(a, b, rt, 1e-6 * sc)):
                raise Violation("after %s: %s of the %s object: %s, expected %s" % (hist, name + ' ' + what, kind, a, b))
        if ref.dtype.names:
            if got.dtype != ref.dtype:
                raise Violation("after %s: %s has fields %s" % (hist, name, got.dtype))
            for fld in ref.dtype.names:
                one_(got[fld], ref[fld], DIM.get(fld), fld)
        else:
            one_(got, ref, UNIT[name], '')
        X.step(); X.ok()

    def observe(conf, objs, hist, heavy):
        f = conf.fout()
        for kind, o, h in objs:
            do = h != conf.h
            qs = dict(LIGHT)
            if heavy:
                qs.update(HEAVY)
                if kind == 'G':
                    qs.update(GADGET)
            for n, q in qs.items():
                if do and UNIT.get(n, 'mixed') not in (None, 'mixed'):
                    continue
                cmp(n, kind, q(o, f), f, do, hist)
        arr = np.array([[.5, 3.], [1e3, 0.]])
        fi = conf.fin()
        for nm, fac in (('LengthInternalToOut', f['L']), ('MassInternalToOut', f['M']), ('VelInternalToOut', 1e5 / conf.vout),
                        ('LengthInToInternal', fi[0]), ('MassInToInternal', fi[1]), ('VelInToInternal', conf.vin / 1e5)):
            got = getattr(config, nm)(arr)
            if not rm.close(np.asarray(got), arr * fac, 1e-6, 0):
                raise Violation("after %s: %s(%s) gives %s, expected %s" % (hist, nm, arr.tolist(), got.tolist(), (arr * fac).tolist()))
            X.step(); X.ok()
        for lab, exp, unit in zip(config.LMVLabel(), (conf.out[0], conf.out[1], conf.vout), (rm.unit_cm, rm.unit_g, lambda u, h: {'km/s': 1e5}[u])):
            num = re.match(r'-?[0-9.]+e[-+][0-9]+', lab)
            got = float(num[0]) * unit(lab[num.end():], conf.h) if num else unit(lab, conf.h)
            if not abs(got / exp - 1) <= (6e-3 if num else 1e-9):
                raise Violation("after %s: the label %r stands for %g, the outgoing unit is %g" % (hist, lab, got, exp))
            X.ok()
        X.state(conf.key(), tuple((k, h) for k, _, h in objs))

    def vals():
        return {k: v for k, v in vars(config).items() if isinstance(v, (int, float)) and not k.startswith('_')}

    def fn(c):
        conf = Conf()
        for ops in (tuple(c['head']) + t for t in itertools.product(c['alpha'], repeat=c['depth'] - len(c['head']))):
            if not any(o[0] == 'n' for o in ops) or (c['need'] and not any(o[0] in 'io' for o in ops)):
                continue
            reset(conf)
            objs = []
            for k, op in enumerate(ops):
                hist = ' '.join(ops[:k + 1])
                if op[0] in 'io':
                    upd = cp.updateInUnitSystem if op[0] == 'i' else cp.updateOutUnitSystem
                    if op[1] in BAD:
                        before = vals()
                        try:
                            upd(*BAD[op[1]])
                        except Exception:
                            pass
                        else:
                            raise Violation("after %s: the unit system %s was accepted" % (hist, BAD[op[1]]))
                        if vals() != before:
                            raise Violation("after %s: the rejected unit system %s changed %s to %s" % (hist, BAD[op[1]], before, vals()))
                    else:
                        upd(*SYS[op[1]])
                        conf.apply(op[0], SYS[op[1]])
                elif op[0] == 'n':
                    objs.append((op[1], construct(op[1], conf.fin(), conf.h), conf.h))
                last = k == len(ops) - 1
                observe(conf, objs, hist, last)
                X.step()
            X.outcome(ops[-2:], conf.key(), tuple((k, h) for k, _, h in objs))

    # every admissible name (and a number) in every position, incoming against outgoing, little h changed in between or not
    def names(c):
        for m, l2, m2, (h, h2) in itertools.product(ms, ls, ms, ((.6774, .6774), (.5, .6774), (.6774, 1.))):
            conf = Conf()
            reset(conf)
            for first, (a, b) in (('i', ((c['l'], m, 'km/s', h), (l2, m2, 1e5, h2))), ('o', ((c['l'], m, 7e4, h), (l2, m2, 'km/s', h2)))):
                second = 'o' if first == 'i' else 'i'
                for side, s in ((first, a), (second, b)):
                    (cp.updateInUnitSystem if side == 'i' else cp.updateOutUnitSystem)(*s)
                    conf.apply(side, s)
                observe(conf, [], '%s%s %s%s' % (first, a, second, b), False)
            X.outcome(c['l'], m, l2, m2, h, h2)

    ls, ms = ['kpc', 'Mpc', 'Gpc', 'pc', 'kpc/h', 'Mpc/h', 'Gpc/h', 'pc/h', 2.5e22], ['Msun', 'E+10Msun', 'Msun/h', 'E+10Msun/h', 3e40]
    X.each([dict(l=l) for l in ls], names)
    X.bounds['unit names'] = "every pair of incoming and outgoing length name (8 and a number) and mass name (4 and a number), either side set first, little h kept or changed between the two calls"
    ups = ['iA', 'iC', 'iN', 'oA', 'oC', 'oN', 'il', 'im', 'iv', 'ol', 'om', 'ov', 'nA', 'nG']
    full = ups + ['iB', 'iP', 'iG', 'oB', 'oP', 'oG']
    cases = []
    for head in itertools.product(full, repeat=2):
        cases.append(dict(head=head, alpha=full, depth=3, need=False))
    if X.quick:
        small = ['iA', 'iC', 'oN', 'oP', 'il', 'om', 'nA', 'nG']
        for head in itertools.product(small, repeat=2):
            cases.append(dict(head=head, alpha=small, depth=4, need=True))
    else:
        for head in itertools.product(ups, repeat=2):
            cases.append(dict(head=head, alpha=ups, depth=4, need=True))
        small = ['iA', 'oC', 'im', 'oN', 'nA', 'nG']
        for head in itertools.product(small, repeat=3):
            cases.append(dict(head=head, alpha=small, depth=6, need=True))
    X.each(cases, fn)
    X.bounds['histories'] = "all of length 3 over 20 operations, " + ("of length 4 over 8" if X.quick else "of length 4 over 14, of length 6 over 6") + "; light queries after every step, all queries at the end"
