"""C13 interrupted dumps: every crash point and every torn write (byte by byte) of the real dump path, every failing file operation,
followed by queries and by a repairing dump."""
import errno, itertools, os, resource, shutil, sys
import numpy as np
import refmodel as rm, worlds, gworld, queries as Q
from mc import Violation
from dumps import close_dumped, KINDS, HALOS, HALOS2

META = {"level": "fault_enumeration", "assumptions": ["renaming a file is atomic; file operations that returned before the crash persist", "one process uses the folder at a time"]}
EV = {'open', 'os.remove', 'os.unlink', 'os.rename', 'os.replace', 'os.mkdir', 'os.rmdir', 'os.truncate', 'os.link', 'os.symlink', 'shutil.move', 'shutil.copyfile', 'os.ftruncate'}


class Tap:
    """sees every file operation on the watched folder before it happens (audit events)"""

    def __init__(self):
        self.root = None
        self.fn = None
        sys.addaudithook(self.hook)

    def hook(self, ev, args):
        if self.fn is None or ev not in EV:
            return
        if ev == 'open':
            p, mode, flags = args[0], args[1], args[2]
            if not isinstance(p, (str, bytes)) or not flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND):
                return
        ps = [os.fsdecode(a) for a in args[:2] if isinstance(a, (str, bytes))]
        if not any(os.path.abspath(p).startswith(self.root) for p in ps):
            return
        fn, self.fn = self.fn, None
        try:
            fn(ev, ps)
        finally:
            self.fn = fn


def snapshot(root):
    out = {}
    for p, ds, fs in os.walk(root):
        out[os.path.relpath(p, root)] = None
        for f in fs:
            with open(os.path.join(p, f), 'rb') as h:
                out[os.path.relpath(os.path.join(p, f), root)] = h.read()
    return out


def restore(root, snap):
    shutil.rmtree(root, ignore_errors=True)
    for k in sorted(k for k, v in snap.items() if v is None):
        os.makedirs(os.path.join(root, k), exist_ok=True)
    for k, v in snap.items():
        if v is not None:
            with open(os.path.join(root, k), 'wb') as h:
                h.write(v)


def between(a, b, op, stride):
    """all disk states a crash can leave between two file operations: the first one (atomic) done or not, then each changed file torn at every byte"""
    yield a
    ev, ps = op
    a = dict(a)
    if ev in ('os.rename', 'os.replace') and a.get(ps[0]) is not None:
        a[ps[1]] = a.pop(ps[0])
    elif ev in ('os.remove', 'os.unlink'):
        a.pop(ps[0], None)
    elif ev == 'os.mkdir':
        a[ps[0]] = None
    if ev != 'open':
        yield a
    ch = [f for f in sorted(set(a) | set(b)) if a.get(f, 0) != b.get(f, 0)]
    for f in ch:
        if b.get(f) is None:
            continue
        new = b[f]
        for others in ((a, b) if len(ch) > 1 else (a,)):
            base = {k: v for k, v in others.items() if k != f}
            for d in b:
                if b[d] is None:
                    base.setdefault(d, None)
            n = len(new)
            cuts = range(n + 1) if stride == 1 else sorted({k for k in range(n + 1) if k in (0, 1, n - 1, n) or new[k - 1:k] in ((b'\n', b' ', b'e', b'.') if stride <= 8 else (b'\n',)) or k % stride == 0})
            for k in cuts:
                yield dict(base, **{f: new[:k]})


def explore(X):
    import cosmic_profiles as cp
    os.chdir(X.scratch)
    u = worlds.set_units(cp, 'a')
    tap = Tap()
    keep = os.path.join(X.scratch, 'keep')
    os.makedirs(keep, exist_ok=True)
    top = os.path.join(X.scratch, 'h')
    tap.root = top
    folder = os.path.join(top, 'cat')
    ws = {}

    def obj(name):
        if name not in ws:
            t, world, cls = {'dm': ('dm', HALOS, 'g'), 'dmB': ('dm', HALOS2, 'g'), 'ar': ('dm', HALOS, 'a'), 'arB': ('dm', HALOS2, 'a')}[name]
            w = gworld.make(keep, u, world, t, keep=True, tag=name)
            viz = os.path.join(X.scratch, 'viz')
            if cls == 'g':
                o = cp.DensShapeProfsGadget(w[1], w[2], t, '099', viz, folder, RVIR_OR_R200='Rvir', MIN_NUMBER_PTCS=5, CENTER='com')
            else:
                c = w[0]
                o = cp.DensShapeProfs(c.xyz_in, c.m_in, [list(i) for i in c.idx_in], c.r200_in, c.L_in, '099', viz, folder, MIN_NUMBER_PTCS=5, CENTER='com')
            ws[name] = (o, list(range(3 if world is HALOS else 2)), {})
        return ws[name]

    def query(name, kind):
        o, sel, _ = obj(name)
        return np.array(getattr(o, KINDS[kind][0])(sel, katz_config=KINDS[kind][2]))

    def dump(name, kind):
        o, sel, _ = obj(name)
        getattr(o, KINDS[kind][1])(sel, katz_config=KINDS[kind][2])

    def fresh(name, kind):
        f = obj(name)[2]
        if kind not in f:
            wipe()
            f[kind] = query(name, kind)
        return f[kind]

    def wipe(to=None):
        if to is None:
            shutil.rmtree(top, ignore_errors=True)
        else:
            restore(top, to)

    def record(name, kind):
        """the disk before every file operation of a dump, and at the end"""
        snaps, evs = [], []

        def see(ev, ps):
            snaps.append(snapshot(top)); evs.append((ev, [os.path.relpath(os.path.abspath(p), top) for p in ps]))
        tap.fn = see
        try:
            dump(name, kind)
        finally:
            tap.fn = None
        snaps.append(snapshot(top))
        X.step(len(evs))
        return snaps, evs

    def judge(name, kind, what, also=None):
        ref = fresh_of[name, kind]
        try:
            got = query(name, kind)
        except Exception as e:
            raise Violation("%s: the query fails with %s: %s" % (what, type(e).__name__, e))
        X.step()
        if Q.close_rows(got, ref, 1e-9):
            X.ok()
            return 'computed'
        ok, w = close_dumped(got, ref, u)
        if ok:
            X.ok()
            return 'read'
        if also is not None and close_dumped(got, also, u)[0]:
            X.ok()
            return 'previous'
        raise Violation("%s: the query returns %s, correct: %s (%s)" % (what, got, ref, w))

    def repaired(name, kind, what, clean):
        try:
            dump(name, kind)
        except Exception as e:
            raise Violation("%s: a new dump fails with %s: %s" % (what, type(e).__name__, e))
        r = judge(name, kind, what + ', after a new dump')
        now = snapshot(top)
        for f, v in clean.items():
            if v is not None and now.get(f) != v:
                raise Violation("%s: after a new dump the file %s differs from that of an undisturbed dump" % (what, f))

    fresh_of = {}

    def prep(*nk):
        for n, k in nk:
            if (n, k) not in fresh_of:
                fresh_of[n, k] = fresh(n, k)

    def starts(name, kind, start):
        """disk states from which the dump is started: (label, snapshot or None, previous complete catalogue)"""
        other = name + 'B' if not name.endswith('B') else name[:-1]
        if start == 'missing folder':
            yield start, {}, None
        elif start == 'complete':
            wipe()
            dump(name, kind)
            yield start, snapshot(top), None
        elif start == 'other kinds':
            wipe()
            for k in KINDS if name[:2] == 'dm' else ('local', 'global'):
                if k != kind:
                    dump(name, k)
            yield start, snapshot(top), None
        else:                                             # an interrupted dump of another object set, stopped before each operation
            wipe()
            snaps, evs = record(other, kind)
            for k, s in enumerate(snaps[:-1]):
                yield "dump of other objects stopped before operation %d (%s %s)" % (k, evs[k][0], evs[k][1]), s, None

    def crash(c):
        name, kind, start = c['obj'], c['kind'], c['start']
        other = name + 'B'
        prep((name, kind), (other, kind))
        wipe()
        dump(name, kind)
        clean = snapshot(top)
        for label, s0, also in starts(name, kind, start):
            wipe(s0)
            if not s0:
                wipe()
            snaps, evs = record(name, kind)
            X.count('file_operations', len(evs))
            pts = 0
            for k in range(len(snaps)):
                states = between(snaps[k], snaps[k + 1], evs[k], c['stride']) if k + 1 < len(snaps) else [snaps[k]]
                for j, st in enumerate(states):
                    wipe(st)
                    where = "start: %s; crash after operation %d (%s), torn state %d, files %s" % (label, k - 1, evs[k - 1] if k else '-', j, {f: len(v) for f, v in st.items() if v is not None})
                    r = judge(name, kind, where)
                    X.outcome(kind, start, r, len(st))
                    X.state(name, kind, label, tuple(sorted((f, len(v or b'')) for f, v in st.items())))
                    pts += 1
                    if j == 0 or j % c['fix'] == 0:
                        repaired(name, kind, where, clean)
                        X.count('repairs')
            X.count('crash_states', pts)

    def fault(c):
        """failing operations: the k-th operation raises, or the n-th byte of a file cannot be written"""
        name, kind, start = c['obj'], c['kind'], c['start']
        prep((name, kind), (name + 'B', kind))
        wipe()
        dump(name, kind)
        clean = snapshot(top)
        soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
        for label, s0, also in starts(name, kind, start):
            wipe(s0)
            if not s0:
                wipe()
            snaps, evs = record(name, kind)
            n = len(evs)
            plans = [('raise', k, e) for k in range(n) for e in ('ENOSPC', 'EACCES', 'interrupt')]
            for k, (ev, ps) in enumerate(evs):
                if ev == 'open':
                    size = max([len(snaps[k + 1].get(f) or b'') for f in snaps[k + 1] if f in ps] + [1])
                    plans += [('short', k, b) for b in range(0, size, c['stride'])]
            for plan in plans:
                wipe(s0)
                if not s0:
                    wipe()
                cnt = [0]

                def see(ev, ps):
                    k = cnt[0]
                    cnt[0] += 1
                    if plan[0] == 'raise' and k == plan[1]:
                        raise KeyboardInterrupt() if plan[2] == 'interrupt' else OSError(getattr(errno, plan[2]), plan[2])
                    if plan[0] == 'short':
                        resource.setrlimit(resource.RLIMIT_FSIZE, (plan[2] if k == plan[1] else soft, hard))
                tap.fn = see
                failed = False
                try:
                    dump(name, kind)
                except (OSError, KeyboardInterrupt):
                    failed = True
                finally:
                    tap.fn = None
                    resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
                where = "start: %s; %s at operation %d (%s)" % (label, plan, plan[1], evs[plan[1]])
                r = judge(name, kind, where)
                X.count('faults')
                X.outcome('fault', kind, plan[0], failed, r)
                X.state('fault', name, kind, label, plan)
                if plan[0] == 'raise' or plan[2] % (3 * c['stride']) == 0:
                    repaired(name, kind, where, clean)

    Ks = [('dm', k) for k in KINDS] + [('ar', 'local'), ('ar', 'global')]
    S = ('missing folder', 'complete', 'other kinds', 'interrupted')
    cs = []
    for (o, k), s in itertools.product(Ks, S):
        if X.quick:
            st = 1 if (s in ('missing folder', 'complete') and k in ('vglobal', 'global')) else 24 if s != 'interrupted' else 150
        else:
            st = 1 if s != 'interrupted' else 4
        cs.append(dict(obj=o, kind=k, start=s, stride=st, fix=301 if X.quick else 11))
    X.each(cs, crash, group='crash points')
    cs = []
    for (o, k), s in itertools.product(Ks, S[:3] if X.quick else S):
        cs.append(dict(obj=o, kind=k, start=s, stride=150 if X.quick else 7 if s != 'interrupted' else 40))
    X.each(cs, fault, group='failing operations')
    X.bounds['crash points'] = "before every file operation of a dump and after every %sbyte of every file, 6 kinds, from 4 kinds of starting states (incl. every earlier crash)" % ("" if not X.quick else "(overall shapes) or every 24th ")
    X.bounds['faults'] = "every file operation fails in 3 ways, every file cut short at every %d-th byte" % (150 if X.quick else 7)
