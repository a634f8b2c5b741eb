"""C01 caching: operation sequences (explicit-state) and thread interleavings (controlled scheduler) of the real cache against a reference LRU."""
import _thread, builtins, functools, importlib.util, itertools, os, sys, threading, types
import numpy as np
import sched as S
from mc import Violation

META = {"assumptions": ["arguments that compare equal (1 and 1.0, 0.0 and -0.0) may share an entry", "a source line of the cache is atomic (true of CPython 3.12 between calls)",
                                    "while a reset overlaps a call, that call may be counted before or after it"]}
GB = 1024 ** 3


class Mem:
    """scripted answers to 'how much memory is left'"""

    def __init__(self):
        self.script, self.k = (), 0

    def low(self):
        a = self.script[self.k] if self.k < len(self.script) else 0
        self.k += 1
        return a


def load(X, sched=None, mem=None):
    """a fresh copy of the caching module with controlled locks and a scripted memory probe"""
    path = os.path.join(X.pkg, 'cosmic_profiles/common/caching.py')
    spec = importlib.util.spec_from_file_location('caching_under_test', path)
    mod = importlib.util.module_from_spec(spec)
    import psutil
    vm = psutil.virtual_memory
    re_, non = (lambda *a: sched.rlock(True)), (lambda *a: sched.rlock(False))
    locks = {'functools': {'RLock': re_}, 'threading': {'RLock': re_, 'Lock': non}, '_thread': {'RLock': re_, 'allocate_lock': non, 'LockType': non}}
    fakes = {}
    for m in (functools, threading, _thread):
        fakes[m.__name__] = f = types.ModuleType(m.__name__)
        vars(f).update({**vars(m), **locks[m.__name__]})
    real = builtins.__import__

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        """the module under test gets the controlled locks from whatever module it imports them"""
        got = real(name, globals, locals, fromlist, level)
        return fakes.get(name, got) if level == 0 else got
    if sched:
        mod.__dict__['__builtins__'] = {**vars(builtins), '__import__': imp}
    spec.loader.exec_module(mod)
    if mem is not None:
        fake = lambda: types.SimpleNamespace(available=0 if mem.low() else 1 << 60, percent=0., total=1 << 61, free=1 << 60)
        for n, v in list(vars(mod).items()):
            if v is psutil:
                setattr(mod, n, types.SimpleNamespace(**{**vars(psutil), 'virtual_memory': fake}))
            elif v is vm:
                setattr(mod, n, fake)
    return mod, path


# modes: name -> (maxsize, GBs)
MODES = {'off': (0, 0), 'unbounded': (None, 0), 'lru1': (1, 0), 'lru2': (2, 0), 'lru3': (3, 0), 'memory': (7, 2)}
LARGE = {'lru5': (5, 0), 'lru40': (40, 0), 'lru128': (128, 0), 'lru300': (300, 0)}


class Ref:
    """reference store; kind: off / unbounded / bounded n / memory"""

    def __init__(self, mode, mem=None):
        self.mode, self.order, self.h, self.m, self.full, self.mem = mode, [], 0, 0, False, mem
        self.max = {**MODES, **LARGE}[mode][0] if mode.startswith('lru') else None

    def lookup(self, k):
        if self.mode == 'off' or k not in self.order:
            return False
        if self.mode != 'unbounded':
            self.order.remove(k)
            self.order.append(k)
        return True

    def insert(self, k, low=None):
        """low: answer of the memory probe, consumed only if asked"""
        if self.mode == 'off' or k in self.order:
            return
        if self.full:
            self.order.pop(0)
            self.order.append(k)
        else:
            self.order.append(k)
            if self.mode == 'memory':
                self.full = bool(self.mem.low())
            elif self.max:
                self.full = len(self.order) >= self.max

    def clear(self):
        self.order, self.h, self.m, self.full = [], 0, 0, False

    def info(self):
        return (self.h, self.m, len(self.order))


class Boom(Exception):
    pass


def user(calls, ref_cached, yp):
    def f(k):
        yp()
        calls.append(k)
        yp()
        if k == 'x':
            raise Boom(k)
        if k == 'r':
            return ('r', ref_cached[0]('a'))
        return value(k)
    return f


def value(k):
    return ('r', ('v', 'a')) if k == 'r' else None if k == 'b' else ('v', k)


def seq_ref(mode, ops, script):
    """reference run of a sequential program: list of observations"""
    mem = Mem(); mem.script = script
    r = Ref(mode, mem)
    calls, obs = [], []

    def call(k):
        if r.lookup(k):
            r.h += 1
            return value(k)
        calls.append(k)
        if k == 'x':
            raise Boom()
        v = ('r', call('a')) if k == 'r' else value(k)
        r.insert(k)
        r.m += 1
        return v
    for op in ops:
        n = len(calls)
        if op == 'clear':
            r.clear(); obs.append(('clear',))
        else:
            try:
                v = call(op)
            except Boom:
                v = 'Boom'
            obs.append((v, tuple(calls[n:])))
        obs.append(r.info())
    return obs, mem.k


def explore(X):
    import cosmic_profiles as cp

    def setmode(mode):
        cp.updateCachingMaxSize({**MODES, **LARGE}[mode][0]); cp.updateCachingMaxGBs({**MODES, **LARGE}[mode][1])

    def cached_of(mod, mode, f):
        ms, gb = {**MODES, **LARGE}[mode]
        return mod.lru_cache(maxsize=ms, use_memory_up_to=gb * GB)(f)

    def info_ok(info, mode, ref, what):
        h, m, ms, cs = info
        if (h, m, cs) != ref:
            raise Violation("%s: statistics (hits, misses, size) = %s, expected %s" % (what, (h, m, cs), ref))
        want = {'off': 0, 'memory': None, 'unbounded': None}.get(mode, {**MODES, **LARGE}[mode][0])
        if ms != want:
            raise Violation("%s: reported limit %s, expected %s" % (what, ms, want))

    # A. every operation sequence
    mem = Mem()
    mod, path = load(X, None, mem)

    def seqs(c):
        mode, depth, alpha = c['mode'], c['depth'], c['alpha']
        for rest in itertools.product(alpha, repeat=depth - len(c['head'])):
            ops = tuple(c['head']) + rest
            for script in c['scripts']:
                mem.script, mem.k = tuple(script), 0
                calls, ref = [], [None]
                f = cached_of(mod, mode, user(calls, ref, lambda: None))
                ref[0] = f
                exp, asked = seq_ref(mode, ops, tuple(script))
                obs = []
                for op in ops:
                    n = len(calls)
                    if op == 'clear':
                        f.cache_clear(); obs.append(('clear',))
                    else:
                        try:
                            v = f(op)
                        except Boom:
                            v = 'Boom'
                        obs.append((v, tuple(calls[n:])))
                    h, m, ms, cs = f.cache_info()
                    obs.append((h, m, cs))
                X.step(len(ops))
                if obs != exp:
                    k = [i for i in range(len(obs)) if obs[i] != exp[i]][0]
                    raise Violation("mode %s, memory low after insertions %s, operations %s: step %d gives %s, reference %s" % (mode, script, ops, k // 2, obs[k], exp[k]))
                info_ok(f.cache_info(), mode, exp[-1], "mode %s, operations %s" % (mode, ops))
                X.ok()
                X.state(mode, exp[-1], tuple(obs[-4:]))
                X.outcome(tuple(exp))
    cases = []
    deep = 5 if X.quick else 7
    for mode in MODES:
        alpha = ['a', 'b', 'c', 'x', 'r', 'clear']
        scripts = [()] if mode != 'memory' else list(itertools.product((0, 1), repeat=3))
        d = deep if mode != 'memory' else deep - 1
        for head in itertools.product(alpha, repeat=2):
            cases.append(dict(mode=mode, head=head, depth=d, alpha=alpha, scripts=scripts))
    for mode in ('lru2', 'lru3', 'memory'):           # longer histories over calls only
        scripts = [()] if mode != 'memory' else [(0, 1), (0, 0, 1), (1,)]
        alpha = ['a', 'b', 'c', 'd']
        for head in itertools.product(alpha, repeat=2):
            cases.append(dict(mode=mode, head=head, depth=7 if X.quick else 9, alpha=alpha, scripts=scripts))
    # stores of the default and other larger sizes: filled below, to, and beyond the limit, every position of the store used again, then overfilled
    for mode in (*LARGE, 'unbounded'):
        n = LARGE.get(mode, (200, 0))[0]
        for fill in (n - 1, n, n + 1, 2 * n + 3):
            for st in (1, 3, 7, 11) if n <= 40 or not X.quick else (1, 7):
                head = ['k%d' % k for k in range(fill)] + ['k%d' % ((k * st) % fill) for k in range(0, fill, 1 + n // 40)] + ['z%d' % k for k in range(n // 2)] + ['k%d' % k for k in range(0, fill, 1 + n // 30)]
                head += ['clear'] + ['k%d' % k for k in range(n + 2)] + ['x', 'k1', 'k2', 'r', 'a']
                cases.append(dict(mode=mode, head=head, depth=len(head), alpha=[], scripts=[()]))
    X.each(cases, seqs, group='sequences')
    X.bounds['operation sequences'] = "all of length %d over 3 keys, a raising and a recursive call and resets in 6 modes; all of length %d over 4 keys" % (deep, 7 if X.quick else 9)

    # B. array arguments: every sequence over arguments whose flattened contents collide
    A = [np.array([1., 2., 3., 4.]), np.array([[1., 2.], [3., 4.]]), np.array([[1., 2., 3., 4.]]), np.array([1, 2, 3, 4]), np.array([1, 2, 3, 4], np.int32), np.array([1, 2, 3, 4], np.float32),
         np.zeros((0,)), np.zeros((0, 3)), np.zeros((3, 0)), np.zeros((0,), np.int32), np.array(1.), np.array([True, False]), np.array([1, 0]), np.array([np.nan, 1.]),
         np.asfortranarray([[1., 2.], [3., 4.]]).T, np.array([[1., 3.], [2., 4.]]), np.arange(8.)[::2] + 1, np.array(['a', 'b'])]
    Lq = [[[1], [2, 3]], [[1, 2], [3]], [[1, 2, 3]], [[], [1, 2, 3]], [[1.5, 2], [3]]]
    # equal contents in other memory layouts and byte orders, contents whose hashes collide
    B = [np.array([[1., 2.], [3., 4.]]), np.asfortranarray([[1., 2.], [3., 4.]]), np.arange(24.).reshape(2, 3, 4).transpose(2, 0, 1), np.arange(6.).reshape(2, 3)[::-1, ::-1], np.arange(12.).reshape(3, 4)[:, ::2],
         np.array([1., 2.], '>f8'), np.array([-1., 5.]), np.array([-2., 5.]), np.array([-1, 5]), np.array([-2, 5]), np.array([0, 3]), np.array([2 ** 61 - 1, 3])]
    KINDS = {'1a': (1, 0), '1b': (1, 0), '2a': (2, 0), '1a1l': (1, 1), '0': (0, 0), '0a1l': (0, 1)}

    def deref(x):
        if isinstance(x, np.ndarray):
            return ('arr', x.shape, x.dtype.str, repr(x.tolist()))
        if isinstance(x, (list, tuple)):
            return (type(x).__name__,) + tuple(deref(y) for y in x)
        return (type(x).__name__, repr(x))

    def argsets(kind):
        if kind == '1a':
            return [(a,) for a in A] + [(A[0], 5), (A[0], 'com'), (A[3], 5)]
        if kind == '1b':
            return [(b,) for b in B] + [(B[0], -1), (B[0], -2)]
        if kind == '2a':
            P = A[:1] + A[3:8] + [np.array([1., 2.]), np.array([3., 4.]), np.array([1., 2., 3.]), np.array([4.])]
            return [(a, b) for a in P for b in P]
        if kind == '1a1l':
            return [(a, l, s) for a in (A[0], A[1], A[6], A[9]) for l in Lq for s in (0, 'mode')]
        if kind == '0a1l':
            return [(l,) for l in Lq]
        return [('p', 1), ('p', 2), ('q', 1), ('p',), ()]

    def arrays(c):
        mode, kind = c['mode'], c['kind']
        setmode(mode)
        sets = argsets(kind)
        for tup in itertools.product(range(len(sets)), repeat=c['len'] - 1):
            tup = (c['first'],) + tup
            mem.script, mem.k = (0, 1), 0
            calls = []

            def f(*args):
                calls.append(1)
                if args and isinstance(args[-1], str) and args[-1] == 'q':
                    raise Boom()
                a = args[0] if args else None
                return (deref(list(args)), a * 2 if isinstance(a, np.ndarray) and a.dtype.kind == 'f' else None)
            g = mod.np_cache_factory(*KINDS[kind])(f)
            for k in tup:
                args = sets[k]
                before = deref(list(args))
                got = g(*args)
                n = len(calls)
                exp = f(*args)
                del calls[n:]
                if deref(list(args)) != before:
                    raise Violation("cached call changed its arguments %s" % (before,))
                if got[0] != exp[0] or not (got[1] is exp[1] is None or (got[1].dtype == exp[1].dtype and got[1].shape == exp[1].shape and np.array_equal(got[1], exp[1], equal_nan=True))):
                    raise Violation("mode %s, call sequence %s: cached function saw %s, expected %s" % (mode, [deref(list(sets[i])) for i in tup], got[0], exp[0]))
                X.step()
            h, m, _, cs = g.cache_info()
            if h + m != len(tup) or m != len(calls):
                raise Violation("mode %s, call sequence %s: %d hits + %d misses for %d calls, %d computed" % (mode, tup, h, m, len(tup), len(calls)))
            ident = [repr(deref(list(sets[i]))) for i in tup]
            if mode in ('unbounded', 'lru3') and not any('nan' in s for s in ident) and m != len(set(ident)):
                raise Violation("mode %s, call sequence %s: %d computations for %d different arguments" % (mode, ident, m, len(set(ident))))
            g.cache_clear()
            if tuple(g.cache_info())[:2] != (0, 0) or g.cache_info()[3] != 0:
                raise Violation("cache_clear leaves %s" % (g.cache_info(),))
            X.ok()
            X.outcome(kind, mode, tup, h)
    cases = []
    for kind in KINDS:
        n = len(argsets(kind))
        ln = (3 if n < 50 else 2) if X.quick else (4 if n < 10 else 3)
        for mode in MODES:
            if ln == 3 and n > 10 and X.quick and mode in ('off', 'lru1'):
                ln2 = 2
            else:
                ln2 = ln
            for first in range(n):
                cases.append(dict(mode=mode, kind=kind, first=first, len=ln2))
    X.each(cases, arrays, group='array arguments')
    X.bounds['array arguments'] = "all call sequences of length 2-3 over up to 100 argument sets with colliding contents, 5 signatures, 6 modes"

    # C. interleavings
    sc = S.Sched({path})
    cmem = Mem()
    cmod, _ = load(X, sc, cmem)
    PROBE = ['a', 'b', 'X', 'a', 'c', 'b', 'Y', 'a', 'b']

    def model_outcomes(mode, progs, pre, script):
        """all outcomes of the reference under every interleaving of its atomic steps"""
        out, seen = set(), set()

        def clone(r, mem):
            m2 = Mem(); m2.script, m2.k = mem.script, mem.k
            q = Ref(r.mode, m2)
            q.order, q.h, q.m, q.full = list(r.order), r.h, r.m, r.full
            return q, m2

        def go(r, mem, stacks, rets, calls):
            key = (tuple(r.order), r.h, r.m, r.full, mem.k, stacks, rets, calls)
            if key in seen:
                return
            seen.add(key)
            moved = False
            for t, st in enumerate(stacks):
                # st = (op index, frames) ; frame = (key, phase)
                oi, frames = st
                if not frames and oi >= len(progs[t]):
                    continue
                moved = True
                q, m2 = clone(r, mem)
                nr, nc = list(rets), calls
                if not frames:
                    op = progs[t][oi]
                    if op == 'clear':
                        if mode in ('off', 'unbounded'):
                            q.order, q.full = [], False
                            ns = (oi, (('clear', 'zero'),))
                        else:
                            q.clear()
                            ns = (oi + 1, ())
                    elif op == 'info':
                        nr[t] = nr[t] + (q.info(),)
                        ns = (oi + 1, ())
                    else:
                        ns = (oi, ((op, 'look'),))
                        go(q, m2, stacks[:t] + (ns,) + stacks[t + 1:], tuple(nr), nc)
                        continue
                else:
                    k, ph = frames[-1]
                    low = frames[:-1]

                    def leave(v):
                        if low:
                            return (oi, low[:-1] + ((low[-1][0], 'ins'),))
                        nr[t] = nr[t] + (v,)
                        return (oi + 1, ())
                    if ph == 'zero':
                        q.h = q.m = 0
                        ns = (oi + 1, ())
                    elif ph == 'look':
                        if q.lookup(k):
                            if mode in ('off', 'unbounded'):
                                ns = (oi, low + ((k, 'hit'),))
                            else:
                                q.h += 1
                                ns = leave(value(k))
                        else:
                            ns = (oi, low + ((k, 'comp'),))
                    elif ph == 'hit':
                        q.h += 1
                        ns = leave(value(k))
                    elif ph == 'comp':
                        nc = tuple(sorted(nc + (k,)))
                        if k == 'x':
                            nr[t] = nr[t] + ('Boom',)
                            ns = (oi + 1, ())
                        elif k == 'r':
                            ns = (oi, low + ((k, 'wait'), ('a', 'look')))
                        else:
                            ns = (oi, low + ((k, 'ins'),))
                    elif ph == 'ins':
                        q.insert(k)
                        if mode in ('off', 'unbounded'):
                            ns = (oi, low + ((k, 'miss'),))
                        else:
                            q.m += 1
                            ns = leave(value(k))
                    elif ph == 'miss':
                        q.m += 1
                        ns = leave(value(k))
                go(q, m2, stacks[:t] + (ns,) + stacks[t + 1:], tuple(nr), nc)
            if not moved:
                q, m2 = clone(r, mem)
                tr = [q.info()]
                for k in PROBE:
                    if q.lookup(k):
                        q.h += 1; tr.append('hit')
                    else:
                        q.insert(k); q.m += 1; tr.append('miss')
                    tr.append(q.info())
                out.add((rets, calls, tuple(tr)))
        mem = Mem(); mem.script = script
        r = Ref(mode, mem)
        for k in pre:
            if r.lookup(k):
                r.h += 1
            else:
                r.insert(k); r.m += 1
        go(r, mem, tuple((0, ()) for _ in progs), tuple(() for _ in progs), ())
        return out, len(seen)

    def inter(c):
        mode, progs, pre, script = c['mode'], [tuple(p) for p in c['progs']], c['pre'], tuple(c['script'])
        allowed, nst = model_outcomes(mode, progs, pre, script)
        for k in range(nst):
            X.state(mode, c['progs'], pre, script, k)
        seen = set()

        def make():
            cmem.script, cmem.k = script, 0
            calls, ref = [], [None]
            f = cached_of(cmod, mode, user(calls, ref, sc.point))
            ref[0] = f
            for k in pre:
                f(k)
            del calls[:]
            rets = [[] for _ in progs]

            def prog(t):
                def go():
                    for op in progs[t]:
                        if op == 'clear':
                            f.cache_clear()
                        elif op == 'info':
                            i = f.cache_info()
                            rets[t].append((i[0], i[1], i[3]))
                        else:
                            try:
                                rets[t].append(f(op))
                            except Boom:
                                rets[t].append('Boom')
                return go
            return [prog(t) for t in range(len(progs))], (f, calls, rets)

        def check(ctx, log):
            f, calls, rets = ctx
            cl = tuple(sorted(calls))
            i = f.cache_info()
            tr = [(i[0], i[1], i[3])]
            try:
                for k in PROBE:
                    n = len(calls)
                    v = f(k)
                    if v != value(k):
                        raise Violation("probing the cache afterwards: f(%r) = %r" % (k, v))
                    tr.append('hit' if len(calls) == n else 'miss')
                    i = f.cache_info()
                    tr.append((i[0], i[1], i[3]))
            except Violation:
                raise
            except Exception as e:
                raise Violation("mode %s, threads %s after %s, schedule %s: the cache is broken afterwards: %s: %s" % (mode, progs, pre, log, type(e).__name__, e))
            o = (tuple(tuple(r) for r in rets), cl, tuple(tr))
            X.step(len(log))
            X.ok()
            seen.add(o)
            if o not in allowed:
                raise Violation("mode %s, threads %s after %s, memory %s, schedule %s: results %s, computed %s, state afterwards %s: none of the %d outcomes of the reference" % (
                    mode, progs, pre, script, log, o[0], o[1], o[2], len(allowed)))
        try:
            n = S.explore(sc, make, c['bound'], check, tuple(c['share']))
        except S.Deadlock as e:
            raise Violation("mode %s, threads %s after %s: %s" % (mode, progs, pre, e))
        X.count('schedules', n)
        X.count('reference_outcomes', len(allowed))
        X.count('reference_outcomes_seen', len(seen))
        for o in seen:
            X.outcome('inter', mode, c['progs'], pre, o)

    P2 = [([['a'], ['a']], []), ([['a'], ['b']], []), ([['a', 'b'], ['b', 'a']], []), ([['a', 'a'], ['b', 'b']], ['c']), ([['a'], ['clear']], ['a']), ([['b'], ['clear']], ['a', 'c']),
          ([['x'], ['a']], ['b']), ([['r'], ['a']], []), ([['r'], ['b', 'a']], []), ([['a', 'info'], ['b']], []), ([['c'], ['d']], ['a', 'b', 'c']), ([['a'], ['c', 'd']], ['a', 'b']),
          ([['a'], ['b', 'clear']], ['b']), ([['r'], ['clear', 'r']], []), ([['clear'], ['clear', 'a']], ['a', 'b'])]
    P3 = [([['a'], ['a'], ['b']], []), ([['a'], ['b'], ['clear']], ['a']), ([['a'], ['b'], ['c']], [])]
    cases = []
    for progs, pre in P2 + P3:
        for mode in MODES:
            for script in ([()] if mode != 'memory' else [(), (1,), (0, 1), (0, 0, 1)]):
                nt = len(progs)
                b = (2 if nt == 2 else 1) if X.quick else (3 if nt == 2 and sum(map(len, progs)) < 4 else 2)
                if X.quick and mode in ('lru3', 'off') and sum(map(len, progs)) > 2:
                    b = 1
                shares = 1 if X.quick else 4
                for k in range(shares):
                    cases.append(dict(mode=mode, progs=progs, pre=pre, script=script, bound=b, share=(k, shares)))
    X.each(cases, inter, group='interleavings')
    X.bounds['interleavings'] = "2-3 threads with 1-2 operations each, %s preemptions, scheduling points at every line, lock operation and computation" % ("up to 2" if X.quick else "up to 3")
