"""C03 parallel schedules: the compiled code under a controlled OpenMP run time - every assignment of loop iterations to threads, every order
in which they can be taken and begun, and, by way of recorded memory accesses, every interleaving inside them."""
import os, itertools, shutil
import numpy as np
import refmodel as rm, worlds, gworld, queries as Q, ompsched
from mc import Violation, HarnessError

META = {"shim": True, "cflags": ["-fsanitize=thread"], "opt": "-O1",
        "assumptions": ["LAPACK and the C library are thread-safe; LAPACK's writes are noticed when the package next reads the memory",
                        "executions without conflicting accesses that assign iterations to threads alike are equivalent (they commute)"]}
R = (.3, .2, .1)
# sizes: a large object before small ones and the other way round, so that leftovers in per-thread scratch memory matter
SPEC = {
    'big-first': [(19, .9, (.8, .6, .4), (.3, .6, .5), 1, R), (8, .6, (.9, .5, .45), (.98, .02, .4), 2, None), (13, .5, (.5, .4, .3), (.7, .8, .9), 3, None), (6, .7, (.6, .4, .3), (.1, .5, .2), 4, R), (10, .4, (.5, .3, .2), (.6, .1, .9), 5, R)],
    'small-first': [(6, .7, (.6, .4, .3), (.1, .5, .2), 4, R), (9, .5, (.5, .4, .3), (.7, .8, .9), 3, None), (17, .9, (.8, .6, .4), (.01, .99, .5), 1, R), (7, .6, (.9, .5, .45), (.98, .02, .4), 2, None), (12, .4, (.5, .3, .2), (.6, .1, .9), 5, R)],
}
HAL = [(17, 2, 1, .9, (.8, .6, .4), (.3, .6, .5), 1, R), (7, 2, 2, .5, (.5, .4, .3), (.6, .1, .2), 4, None), (12, 0, 1, .7, (.9, .5, .45), (.98, .02, .4), 2, None), (2, 1, 1, .5, (.5, .4, .3), (.1, .8, .2), 3, None), (8, 1, 1, .6, (.5, .4, .3), (.5, .8, .2), 6, R)]
KZ = worlds.katz([.5, .8, 1.2], 1e-2, 30, 5)
KS = worlds.katz([.6, 1.], 1e-2, 20, 4, True, True)
R4 = np.logspace(-.7, .1, 4)
QS = {
    'masses': lambda o, s: o.getMassesCenters(s),
    'sph': lambda o, s: o.estDensProfs(R4, s),
    'kernel': lambda o, s: o.estDensProfs(R4, s, direct_binning=False),
    'ell': lambda o, s: o.estDensProfs(R4, s, spherical=False, katz_config=KZ),
    'local': lambda o, s: o.getShapeCatLocal(s, katz_config=KZ),
    'localS': lambda o, s: o.getShapeCatLocal(s, katz_config=KS),
    'global': lambda o, s: o.getShapeCatGlobal(s, katz_config=KZ),
    'globalR': lambda o, s: o.getShapeCatGlobal(s, katz_config=KS),
}
VS = {
    'vlocal': lambda o, s: o.getShapeCatVelLocal(s, katz_config=KZ),
    'vlocalS': lambda o, s: o.getShapeCatVelLocal(s, katz_config=KS),
    'vglobal': lambda o, s: o.getShapeCatVelGlobal(s, katz_config=KZ),
}


def explore(X):
    omp = ompsched.Omp(X.pkg)
    omp.config(1)
    import cosmic_profiles as cp
    cp.updateCachingMaxGBs(0)
    cp.updateCachingMaxSize(0)
    u = worlds.set_units(cp, 'a')

    def close(a, b):
        if isinstance(a, tuple):
            return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
        return Q.close_rows(a, b, 1e-9)

    def subject(c):
        """what is run: () -> result"""
        n = c['objs']
        if c['front'] == 'gadget':
            w = gworld.make(X.scratch, u, HAL[:n], 'dm', min_ptcs=1 if c['query'] == 'construct' else 5, how=c['how'])
            if c['query'] == 'construct':
                def f():
                    o = gworld.build(cp, w, X.scratch)
                    return o.getIdxCat() + (o.getR200(),) + tuple(o.getXYZMasses())
                return f
            o = gworld.build(cp, w, X.scratch)
        else:
            o = worlds.build(cp, worlds.make(u, SPEC[c['world']][:n], min_ptcs=5, how=c['how']), X.scratch)
        s = list(range(len(o.getR200())))
        if c.get('rev'):
            s = s[::-1]
        q = {**QS, **VS}[c['query']]
        return lambda: q(o, s)

    def schedules(c):
        omp.config(1)
        f = subject(c)
        omp.config(1)
        base = f()
        regs = omp.regions()
        if not regs:
            X.count('without_parallel_regions')
        what = "%s of %d objects" % (c['query'], c['objs'])

        def check(res, how):
            X.ok()
            if not close(res, base):
                raise Violation("%s: %s\ngives    %s\nsequence %s" % (what, how, str(res)[:900], str(base)[:900]))

        def sched(r, T):
            return "%d threads, parallel loop %d, (iteration, thread) in order %s" % (T, r, list(omp.executed()))

        def races(r, T, a, hits):
            """conflicting accesses: give up the processor before each of them in turn"""
            X.count('executions_with_conflicts')
            seen, n = set(), 0
            for t, k, g, w in hits:
                if (t, k) in seen:
                    continue
                seen.add((t, k))
                if n >= 3000:
                    X.count('preemptions_cut_off')
                    break
                n += 1
                omp.config(T, region=r, mode=1, choices=a, preempt=(t, k))
                res = f()
                X.step()
                X.count('preempted_executions')
                check(res, "%s, thread %d interrupted before its access number %d" % (sched(r, T), t, k))

        # 1. every assignment of iterations to threads, with the accesses recorded
        for T, cap in c['teams']:
            for r, N in enumerate(regs):
                if N > cap:                                     # N = 0: shared out by the compiler beforehand, one execution per team
                    continue
                for a in itertools.product(range(T), repeat=N):
                    omp.config(T, region=r, mode=1, choices=a, record=True)
                    res = f()
                    X.step()
                    got = omp.executed()
                    if [g[0] for g in got] != list(range(N)) or (omp.regions() != regs):
                        X.count('other_shape')         # not shared out one by one in order, or depends on the number of threads
                    elif [g[1] for g in got] != list(a):
                        X.count('assignment_not_taken')
                    X.state('assign', c['front'], c['world'], c['query'], c['objs'], c['how'], c.get('rev'), r, T, got)
                    X.outcome('assign', c['query'], r, T, got)
                    check(res, sched(r, T))
                    X.count('accesses_recorded', omp.accesses)
                    if omp.conflicts:
                        X.count('conflicting_words', omp.conflicts)
                        races(r, T, a, omp.hits())
        # 2. every state of the scheduler: who asks for work, who has some and has not begun, what was done so far
        for T, cap in c['graphs']:
            for r, N in enumerate(regs):
                if N == 0 or N > cap:
                    continue

                def run(choices):
                    omp.config(T, region=r, choices=choices)
                    res = f()
                    X.step()
                    if omp.failed:
                        raise Violation("%s: the loop does not follow its own schedule: it depends on something else" % what)
                    check(res, sched(r, T))
                    X.outcome('graph', c['query'], r, T, omp.executed())
                    return omp.decisions()
                s, t, runs, full = ompsched.explore(run)
                X.count('scheduler_states', s)
                X.count('scheduler_transitions', t)
                for j in range(s):
                    X.state('graph', c['front'], c['world'], c['query'], c['objs'], c['how'], c.get('rev'), r, T, j)
        # 3. more threads allowed than the team gets, one thread only, all loops at once
        for T in (1, 2, 3, 4, 5, 8):
            for team in range(1, T + 1):
                for rr in (0, 1):
                    omp.config(T, team, rr=rr)
                    res = f()
                    X.step()
                    check(res, "%d threads at most, %d in the team, %s" % (T, team, 'in turn' if rr else 'one after the other'))
                    X.state('team', c['front'], c['world'], c['query'], c['objs'], c['how'], T, team, rr)
        omp.config(1)
        if not close(f(), base):
            raise Violation("%s: one thread gives another answer after the parallel runs" % what)

    q = X.quick
    cs = []
    for n in ((3, 4) if q else (2, 3, 4, 5)):
        for how in ('com', 'mode'):
            for world in SPEC:
                for name in QS:
                    if how == 'mode' and (name not in ('masses', 'local', 'sph') or world == 'small-first'):
                        continue
                    for rev in (False, True):
                        if rev and (q and (n, how) != (3, 'com')):
                            continue
                        cs.append(dict(front='arrays', world=world, query=name, objs=n, how=how, rev=rev,
                                       teams=[(2, 6), (3, 4 if q else 5), (4, 3 if q else 5)] + ([] if q else [(5, 4)]), graphs=[(2, 4 if q else 6), (3, 3 if q else 4)] + ([] if q else [(4, 3)])))
            for name in (*VS, 'construct', 'local', 'kernel'):
                if how == 'mode' and name in ('construct', 'kernel'):
                    continue
                cs.append(dict(front='gadget', world='', query=name, objs=n + (1 if name == 'construct' else 0), how=how, teams=[(2, 6), (3, 4), (4, 3 if q else 4)], graphs=[(2, 4 if q else 6), (3, 3 if q else 4)]))
    X.bounds.update(objects=max(c['objs'] for c in cs), threads=8, preemptions=1)
    X.each(cs, schedules)
