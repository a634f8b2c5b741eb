"""The explorer's side of the controlled OpenMP run time (shim/gompshim.c)."""
import ctypes, os


class Omp:
    def __init__(self, pkg):
        self.l = ctypes.CDLL(os.path.join(pkg, "libmcshim.so"))
        for f in ('shim_iters', 'shim_conflicts', 'shim_accesses', 'shim_hits'):
            getattr(self.l, f).restype = ctypes.c_long
        self.l.shim_key.restype = ctypes.c_ulong
        self.l.shim_config.argtypes = [ctypes.c_int] * 4 + [ctypes.POINTER(ctypes.c_int), ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long, ctypes.c_int]

    def config(self, threads, team=None, region=-1, mode=0, choices=(), record=False, preempt=None, rr=0):
        c = (ctypes.c_int * max(1, len(choices)))(*choices)
        t, k = preempt if preempt else (-1, -1)
        self.l.shim_config(threads, threads if team is None else team, region, mode, c, len(choices), int(record), t, k, rr)

    def regions(self):
        """number of loop iterations of every parallel region of the last run"""
        return [int(self.l.shim_iters(r)) for r in range(self.l.shim_regions())]

    def decisions(self):
        return [(self.l.shim_alt(i), self.l.shim_key(i)) for i in range(self.l.shim_decisions())]

    def executed(self):
        """(iteration, thread) in the order in which the explored region ran them"""
        out, it, th, i = [], ctypes.c_int(), ctypes.c_int(), 0
        while self.l.shim_executed(i, ctypes.byref(it), ctypes.byref(th)):
            out.append((it.value, th.value))
            i += 1
        return tuple(out)

    def hits(self):
        """accesses to the memory two threads conflict on: (thread, ordinal, address, write)"""
        out = []
        t, k, g, w = ctypes.c_int(), ctypes.c_long(), ctypes.c_long(), ctypes.c_int()
        for i in range(self.l.shim_hits()):
            self.l.shim_hit(i, ctypes.byref(t), ctypes.byref(k), ctypes.byref(g), ctypes.byref(w))
            out.append((t.value, k.value, g.value, w.value))
        return out

    failed = property(lambda s: bool(s.l.shim_failed()))
    conflicts = property(lambda s: int(s.l.shim_conflicts()))
    accesses = property(lambda s: int(s.l.shim_accesses()))


def explore(run, limit=10 ** 9):
    """Take every decision out of every reachable scheduler state.  run(choices) -> [(alternatives, state key)] of the run.
    Returns (#states, #transitions, #runs, complete)."""
    done, states, todo, runs = set(), set(), [()], 0
    while todo:
        p = todo.pop()
        if p and p[-1] in done:
            continue
        if runs >= limit:
            return len(states), len(done), runs, False
        d = run([a for _, a in p])
        runs += 1
        path = []
        for i, (n, key) in enumerate(d):
            a = p[i][1] if i < len(p) else 0
            states.add(key)
            if i >= len(p) - 1:
                done.add((key, a))
                for b in range(n):
                    if (key, b) not in done:
                        todo.append(tuple(path) + ((key, b),))
            path.append((key, a))
    return len(states), len(done), runs, True
