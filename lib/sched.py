"""Controlled scheduler for Python threads: exactly one thread runs at a time and every hand-over is a recorded choice.

Scheduling points: every source line of the traced files, lock acquisition and release, and explicit yields.
`explore` enumerates all choice sequences with at most `bound` preemptions (depth-first, by replay)."""
import sys, threading

_real_Lock = threading.Lock


class Deadlock(Exception):
    pass


class Stop(BaseException):
    pass


class Sched:
    def __init__(self, files, limit=20000):
        self.files = files
        self.limit = limit
        self.active = False

    # -- one run ---------------------------------------------------------------------------------
    def run(self, programs, prefix):
        """programs: callables.  Returns the choice log: list of (number of alternatives, index taken, cost of index>0)."""
        n = len(programs)
        self.gates = [_real_Lock() for _ in range(n)]
        for g in self.gates:
            g.acquire()
        self.done = _real_Lock()
        self.done.acquire()
        self.alive = set(range(n))
        self.blocked = {}
        self.cur = None
        self.prefix, self.log = prefix, []
        self.error = None
        self.points = 0
        self.tid = {}
        ths = [threading.Thread(target=self._body, args=(k, p), daemon=True) for k, p in enumerate(programs)]
        for t in ths:
            t.start()
        self.active = True
        first = self._choose(None)
        self.cur = first
        self.gates[first].release()
        if not self.done.acquire(timeout=60):
            self.error = self.error or RuntimeError("scheduler lost control (a thread blocks outside the scheduler)")
        self.active = False
        if self.error:
            for g in self.gates:
                try:
                    g.release()
                except RuntimeError:
                    pass
            raise self.error
        for t in ths:
            t.join()
        return self.log

    def _body(self, k, prog):
        self.gates[k].acquire()
        self.tid[threading.get_ident()] = k
        if self.error:
            return
        sys.settrace(self._trace)
        try:
            prog()
        except Stop:
            return
        except BaseException as e:
            self.error = e
        finally:
            sys.settrace(None)
        self.alive.discard(k)
        if self.error or not self.alive:
            self.done.release()
            return
        try:
            nxt = self._choose(None)
        except Deadlock as e:
            self.error = e
            self.done.release()
            return
        self.cur = nxt
        self.gates[nxt].release()

    def _trace(self, frame, event, arg):
        if frame.f_code.co_filename in self.files:
            return self._line
        return None

    def _line(self, frame, event, arg):
        if event == 'line':
            self.point()
        return self._line

    def _choose(self, me):
        en = [t for t in sorted(self.alive) if t not in self.blocked]
        if not en:
            raise Deadlock("deadlock: %d thread(s) wait for each other" % len(self.alive))
        if me in en:
            en.remove(me)
            en.insert(0, me)
        k = len(self.log)
        i = self.prefix[k] if k < len(self.prefix) else 0
        if i >= len(en):
            raise RuntimeError("replay diverged")
        self.log.append((len(en), i, 1 if me is not None and me == en[0] else 0))
        return en[i]

    def me(self):
        return self.tid.get(threading.get_ident()) if self.active else None

    def point(self):
        me = self.me()
        if me is None or me != self.cur:
            return
        self.points += 1
        if self.points > self.limit:
            self._fail(RuntimeError("no progress after %d steps (livelock)" % self.limit))
        if len(self.alive) > 1:
            self._switch(me)

    def _fail(self, e):
        self.error = e
        self.done.release()
        raise Stop()

    def _switch(self, me):
        try:
            nxt = self._choose(me if me not in self.blocked else None)
        except Deadlock as e:
            self._fail(e)
        if nxt != me:
            self.cur = nxt
            self.gates[nxt].release()
            self.gates[me].acquire()
            if self.error:
                raise Stop()

    def rlock(self, reentrant=True):
        return SchedLock(self, reentrant)


class SchedLock:
    def __init__(self, s, reentrant):
        self.s, self.re, self.owner, self.depth = s, reentrant, None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = self.s.me()
        if me is None:
            me = 'main'
        if self.owner == me and self.re:
            self.depth += 1
            return True
        if me == 'main':
            if self.owner is not None:
                if not blocking:
                    return False
                raise Deadlock("lock still held after all threads finished")
        else:
            self.s.point()
            while self.owner is not None:
                if not blocking:
                    return False
                self.s.blocked[me] = self
                self.s._switch(me)
        self.owner, self.depth = me, 1
        return True

    def release(self):
        me = self.s.me()
        me = 'main' if me is None else me
        if self.owner != me:
            raise RuntimeError("release of a lock that is not held")
        self.depth -= 1
        if not self.depth:
            self.owner = None
            for t in [t for t, l in self.s.blocked.items() if l is self]:
                del self.s.blocked[t]
            self.s.point()

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


def explore(sched, make, bound, check, share=(0, 1)):
    """make() -> (programs, context); check(context, log) raises on a violation.  Returns the number of schedules.
    share = (k, n): only the k-th of n parts of the tree below the first preemption."""
    stack = [[]]
    count = 0
    while stack:
        prefix = stack.pop()
        progs, ctx = make()
        log = sched.run(progs, prefix)
        count += 1
        check(ctx, [i for _, i, _ in log])
        cost = sum(c for _, i, c in log[:len(prefix)] if i)
        for p in range(len(prefix), len(log)):
            nalt, i, c = log[p]
            if cost + c <= bound:
                base = [x[1] for x in log[:p]]
                for a in range(1, nalt):
                    if not prefix and (p + a) % share[1] != share[0]:
                        continue
                    stack.append(base + [a])
    return count
