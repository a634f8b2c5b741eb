"""A simulated MPI: k rank processes, each with a stand-in for mpi4py, and a coordinator that decides who runs.

Exactly one rank runs at a time, until its next communication call (or its end).  Which blocked rank is *enabled* follows
the MPI standard: a barrier-like collective completes when every rank has entered it, the root of a gather when everybody
has, a receiver of a broadcast when the root has; whether the others may leave early (buffered messages) is a mode:
'eager' or 'sync'.  The order in which enabled ranks are resumed is chosen by the caller, so all orders can be explored.
"""
import os, sys, types, hashlib, pickle, traceback, signal, time
import multiprocessing.connection as mc_conn
from multiprocessing import Pipe
import numpy as np

IN = {'gather', 'Gather', 'Gatherv', 'reduce', 'Reduce'}
OUT = {'bcast', 'Bcast', 'scatter', 'Scatter', 'Scatterv'}
ALL = {'barrier', 'allgather', 'Allgather', 'Allgatherv', 'allreduce', 'Allreduce', 'alltoall'}


class SimMPIError(Exception):
    pass


# ------------------------------------------------------------------------------------------------ rank side
class Datatype:
    def __init__(self, name, np_type):
        self.name, self.dtype = name, np.dtype(np_type)

    def Get_size(self):
        return self.dtype.itemsize


TYPES = dict(INT='i4', INT32_T='i4', INTEGER='i4', FLOAT='f4', REAL='f4', DOUBLE='f8', LONG='i8', LONG_LONG='i8', INT64_T='i8', UNSIGNED='u4',
             UINT32_T='u4', UNSIGNED_LONG='u8', UINT64_T='u8', SHORT='i2', CHAR='i1', SIGNED_CHAR='i1', BYTE='u1', UNSIGNED_CHAR='u1', BOOL='?', C_BOOL='?')


class Op:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __call__(self, a, b):
        return self.fn(a, b)


OPS = dict(SUM=Op('SUM', lambda a, b: a + b), PROD=Op('PROD', lambda a, b: a * b), MAX=Op('MAX', lambda a, b: np.maximum(a, b) if isinstance(a, np.ndarray) else max(a, b)),
           MIN=Op('MIN', lambda a, b: np.minimum(a, b) if isinstance(a, np.ndarray) else min(a, b)), LOR=Op('LOR', lambda a, b: a or b), LAND=Op('LAND', lambda a, b: a and b))


class Buf:
    """a message buffer as mpi4py understands it"""

    def __init__(self, spec, write=False, vector=False, size=1):
        count = displs = typ = None
        if isinstance(spec, (list, tuple)):
            a, rest = spec[0], list(spec[1:])
            if rest and isinstance(rest[-1], (Datatype, str)) or rest and rest[-1] is None and len(rest) > 1:
                typ = rest.pop()
            if isinstance(typ, str):
                typ = Datatype(typ, np.dtype(typ))
            if rest:
                count = rest.pop(0)
                if rest:
                    displs = rest.pop(0)
                elif vector and isinstance(count, tuple) and len(count) == 2 and np.ndim(count[0]):
                    count, displs = count
        else:
            a = spec
        self.a = None
        if a is None:
            self.n, self.dt, self.flat = 0, None, np.empty(0, 'u1')
            self.counts, self.displs = [0] * size, [0] * size
            return
        arr = np.asarray(a)
        if not (arr.flags.c_contiguous or arr.flags.f_contiguous):
            raise ValueError("ndarray is not contiguous")
        if write and not arr.flags.writeable:
            raise BufferError("buffer is read-only")
        self.dt = typ.dtype if typ is not None else arr.dtype
        raw = arr.reshape(-1, order='A').view('u1') if arr.size else np.empty(0, 'u1')
        n = len(raw) // self.dt.itemsize
        self.flat = raw[:n * self.dt.itemsize].view(self.dt)
        if vector:
            if count is None:
                if n % size:
                    raise ValueError("message: buffer length %d is not a multiple of the number of processes" % n)
                self.counts = [n // size] * size
            elif np.ndim(count):
                self.counts = [int(c) for c in count]
            else:
                self.counts = [int(count)] * size
            if len(self.counts) != size:
                raise ValueError("message: expecting %d counts, got %d" % (size, len(self.counts)))
            self.displs = [int(sum(self.counts[:k])) for k in range(size)] if displs is None else [int(d) for d in displs]
            for c, d in zip(self.counts, self.displs):
                if c < 0 or d < 0 or c and d + c > n:
                    raise SimMPIError("block of %d at offset %d lies outside a buffer of %d items" % (c, d, n))
            self.n = n
        else:
            self.n = n if count is None else int(count)
            if self.n > n:
                raise SimMPIError("message: %d items from a buffer of %d" % (self.n, n))
            self.flat = self.flat[:self.n]

    def msg(self):
        return (None if self.dt is None else self.dt.str, self.n, self.flat[:self.n].tobytes())

    def put(self, off, n, msg):
        dt, m, b = msg
        if m == 0 and n == 0:
            return
        if m > n:
            raise SimMPIError("message truncated: %d items were sent, %d expected" % (m, n))
        if m < n:
            raise SimMPIError("%d items were sent, %d expected" % (m, n))
        if m and dt != self.dt.str:
            raise SimMPIError("items of type %s were sent, %s expected" % (dt, self.dt.str))
        self.flat[off:off + n] = np.frombuffer(b, dt)


class Comm:
    def __init__(self, conn, rank, size):
        self._c, self.rank, self.size = conn, rank, size

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def Get_name(self):
        return 'MPI_COMM_WORLD'

    def Dup(self):
        return self

    def Free(self):
        pass

    def __eq__(self, o):
        return self is o

    __hash__ = object.__hash__

    def _call(self, op, root=0, payload=None):
        if not 0 <= root < self.size:
            raise SimMPIError("invalid root %r" % root)
        self._c.send(('call', op, root, payload))
        r = self._c.recv()
        if r[0] == 'err':
            raise SimMPIError(r[1])
        return r[1]

    def Barrier(self):
        self._call('barrier')

    def barrier(self):
        self._call('barrier')

    def gather(self, sendobj, root=0):
        r = self._call('gather', root, sendobj)
        return r if self.rank == root else None

    def allgather(self, sendobj):
        return self._call('allgather', 0, sendobj)

    def bcast(self, obj, root=0):
        return self._call('bcast', root, obj if self.rank == root else None)

    def scatter(self, sendobj, root=0):
        if self.rank == root:
            sendobj = list(sendobj)
            if len(sendobj) != self.size:
                raise ValueError("expecting %d items, got %d" % (self.size, len(sendobj)))
        return self._call('scatter', root, sendobj if self.rank == root else None)[self.rank]

    def alltoall(self, sendobj):
        sendobj = list(sendobj)
        return [row[self.rank] for row in self._call('alltoall', 0, sendobj)]

    def _fold(self, rows, op):
        r = rows[0]
        for x in rows[1:]:
            r = op(r, x)
        return r

    def reduce(self, sendobj, op=OPS['SUM'], root=0):
        r = self._call('reduce', root, sendobj)
        return self._fold(r, op) if self.rank == root else None

    def allreduce(self, sendobj, op=OPS['SUM']):
        return self._fold(self._call('allreduce', 0, sendobj), op)

    def Bcast(self, buf, root=0):
        b = Buf(buf, write=self.rank != root)
        m = self._call('Bcast', root, b.msg() if self.rank == root else None)
        if self.rank != root:
            b.put(0, b.n, m)

    def _recv_all(self, rows, recvbuf, vector):
        r = Buf(recvbuf, True, True, self.size)
        for k, m in enumerate(rows):
            r.put(r.displs[k], r.counts[k], m)

    def Gatherv(self, sendbuf, recvbuf, root=0):
        s = Buf(sendbuf)
        rows = self._call('Gatherv', root, s.msg())
        if self.rank == root:
            self._recv_all(rows, recvbuf, True)

    def Gather(self, sendbuf, recvbuf, root=0):
        s = Buf(sendbuf)
        rows = self._call('Gather', root, s.msg())
        if self.rank == root:
            self._recv_all(rows, recvbuf, False)

    def Allgather(self, sendbuf, recvbuf):
        self._recv_all(self._call('Allgather', 0, Buf(sendbuf).msg()), recvbuf, False)

    def Allgatherv(self, sendbuf, recvbuf):
        self._recv_all(self._call('Allgatherv', 0, Buf(sendbuf).msg()), recvbuf, True)

    def _scatter(self, op, sendbuf, recvbuf, root):
        blocks = None
        if self.rank == root:
            s = Buf(sendbuf, False, True, self.size)
            blocks = [(s.dt.str, c, s.flat[d:d + c].tobytes()) for c, d in zip(s.counts, s.displs)]
        r = Buf(recvbuf, True)
        r.put(0, r.n, self._call(op, root, blocks)[self.rank])

    def Scatterv(self, sendbuf, recvbuf, root=0):
        self._scatter('Scatterv', sendbuf, recvbuf, root)

    def Scatter(self, sendbuf, recvbuf, root=0):
        self._scatter('Scatter', sendbuf, recvbuf, root)

    def Reduce(self, sendbuf, recvbuf, op=OPS['SUM'], root=0):
        s = Buf(sendbuf)
        rows = self._call('Reduce', root, s.msg())
        if self.rank == root:
            r = Buf(recvbuf, True)
            r.flat[:] = self._fold([np.frombuffer(m[2], m[0]) for m in rows], op)

    def Allreduce(self, sendbuf, recvbuf, op=OPS['SUM']):
        s = Buf(sendbuf)
        rows = self._call('Allreduce', 0, s.msg())
        r = Buf(recvbuf, True)
        r.flat[:] = self._fold([np.frombuffer(m[2], m[0]) for m in rows], op)

    # point to point
    def send(self, obj, dest, tag=0):
        self._call('send', 0, (dest, tag, 'o', obj))

    ssend = send

    def recv(self, buf=None, source=-1, tag=-1, status=None):
        return self._call('recv', 0, (source, tag, 'o'))[1]

    def Send(self, buf, dest, tag=0):
        self._call('send', 0, (dest, tag, 'b', Buf(buf).msg()))

    Ssend = Send

    def Recv(self, buf, source=-1, tag=-1, status=None):
        m = self._call('recv', 0, (source, tag, 'b'))[1]
        b = Buf(buf, True)
        if m[1] > b.n:
            raise SimMPIError("message truncated: %d items were sent, %d expected" % (m[1], b.n))
        b.put(0, m[1], m)

    def Abort(self, code=0):
        raise SimMPIError("MPI_Abort")

    def __getattr__(self, n):
        raise NotImplementedError("simulated MPI: %s" % n)


def install(conn, rank, size):
    world = Comm(conn, rank, size)
    M = types.ModuleType('mpi4py.MPI')
    M.COMM_WORLD, M.COMM_SELF, M.COMM_NULL = world, None, None
    M.Comm = M.Intracomm = Comm
    M.ANY_SOURCE, M.ANY_TAG, M.IN_PLACE = -1, -1, '__IN_PLACE__'
    for n, d in TYPES.items():
        setattr(M, n, Datatype(n, d))
    for n, o in OPS.items():
        setattr(M, n, o)
    M.Datatype, M.Op, M.Exception = Datatype, Op, SimMPIError
    M.Wtime = time.time
    M.Get_processor_name = lambda: 'node'
    M.Is_initialized = lambda: True
    M.Is_finalized = lambda: False
    M.Init = M.Finalize = lambda: None
    P = types.ModuleType('mpi4py')
    P.MPI, P.__path__ = M, []
    P.rc = types.SimpleNamespace()
    sys.modules['mpi4py'], sys.modules['mpi4py.MPI'] = P, M


def rank_main(conn, rank, size, handler):
    install(conn, rank, size)
    while True:
        try:
            j = conn.recv()
        except EOFError:
            os._exit(0)
        if j is None:
            os._exit(0)
        try:
            r = ('done', handler(j, rank, size))
        except BaseException as e:
            r = ('exc', type(e).__name__, str(e), traceback.format_exc()[-2500:])
        conn.send(r)


# ------------------------------------------------------------------------------------------------ coordinator
class Failure(Exception):
    """the run as a whole went wrong: a deadlock, mismatched calls, a rank that died or raised"""


class World:
    def __init__(self, size, handler, timeout=120.0):
        self.size, self.timeout = size, timeout
        self.conns, self.pids = [], []
        for r in range(size):
            a, b = Pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    a.close()
                    for c in self.conns:
                        c.close()
                    signal.signal(signal.SIGINT, signal.SIG_DFL)
                    rank_main(b, r, size, handler)
                finally:
                    os._exit(9)
            b.close()
            self.conns.append(a)
            self.pids.append(pid)

    def close(self):
        for c in self.conns:
            c.close()
        for p in self.pids:
            try:
                os.kill(p, signal.SIGKILL)
                os.waitpid(p, 0)
            except OSError:
                pass

    def run(self, job, choose, mode='eager'):
        """choose(enabled ranks, state key) -> rank.  Returns the list of ('done', result) / ('exc', ...) per rank."""
        k = self.size
        st = ['start'] * k
        call = [None] * k            # pending call of each rank
        n_coll = [0] * k             # collectives entered
        slots = []                   # per collective: {rank: (op, root, payload)}
        mail = []                    # point-to-point messages sent and not received: (src, dst, tag, kind, data)
        hist = [hashlib.blake2b(repr((r, k)).encode(), digest_size=12) for r in range(k)]
        out = [None] * k
        self.steps = 0

        def ready(r):
            if st[r] == 'start':
                return True
            if st[r] != 'call':
                return False
            op, root, payload, slot = call[r]
            if op == 'send':
                return mode == 'eager' or any(st[q] == 'call' and call[q][0] == 'recv' and q == payload[0] and call[q][2][0] in (-1, r) and call[q][2][1] in (-1, payload[1]) for q in range(k)) \
                    or not any(m[0] == r and m[5] == slot for m in mail)
            if op == 'recv':
                return self.match(mail, r, payload) is not None
            s = slots[slot]
            if op in IN and r != root and mode == 'eager':
                return True
            if op in OUT and mode == 'eager':
                return root in s
            return len(s) == k

        def reply(r):
            if st[r] == 'start':
                return None
            op, root, payload, slot = call[r]
            if op == 'send':
                return True
            if op == 'recv':
                m = self.match(mail, r, payload)
                mail.remove(m)
                return (m[0], m[4])
            s = slots[slot]
            if op in ('barrier',) or op in IN and r != root:
                return None
            if op in OUT:
                return s[root][2]
            return [s[q][2] for q in range(k)]

        serial = 0
        while True:
            en = [r for r in range(k) if ready(r)]
            if not en:
                if all(s in ('done',) for s in st):
                    return out
                raise Failure("deadlock: " + "; ".join("process %d %s" % (r, "has finished" if st[r] == 'done' else "waits in %s" % call[r][0]) for r in range(k)))
            key = tuple(h.hexdigest() for h in hist)
            r = choose(en, key)
            ans = reply(r)
            hist[r].update(pickle.dumps(('go', ans)))
            if st[r] == 'start':
                self.conns[r].send(job)
            else:
                self.conns[r].send(('ok', ans))
            self.steps += 1
            if not self.conns[r].poll(self.timeout):
                raise Failure("process %d did not come back within %g s" % (r, self.timeout))
            try:
                m = self.conns[r].recv()
            except (EOFError, OSError):
                raise Failure("process %d died" % r)
            if m[0] == 'done':
                st[r], out[r] = 'done', m
                hist[r].update(b'done')
            elif m[0] == 'exc':
                st[r], out[r] = 'done', m
                hist[r].update(b'exc')
            else:
                st[r] = 'call'
                op, root, payload = m[1:]
                hist[r].update(pickle.dumps((op, root, payload)))
                if op in ('send', 'recv'):
                    serial += 1
                    call[r] = (op, root, payload, serial)
                    if op == 'send':
                        mail.append((r, payload[0], payload[1], payload[2], payload[3], serial))
                    continue
                i = n_coll[r]
                n_coll[r] += 1
                if i == len(slots):
                    slots.append({})
                for q, (o, rt, _) in slots[i].items():
                    if (o, rt) != (op, root):
                        raise Failure("collective number %d: process %d calls %s (root %d), process %d calls %s (root %d)" % (i, q, o, rt, r, op, root))
                slots[i][r] = (op, root, payload)
                call[r] = (op, root, payload, i)

    @staticmethod
    def match(mail, dst, want):
        for m in mail:
            if m[1] == dst and want[0] in (-1, m[0]) and want[1] in (-1, m[2]) and m[3] == want[2]:
                return m
        return None


def explore(execute, limit):
    """Visit every reachable state of a run and take every enabled transition out of it.

    execute(choose) runs once (deterministically replayable).  A state is the tuple of what every rank has received and sent so
    far; a rank's future depends on nothing else.  Returns (#states, #transitions, #runs, complete)."""
    seen, todo, runs = {}, [()], 0            # seen: state -> set of transitions taken
    done = set()
    while todo:
        if runs >= limit:
            return len(seen), len(done), runs, False
        prefix = todo.pop()
        if prefix and (prefix[-1][0], prefix[-1][1]) in done:
            continue
        path = []

        def choose(en, key):
            i = len(path)
            new = key not in seen
            if new:
                seen[key] = list(en)
            if i < len(prefix):
                r = prefix[i][1]
            else:
                left = [q for q in en if (key, q) not in done]
                r = (left or en)[0]
            if i >= len(prefix) or (key, r) not in done:
                for q in en:
                    if q != r and (key, q) not in done:
                        todo.append(tuple(path) + ((key, q),))
            done.add((key, r))
            path.append((key, r))
            return r
        execute(choose)
        runs += 1
    return len(seen), len(done), runs, True
