"""A monitored stand-in for mpi4py.

`run(n, fn)` forks one process per rank.  Each rank owns a communicator whose
operations are messages to the coordinator (the calling process), which plays
the network: it matches collectives, reduces in a random rank order, records a
trace, and decides deadlock exactly (every rank is either finished or blocked
and nothing can progress) instead of by a timeout.
"""
import os
import pickle
import random
import select
import signal
import socket
import struct
import sys
import time
import traceback
import types

import numpy as np


class Inconclusive(Exception):
    """Raised when the harness could not decide (watchdog)."""


class _Op:
    def __init__(self, name, fn):
        self.name, self._fn = name, fn

    def __call__(self, a, b):
        return self._fn(a, b)

    def __reduce__(self):
        return (_get_op, (self.name,))


def _get_op(name):
    return _OPS[name]


_OPS = {
    "SUM": _Op("SUM", lambda a, b: a + b),
    "PROD": _Op("PROD", lambda a, b: a * b),
    "MAX": _Op("MAX", lambda a, b: np.maximum(a, b)
               if isinstance(a, np.ndarray) else max(a, b)),
    "MIN": _Op("MIN", lambda a, b: np.minimum(a, b)
               if isinstance(a, np.ndarray) else min(a, b)),
    "LOR": _Op("LOR", lambda a, b: np.logical_or(a, b)
               if isinstance(a, np.ndarray) else bool(a) or bool(b)),
    "LAND": _Op("LAND", lambda a, b: np.logical_and(a, b)
                if isinstance(a, np.ndarray) else bool(a) and bool(b)),
    "BOR": _Op("BOR", lambda a, b: a | b),
    "BAND": _Op("BAND", lambda a, b: a & b),
}


class _InPlace:
    def __reduce__(self):
        return "IN_PLACE"


IN_PLACE = _InPlace()
ANY_SOURCE = -1
ANY_TAG = -1


class AbortSignal(BaseException):
    """Raised in the rank that called Abort (the job is then killed)."""


def _opname(op):
    return op.name if isinstance(op, _Op) else getattr(op, "__name__", "op")


def _buf(spec):
    """Buffer specification -> ndarray, with mpi4py's restrictions."""
    if isinstance(spec, (list, tuple)):
        spec = spec[0]
    if not isinstance(spec, np.ndarray):
        spec = np.asarray(memoryview(spec))
    if not (spec.flags.c_contiguous or spec.flags.f_contiguous):
        raise ValueError("ndarray is not contiguous")
    if not spec.dtype.isnative:
        raise ValueError("cannot handle non-native byte order")
    if spec.dtype.kind not in "fiubc":
        raise KeyError(spec.dtype.str)
    return spec


class Comm:
    """Communicator of one rank."""

    def __init__(self, rank, size, channel, seed=0, delay=0.0):
        self._rank, self._size, self._ch = rank, size, channel
        self._rng = random.Random((seed, rank).__hash__())
        self._delay = delay

    # -- basic
    def Get_rank(self):
        return self._rank

    def Get_size(self):
        return self._size

    rank = property(Get_rank)
    size = property(Get_size)

    def _coll(self, kind, meta, payload):
        if self._delay:
            time.sleep(self._rng.random() * self._delay)
        return self._ch.call(("coll", kind, meta, payload))

    def Abort(self, errorcode=0):
        self._ch.call(("abort", errorcode, traceback.format_exc()))
        raise AbortSignal(errorcode)

    def Barrier(self):
        self._coll("barrier", (), None)

    barrier = Barrier

    def Dup(self):
        return self

    Clone = Dup

    def Free(self):
        pass

    # -- object collectives
    def bcast(self, obj=None, root=0):
        data = pickle.dumps(obj) if self._rank == root else None
        return pickle.loads(self._coll("bcast", (root,), data))

    def scatter(self, sendobj=None, root=0):
        data = None
        if self._rank == root:
            objs = list(sendobj)
            if len(objs) != self._size:
                raise ValueError(
                    f"expecting {self._size} items, got {len(objs)}")
            data = [pickle.dumps(o) for o in objs]
        return pickle.loads(self._coll("scatter", (root,), data))

    def gather(self, sendobj, root=0):
        r = self._coll("gather", (root,), pickle.dumps(sendobj))
        return None if r is None else [pickle.loads(x) for x in r]

    def allgather(self, sendobj):
        r = self._coll("allgather", (), pickle.dumps(sendobj))
        return [pickle.loads(x) for x in r]

    def alltoall(self, sendobj):
        r = self._coll("alltoall", (), [pickle.dumps(x) for x in sendobj])
        return [pickle.loads(x) for x in r]

    def _reduce_list(self, r, op):
        order, items = r
        items = [pickle.loads(x) for x in items]
        acc = items[order[0]]
        for i in order[1:]:
            acc = op(acc, items[i])
        return acc

    def reduce(self, sendobj, op=_OPS["SUM"], root=0):
        r = self._coll("reduce", (root, _opname(op)), pickle.dumps(sendobj))
        return None if r is None else self._reduce_list(r, op)

    def allreduce(self, sendobj, op=_OPS["SUM"]):
        r = self._coll("allreduce", (_opname(op),), pickle.dumps(sendobj))
        return self._reduce_list(r, op)

    # -- buffer collectives
    def _bufreduce(self, kind, sendbuf, recvbuf, op, root):
        isroot = root is None or self._rank == root
        if sendbuf is IN_PLACE:
            src = _buf(recvbuf)
        elif root is not None and isinstance(sendbuf, _InPlace):
            src = _buf(recvbuf)
        else:
            src = _buf(sendbuf)
        meta = (_opname(op), src.dtype.str, int(src.size))
        if root is not None:
            meta = (root,) + meta
        r = self._coll(kind, meta, pickle.dumps(src.ravel(order="A")))
        if not isroot or r is None:
            return
        acc = self._reduce_list(r, op)
        dst = _buf(recvbuf)
        if dst.size != src.size or dst.dtype != src.dtype:
            raise ValueError("message truncated or mismatched datatypes")
        view = dst.reshape(-1, order="A")
        view[:] = acc

    def Allreduce(self, sendbuf, recvbuf, op=_OPS["SUM"]):
        self._bufreduce("Allreduce", sendbuf, recvbuf, op, None)

    def Reduce(self, sendbuf, recvbuf, op=_OPS["SUM"], root=0):
        self._bufreduce("Reduce", sendbuf, recvbuf, op, root)

    def Bcast(self, buf, root=0):
        b = _buf(buf)
        data = pickle.dumps(b.ravel(order="A")) if self._rank == root else None
        r = pickle.loads(self._coll(
            "Bcast", (root, b.dtype.str, int(b.size)), data))
        if self._rank != root:
            b.reshape(-1, order="A")[:] = r

    def Allgather(self, sendbuf, recvbuf):
        src = _buf(sendbuf)
        r = self._coll("Allgather", (src.dtype.str, int(src.size)),
                       pickle.dumps(src.ravel()))
        _buf(recvbuf).reshape(-1)[:] = np.concatenate(
            [pickle.loads(x) for x in r])

    def Gather(self, sendbuf, recvbuf, root=0):
        src = _buf(sendbuf)
        r = self._coll("Gather", (root, src.dtype.str, int(src.size)),
                       pickle.dumps(src.ravel()))
        if r is not None:
            _buf(recvbuf).reshape(-1)[:] = np.concatenate(
                [pickle.loads(x) for x in r])

    # -- point to point (buffered)
    def send(self, obj, dest, tag=0):
        self._ch.call(("send", dest, tag, pickle.dumps(obj)))

    def recv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        return pickle.loads(self._ch.call(("recv", source, tag)))


class _SocketChannel:
    def __init__(self, sock):
        self.sock = sock

    def post(self, msg):
        b = pickle.dumps(msg)
        self.sock.sendall(struct.pack("<Q", len(b)) + b)

    def _read(self, n):
        out = bytearray()
        while len(out) < n:
            c = self.sock.recv(min(1 << 20, n - len(out)))
            if not c:
                os._exit(97)
            out += c
        return bytes(out)

    def call(self, msg):
        self.post(msg)
        n, = struct.unpack("<Q", self._read(8))
        return pickle.loads(self._read(n))


class _SelfChannel:
    """In-process channel for one rank."""

    def __init__(self):
        self.trace, self.aborted = [], False

    def call(self, msg):
        if msg[0] == "abort":
            self.aborted = True
            self.why = msg[2]
            return None
        if msg[0] != "coll":
            raise RuntimeError("point-to-point on one rank")
        _, kind, meta, payload = msg
        self.trace.append((kind, meta))
        return _collective(kind, meta, [payload], [0])[0]


def self_comm():
    ch = _SelfChannel()
    c = Comm(0, 1, ch)
    c.channel = ch
    return c


def _collective(kind, meta, payloads, order):
    n = len(payloads)
    if kind == "barrier":
        return [None] * n
    if kind in ("bcast", "Bcast"):
        return [payloads[meta[0]]] * n
    if kind == "scatter":
        return list(payloads[meta[0]])
    if kind in ("gather", "Gather"):
        return [payloads if i == meta[0] else None for i in range(n)]
    if kind in ("allgather", "Allgather"):
        return [payloads] * n
    if kind == "alltoall":
        return [[payloads[j][i] for j in range(n)] for i in range(n)]
    if kind in ("allreduce", "Allreduce"):
        return [(order, payloads)] * n
    if kind in ("reduce", "Reduce"):
        return [(order, payloads) if i == meta[0] else None for i in range(n)]
    raise RuntimeError(f"unsupported collective {kind}")


class Result:
    """Outcome of a multi-rank run."""

    def __init__(self, n):
        self.n = n
        self.outcomes = [None] * n     # (kind, value/...)
        self.trace = []                # (kind, meta, arrival order)
        self.deadlock = None           # text
        self.mismatch = None
        self.abort = None

    @property
    def values(self):
        return [o[1] if o and o[0] == "ok" else None for o in self.outcomes]

    def kinds(self):
        return [o[0] if o else None for o in self.outcomes]

    def all_ok(self):
        return (self.deadlock is None and self.mismatch is None
                and self.abort is None
                and all(o and o[0] == "ok" for o in self.outcomes))

    def describe(self):
        out = []
        if self.deadlock:
            out.append("DEADLOCK " + self.deadlock)
        if self.mismatch:
            out.append("MISMATCH " + self.mismatch)
        if self.abort is not None:
            out.append(f"ABORT by rank {self.abort}")
        for i, o in enumerate(self.outcomes):
            if o is None:
                out.append(f"rank{i}: none")
            elif o[0] == "ok":
                out.append(f"rank{i}: ok")
            else:
                out.append(f"rank{i}: {o[0]} " + " | ".join(
                    str(x)[-1500:] for x in o[1:]))
        return "\n".join(out)


def _outcome(fn, comm):
    try:
        return ("ok", fn(comm))
    except SystemExit as e:
        return ("exit", e.code)
    except AbortSignal:
        return ("abort", None)
    except BaseException as e:  # noqa
        return ("exc", type(e).__module__ + "." + type(e).__name__, str(e),
                traceback.format_exc())


def _set_world(comm):
    sys.modules["mpi4py.MPI"].COMM_WORLD = comm


def run(n, fn, seed=0, delay=0.0015, timeout=240, quiet=True):
    """Run fn(comm) on n ranks.  Returns Result."""
    res = Result(n)
    if n == 1:
        comm = self_comm()
        old = sys.modules["mpi4py.MPI"].COMM_WORLD
        _set_world(comm)
        try:
            out = _outcome(fn, comm)
        finally:
            _set_world(old)
        res.outcomes[0] = out
        if comm.channel.aborted:
            res.abort = 0
            res.outcomes[0] = ("abort", comm.channel.why)
        res.trace = [(k, m, (0,)) for k, m in comm.channel.trace]
        return res

    rng = random.Random((seed, n, "coord").__repr__())
    socks, pids = [], []
    sys.stdout.flush()
    sys.stderr.flush()
    for r in range(n):
        a, b = socket.socketpair()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                a.close()
                for s in socks:
                    s.close()
                if quiet:
                    dn = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(dn, 1)
                    os.dup2(dn, 2)
                ch = _SocketChannel(b)
                comm = Comm(r, n, ch, seed, delay)
                _set_world(comm)
                out = _outcome(fn, comm)
                try:
                    ch.post(("done", out))
                except Exception:
                    ch.post(("done", ("harness", "unpicklable outcome "
                                      + repr(out)[:500])))
            except BaseException:
                code = 98
            os._exit(code)
        b.close()
        socks.append(a)
        pids.append(pid)

    bufs = [bytearray() for _ in range(n)]
    blocked = [None] * n        # pending message per rank
    done = [False] * n
    arrival = []
    mail = [[] for _ in range(n)]
    deadline = time.monotonic() + timeout

    def reply(r, val):
        b = pickle.dumps(val)
        try:
            socks[r].sendall(struct.pack("<Q", len(b)) + b)
        except (BrokenPipeError, ConnectionError):
            pass

    def kill():
        for i, p in enumerate(pids):
            try:
                os.kill(p, signal.SIGKILL)
            except ProcessLookupError:
                pass

    def try_recv():
        moved = False
        for r in range(n):
            m = blocked[r]
            if m and m[0] == "recv":
                for k, (src, tag, data) in enumerate(mail[r]):
                    if m[1] in (src, ANY_SOURCE) and m[2] in (tag, ANY_TAG):
                        del mail[r][k]
                        blocked[r] = None
                        reply(r, data)
                        moved = True
                        break
        return moved

    try:
        stop = False
        while not stop and not all(done):
            left = deadline - time.monotonic()
            if left <= 0:
                raise Inconclusive("MPI run exceeded its watchdog")
            live = [socks[i] for i in range(n) if not done[i]]
            ready, _, _ = select.select(live, [], [], min(left, 5))
            for s in ready:
                r = socks.index(s)
                try:
                    c = s.recv(1 << 20)
                except ConnectionError:
                    c = b""
                if not c:
                    if not done[r]:
                        done[r] = True
                        if res.outcomes[r] is None:
                            res.outcomes[r] = ("died", "process died")
                    continue
                bufs[r] += c
                while len(bufs[r]) >= 8:
                    ln, = struct.unpack("<Q", bytes(bufs[r][:8]))
                    if len(bufs[r]) < 8 + ln:
                        break
                    msg = pickle.loads(bytes(bufs[r][8:8 + ln]))
                    del bufs[r][:8 + ln]
                    if msg[0] == "done":
                        done[r] = True
                        res.outcomes[r] = msg[1]
                    elif msg[0] == "abort":
                        res.abort = r
                        res.outcomes[r] = ("abort", msg[2])
                        stop = True
                    elif msg[0] == "send":
                        mail[msg[1]].append((r, msg[2], msg[3]))
                        reply(r, None)
                    else:
                        blocked[r] = msg
                        arrival.append(r)
            if stop:
                break
            while try_recv():
                pass
            # progress?
            if any(not done[i] and blocked[i] is None for i in range(n)):
                continue
            if all(done):
                break
            kinds = [None if done[i] else blocked[i][:3] for i in range(n)]
            if any(k is None for k in kinds) or any(
                    k[0] == "recv" for k in kinds):
                wait = [f"rank{i} in {k[1]}" for i, k in enumerate(kinds)
                        if k is not None]
                fin = [f"rank{i} {res.outcomes[i][0]}"
                       for i, k in enumerate(kinds) if k is None]
                res.deadlock = ", ".join(wait) + " while " + ", ".join(fin)
                break
            if any(k != kinds[0] for k in kinds):
                res.mismatch = "; ".join(
                    f"rank{i}:{k[1]}{k[2]}" for i, k in enumerate(kinds))
                break
            kind, meta = kinds[0][1], kinds[0][2]
            order = list(range(n))
            rng.shuffle(order)
            outs = _collective(kind, meta, [b[3] for b in blocked], order)
            res.trace.append((kind, meta, tuple(arrival)))
            arrival = []
            rel = list(range(n))
            rng.shuffle(rel)
            blocked = [None] * n
            for r in rel:
                reply(r, outs[r])
    finally:
        kill()
        for s in socks:
            s.close()
        for p in pids:
            try:
                os.waitpid(p, 0)
            except ChildProcessError:
                pass
    return res


def install():
    if "mpi4py" in sys.modules and getattr(
            sys.modules["mpi4py"], "_qv_fake", False):
        return
    pkg = types.ModuleType("mpi4py")
    pkg._qv_fake = True
    pkg.__path__ = []
    mod = types.ModuleType("mpi4py.MPI")
    for k, v in _OPS.items():
        setattr(mod, k, v)
    mod.IN_PLACE = IN_PLACE
    mod.ANY_SOURCE, mod.ANY_TAG = ANY_SOURCE, ANY_TAG
    for t in ("DOUBLE", "FLOAT", "INT", "LONG", "INT64_T", "BOOL", "C_BOOL"):
        setattr(mod, t, t)
    mod.Comm = mod.Intracomm = Comm
    mod.COMM_WORLD = self_comm()
    mod.COMM_SELF = self_comm()
    mod.COMM_NULL = None
    mod.Wtime = time.time
    mod.Is_initialized = lambda: True
    mod.Is_finalized = lambda: False
    mod.Finalize = lambda: None
    mod.Get_processor_name = lambda: "fake"
    mod.Exception = RuntimeError
    pkg.MPI = mod
    sys.modules["mpi4py"] = pkg
    sys.modules["mpi4py.MPI"] = mod
