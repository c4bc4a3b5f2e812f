import os
import pickle
import socket
import struct
import time

import numpy as np


class Exception_(RuntimeError):
    pass


class Op:
    def __init__(self, name, f):
        self.name, self.f = name, f

    def __call__(self, a, b):
        return self.f(a, b)


SUM = Op("SUM", lambda a, b: a + b)
PROD = Op("PROD", lambda a, b: a * b)
MAX = Op("MAX", lambda a, b: np.maximum(a, b) if isinstance(a, np.ndarray) else max(a, b))
MIN = Op("MIN", lambda a, b: np.minimum(a, b) if isinstance(a, np.ndarray) else min(a, b))
LAND = Op("LAND", lambda a, b: np.logical_and(a, b) if isinstance(a, np.ndarray) else bool(a and b))
LOR = Op("LOR", lambda a, b: np.logical_or(a, b) if isinstance(a, np.ndarray) else bool(a or b))
BAND = Op("BAND", lambda a, b: a & b)
BOR = Op("BOR", lambda a, b: a | b)
MAXLOC = Op("MAXLOC", max)
MINLOC = Op("MINLOC", min)
ANY_SOURCE, ANY_TAG, PROC_NULL, UNDEFINED = -2, -1, -3, -32766
IN_PLACE = 1
THREAD_SINGLE, THREAD_FUNNELED, THREAD_SERIALIZED, THREAD_MULTIPLE = 0, 1, 2, 3
DOUBLE, FLOAT, INT, LONG, COMPLEX, DOUBLE_COMPLEX, BYTE, BOOL = (
    "d", "f", "i", "l", "F", "D", "B", "?")
C_DOUBLE_COMPLEX = INT64_T = LONG_LONG = CHAR = None
BOTTOM = None
COMM_TYPE_SHARED = 0


class Status:
    def __init__(self):
        self.source, self.tag, self.count = ANY_SOURCE, ANY_TAG, 0

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag


def Wtime():
    return time.time()


def Is_initialized():
    return True


def Is_finalized():
    return False


def Init():
    pass


def Init_thread(*_):
    return THREAD_MULTIPLE


def Finalize():
    pass


def Query_thread():
    return THREAD_MULTIPLE


def Get_processor_name():
    return "localhost"


class _Link:
    """Connection to the controller."""

    def __init__(self, addr, rank):
        self.s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        self.s.connect(addr)
        self.send(("hello", rank))

    def send(self, msg):
        b = pickle.dumps(msg, protocol=4)
        self.s.sendall(struct.pack("<Q", len(b)) + b)

    def recv(self):
        n = struct.unpack("<Q", self._read(8))[0]
        return pickle.loads(self._read(n))

    def _read(self, n):
        out = b""
        while len(out) < n:
            c = self.s.recv(min(n - len(out), 1 << 20))
            if not c:
                os._exit(4)
            out += c
        return out

    def call(self, msg):
        self.send(msg)
        kind, val = self.recv()
        if kind == "error":
            raise Exception_(val)
        return val


class _Alone:
    """A world of one process: every call completes at once or never."""

    def call(self, msg):
        kind, a = msg
        op = a.get("kind")
        data = a.get("data")
        if op in ("bcast", "reduce", "allreduce"):
            return data
        if op in ("gather", "allgather"):
            return [data]
        if op == "scatter":
            if len(pickle.loads(data)) != 1:
                raise Exception_("scatter: wrong number of items")
            return pickle.dumps(pickle.loads(data)[0])
        if op == "alltoall":
            return [data[0]]
        if op in ("barrier", "split", "dup"):
            return None
        if op in ("Bcast", "Reduce", "Allreduce"):
            return a["buf"]
        if op in ("Gather", "Allgather"):
            return [a["buf"]]
        if op == "Scatter":
            return a["parts"][0]
        if op == "scan":
            return data
        if op == "exscan":
            return None
        raise Exception_("a single process would wait forever in " + op)


class Request:
    def __init__(self, comm, done=None, finish=None):
        self._c, self._done, self._finish, self._val = comm, done, finish, None

    def wait(self, status=None):
        if self._finish is not None:
            self._val = self._finish(status)
            self._finish = None
        return self._val

    Wait = wait

    def test(self, status=None):
        return True, self.wait(status)

    @staticmethod
    def waitall(reqs, statuses=None):
        return [r.wait() for r in reqs]

    Waitall = waitall


def _arr(buf):
    if isinstance(buf, (list, tuple)):
        buf = buf[0]
    if not isinstance(buf, np.ndarray):
        buf = np.asarray(buf)
    if not (buf.flags.c_contiguous or buf.flags.f_contiguous):
        raise BufferError("buffer is not contiguous")
    return buf


def _sig(b):
    return (str(b.dtype), int(b.size))


largest = 0          # entries of the largest dictionary this process handed to a communication call


def _dumps(x):
    global largest
    if isinstance(x, dict):
        largest = max(largest, len(x))
    return pickle.dumps(x, protocol=4)


class Comm:
    def __init__(self, link, rank, size, cid=0, name="MPI_COMM_WORLD"):
        self._l, self.rank, self.size, self._cid, self.name = link, rank, size, cid, name
        self._selfbox = []
        self._ops = {}

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def Get_name(self):
        return self.name

    def _call(self, kind, **a):
        a["kind"] = kind
        a["cid"] = self._cid
        return self._l.call(("mpi", a))

    # -- pickled collectives
    def bcast(self, obj=None, root=0):
        self._chk(root)
        d = _dumps(obj) if self.rank == root else None
        return pickle.loads(self._call("bcast", root=root, data=d))

    def _chk(self, root):
        if not 0 <= root < self.size:
            raise Exception_("MPI_ERR_ROOT: invalid root")

    def _fold(self, parts, op):
        parts = [pickle.loads(p) for p in parts]
        acc = parts[0]
        for p in parts[1:]:
            acc = op(acc, p)
        return acc

    def reduce(self, sendobj=None, op=SUM, root=0):
        self._chk(root)
        r = self._call("gather", alias="reduce:" + op.name, root=root, data=_dumps(sendobj))
        return self._fold(r, op) if self.rank == root else None

    def allreduce(self, sendobj=None, op=SUM):
        return self._fold(self._call("allgather", alias="allreduce:" + op.name, data=_dumps(sendobj)), op)

    def gather(self, sendobj=None, root=0):
        self._chk(root)
        r = self._call("gather", root=root, data=_dumps(sendobj))
        return [pickle.loads(x) for x in r] if self.rank == root else None

    def allgather(self, sendobj=None):
        return [pickle.loads(x) for x in self._call("allgather", data=_dumps(sendobj))]

    def scatter(self, sendobj=None, root=0):
        self._chk(root)
        d = None
        if self.rank == root:
            sendobj = list(sendobj)
            if len(sendobj) != self.size:
                raise ValueError("expecting %d items, got %d" % (self.size, len(sendobj)))
            d = [_dumps(x) for x in sendobj]
            if self.size == 1:
                return pickle.loads(d[0])
        return pickle.loads(self._call("scatter", root=root, data=d))

    def alltoall(self, sendobj=None):
        sendobj = list(sendobj)
        if len(sendobj) != self.size:
            raise ValueError("expecting %d items, got %d" % (self.size, len(sendobj)))
        return [pickle.loads(x) for x in self._call("alltoall", data=[_dumps(x) for x in sendobj])]

    def scan(self, sendobj=None, op=SUM):
        r = self._call("allgather", alias="scan:" + op.name, data=_dumps(sendobj))
        return self._fold(r[: self.rank + 1], op)

    def exscan(self, sendobj=None, op=SUM):
        r = self._call("allgather", alias="exscan:" + op.name, data=_dumps(sendobj))
        return self._fold(r[: self.rank], op) if self.rank else None

    def barrier(self):
        self._call("barrier")

    Barrier = barrier

    # -- buffer collectives
    def Bcast(self, buf, root=0):
        self._chk(root)
        b = _arr(buf)
        r = self._call("Bcast", root=root, sig=_sig(b), buf=b.tobytes() if self.rank == root else None)
        if self.rank != root:
            b.flat[:] = np.frombuffer(r, dtype=b.dtype)

    def _vals(self, sendbuf, recvbuf):
        if isinstance(sendbuf, int) and sendbuf == IN_PLACE or sendbuf is None:
            return _arr(recvbuf)
        return _arr(sendbuf)

    def _sum(self, parts, dtype, op):
        acc = np.frombuffer(parts[0], dtype=dtype).copy()
        for p in parts[1:]:
            acc = op(acc, np.frombuffer(p, dtype=dtype))
        return acc

    def Reduce(self, sendbuf, recvbuf, op=SUM, root=0):
        self._chk(root)
        s = self._vals(sendbuf, recvbuf)
        r = self._call("Gather", alias="Reduce:" + op.name, root=root, sig=_sig(s), buf=s.tobytes())
        if self.rank == root:
            out = _arr(recvbuf)
            if _sig(out) != _sig(s):
                raise Exception_("MPI_ERR_TRUNCATE: send and receive buffers differ in Reduce")
            out.flat[:] = self._sum(r, s.dtype, op)

    def Allreduce(self, sendbuf, recvbuf, op=SUM):
        s = self._vals(sendbuf, recvbuf)
        r = self._call("Allgather", alias="Allreduce:" + op.name, sig=_sig(s), buf=s.tobytes())
        out = _arr(recvbuf)
        if _sig(out) != _sig(s):
            raise Exception_("MPI_ERR_TRUNCATE: send and receive buffers differ in Allreduce")
        out.flat[:] = self._sum(r, s.dtype, op)

    def Gather(self, sendbuf, recvbuf, root=0):
        self._chk(root)
        s = self._vals(sendbuf, recvbuf)
        r = self._call("Gather", root=root, sig=_sig(s), buf=s.tobytes())
        if self.rank == root:
            _arr(recvbuf).flat[:] = np.frombuffer(b"".join(r), dtype=s.dtype)

    def Gatherv(self, sendbuf, recvbuf, root=0):
        self._chk(root)
        s = self._vals(sendbuf, recvbuf)
        r = self._call("Gather", alias="Gatherv", root=root, sig=(str(s.dtype), -1), buf=s.tobytes())
        if self.rank == root:
            _arr(recvbuf).flat[:] = np.frombuffer(b"".join(r), dtype=s.dtype)

    def Allgather(self, sendbuf, recvbuf):
        s = self._vals(sendbuf, recvbuf)
        r = self._call("Allgather", sig=_sig(s), buf=s.tobytes())
        _arr(recvbuf).flat[:] = np.frombuffer(b"".join(r), dtype=s.dtype)

    def Allgatherv(self, sendbuf, recvbuf):
        s = self._vals(sendbuf, recvbuf)
        r = self._call("Allgather", alias="Allgatherv", sig=(str(s.dtype), -1), buf=s.tobytes())
        _arr(recvbuf).flat[:] = np.frombuffer(b"".join(r), dtype=s.dtype)

    def Scatter(self, sendbuf, recvbuf, root=0):
        self._chk(root)
        out = _arr(recvbuf)
        parts = None
        if self.rank == root:
            s = _arr(sendbuf)
            parts = [x.tobytes() for x in np.split(s.reshape(-1), self.size)]
        r = self._call("Scatter", root=root, sig=_sig(out), parts=parts)
        out.flat[:] = np.frombuffer(r, dtype=out.dtype)

    # -- point to point
    def _peer(self, p):
        if p not in (ANY_SOURCE, PROC_NULL) and not 0 <= p < self.size:
            raise Exception_("MPI_ERR_RANK: invalid rank")

    def send(self, obj, dest, tag=0):
        self._peer(dest)
        self._call("send", dest=dest, tag=tag, data=_dumps(obj))

    bsend = send

    def ssend(self, obj, dest, tag=0):
        self._peer(dest)
        self._call("send", dest=dest, tag=tag, sync=True, data=_dumps(obj))

    def recv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        self._peer(source)
        src, tg, d = self._call("recv", source=source, tag=tag)
        if status is not None:
            status.source, status.tag = src, tg
        return pickle.loads(d)

    def isend(self, obj, dest, tag=0):
        self._peer(dest)
        self._call("isend", dest=dest, tag=tag, data=_dumps(obj))
        return Request(self)

    def irecv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG):
        return Request(self, finish=lambda status=None: self.recv(source=source, tag=tag, status=status))

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None, source=ANY_SOURCE, recvtag=ANY_TAG, status=None):
        self.isend(sendobj, dest, sendtag)
        return self.recv(source=source, tag=recvtag, status=status)

    def Send(self, buf, dest, tag=0):
        self.send(_arr(buf).copy(), dest, tag)

    Ssend = Send

    def Recv(self, buf, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        b = _arr(buf)
        x = np.asarray(self.recv(source=source, tag=tag, status=status))
        if x.size > b.size:
            raise Exception_("MPI_ERR_TRUNCATE: message truncated")
        b.flat[: x.size] = x.reshape(-1)

    def Isend(self, buf, dest, tag=0):
        return self.isend(_arr(buf).copy(), dest, tag)

    def Irecv(self, buf, source=ANY_SOURCE, tag=ANY_TAG):
        return Request(self, finish=lambda status=None: self.Recv(buf, source, tag, status))

    # -- other
    def Dup(self, info=None):
        r = self._call("allgather", alias="Dup", data=pickle.dumps(None))
        assert len(r) == self.size
        return self

    Clone = Dup

    def Free(self):
        pass

    def Abort(self, code=0):
        raise Exception_("MPI_Abort(%s)" % code)

    def Is_inter(self):
        return False

    def __bool__(self):
        return True


_addr = os.environ.get("FAKEMPI_ADDR")
if _addr:
    _rank, _size = int(os.environ["FAKEMPI_RANK"]), int(os.environ["FAKEMPI_SIZE"])
    _link = _Link(_addr, _rank)
    COMM_WORLD = Comm(_link, _rank, _size)
else:
    _link = None
    COMM_WORLD = Comm(_Alone(), 0, 1)
COMM_SELF = Comm(_Alone(), 0, 1, cid=1, name="MPI_COMM_SELF")
COMM_NULL = None
Intracomm = Comm
Exception = Exception_
