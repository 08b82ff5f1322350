"""One rank: executes jobs sent by mpiworld with a stand-in communicator that forwards every collective call to the scheduler."""
import os, sys, pickle, socket, struct, types, traceback, warnings
warnings.simplefilter("ignore")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import numpy as np

sock = socket.socket(fileno=int(sys.argv[1]))
RANK = int(sys.argv[2])


def send(o):
    b = pickle.dumps(o)
    sock.sendall(struct.pack("<I", len(b)) + b)


def recv():
    def rd(n):
        b = b""
        while len(b) < n:
            c = sock.recv(n - len(b))
            if not c:
                os._exit(0)
            b += c
        return b
    return pickle.loads(rd(struct.unpack("<I", rd(4))[0]))


class Op(object):
    def __init__(self, name):
        self.name = name


MPI = types.ModuleType("mpi4py.MPI")
MPI.SUM, MPI.MIN, MPI.MAX, MPI.PROD, MPI.LAND, MPI.LOR = [Op(x) for x in ("sum", "min", "max", "prod", "land", "lor")]


def buf(x):
    return x[0] if isinstance(x, (list, tuple)) else x


class Comm(object):
    """mpi4py's communicator; every call is collective and waits for all members (the strictest semantics MPI allows)"""

    def __init__(self, cid, members):
        self.cid, self.members = cid, members
        self.rank = members.index(RANK)
        self.size = len(members)

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def _call(self, kind, root, n, data):
        send(("call", self.cid, kind, int(root), int(n), data))
        return recv()

    def bcast(self, obj, root=0):
        return pickle.loads(self._call("bcast", root, 0, pickle.dumps(obj) if self.rank == root else None))

    def Bcast(self, x, root=0):
        x = buf(x)
        assert x.flags.c_contiguous or x.flags.f_contiguous, "Bcast needs a contiguous buffer"
        d = self._call("Bcast", root, x.nbytes, x.tobytes() if self.rank == root else None)
        if self.rank != root:
            x[...] = np.frombuffer(d, x.dtype).reshape(x.shape)

    def allgather(self, obj):
        return [pickle.loads(b) for b in self._call("allgather", 0, 0, pickle.dumps(obj))]

    def gather(self, obj, root=0):
        r = self._call("gather", root, 0, pickle.dumps(obj))
        return [pickle.loads(b) for b in r] if self.rank == root else None

    def scatter(self, objs, root=0):
        return pickle.loads(self._call("scatter", root, 0, [pickle.dumps(o) for o in objs] if self.rank == root else None)[self.rank])

    def _red(self, items, op):
        r = items[0]
        for x in items[1:]:
            n = op.name
            r = (r + x if n == "sum" else r * x if n == "prod" else
                 (np.minimum(r, x) if isinstance(r, np.ndarray) else min(r, x)) if n == "min" else
                 (np.maximum(r, x) if isinstance(r, np.ndarray) else max(r, x)))
        return r

    def allreduce(self, obj, op=MPI.SUM):
        return self._red([pickle.loads(b) for b in self._call("allreduce:" + op.name, 0, 0, pickle.dumps(obj))], op)

    def reduce(self, obj, op=MPI.SUM, root=0):
        r = self._red([pickle.loads(b) for b in self._call("reduce:" + op.name, root, 0, pickle.dumps(obj))], op)
        return r if self.rank == root else None

    def Allreduce(self, x, out, op=MPI.SUM):
        x, out = buf(x), buf(out)
        r = self._call("Allreduce:" + op.name, 0, x.nbytes, pickle.dumps(x))
        out[...] = self._red([pickle.loads(b) for b in r], op)

    def barrier(self):
        self._call("barrier", 0, 0, None)
    Barrier = barrier

    def Split(self, color=0, key=0):
        color = int(color)
        assert 0 <= color < 2 ** 31, "the color of a split is a non-negative 32-bit integer"
        cid, members = self._call("Split", 0, 0, (color, int(key)))
        return Comm(cid, members)

    def Free(self):
        pass


def main():
    m = types.ModuleType("mpi4py")
    m.MPI = MPI
    sys.modules["mpi4py"] = m
    sys.modules["mpi4py.MPI"] = MPI
    devnull = open(os.devnull, "w")
    sys.stdout = devnull
    import mpijobs
    MPI.Comm = Comm
    send(("ready",))
    while True:
        name, params, p = recv()
        try:
            r = mpijobs.JOBS[name](Comm(1, list(range(p))) if p else None, **params)
            send(("exit", r))
        except Exception as e:
            send(("raise", "%s: %s" % (type(e).__name__, str(e)[:200]), traceback.format_exc()[-1500:]))


main()
