"""In-process stand-in for mpi4py: n ranks as threads, collectives by rendezvous.  Implements the
MPI semantics of the operations the package uses (Allreduce/Reduce SUM, Bcast, Barrier)."""
import threading
import numpy as np
from vk.search import Violated

_tl = threading.local()


class World:
    def __init__(self, n):
        self.n = n
        self.bar = threading.Barrier(n, timeout=60)
        self.slots = [None] * n


class Comm:
    def Get_rank(self):
        return _tl.rank

    def Get_size(self):
        return _tl.world.n

    rank = property(Get_rank)
    size = property(Get_size)

    def _all(self, x):
        w = _tl.world
        w.slots[_tl.rank] = np.array(x, copy=True, order="K") if x is not None else None
        w.bar.wait()
        r = list(w.slots)
        w.bar.wait()
        return r

    @staticmethod
    def _flat(a):
        return a.ravel(order="F" if a.flags.f_contiguous and not a.flags.c_contiguous else "C")

    def _sum(self, send, recv):
        parts = self._all(send)
        if recv is not None:
            # the wire carries memory order
            tot = sum(self._flat(p).astype(recv.dtype) for p in parts)
            v = recv.reshape(-1, order="F" if recv.flags.f_contiguous and not recv.flags.c_contiguous else "C")
            v[...] = tot
            if not np.shares_memory(v, recv):
                recv[...] = tot.reshape(recv.shape, order="F" if recv.flags.f_contiguous and not recv.flags.c_contiguous else "C")

    def Allreduce(self, send, recv, op=None):
        self._sum(send, recv)

    def Reduce(self, send, recv, op=None, root=0):
        self._sum(send, recv if _tl.rank == root else None)

    def Bcast(self, buf, root=0):
        parts = self._all(buf)
        if _tl.rank != root:
            buf[...] = parts[root]

    def Barrier(self):
        _tl.world.bar.wait()

    def allreduce(self, x, op=None):
        return sum(self._all(x))

    def bcast(self, x, root=0):
        w = _tl.world
        w.slots[_tl.rank] = x
        w.bar.wait()
        r = w.slots[root]
        w.bar.wait()
        return r

    def gather(self, x, root=0):
        r = self.allgather(x)
        return r if _tl.rank == root else None

    def allgather(self, x):
        w = _tl.world
        w.slots[_tl.rank] = x
        w.bar.wait()
        r = list(w.slots)
        w.bar.wait()
        return r


class FakeMPI:
    COMM_WORLD = Comm()
    SUM = "SUM"


def run(n, fn):
    """fn() in n ranks -> list of results; the first exception is re-raised"""
    import tbplas.parallel as par
    old, par.MPI = par.MPI, FakeMPI
    w = World(n)
    res, err = [None] * n, [None] * n

    def go(r):
        _tl.rank, _tl.world = r, w
        try:
            res[r] = fn()
        except threading.BrokenBarrierError as ex:
            err[r] = err[r] or ex
        except BaseException as ex:
            err[r] = ex
            w.bar.abort()
    try:
        ths = [threading.Thread(target=go, args=(r,)) for r in range(n)]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
    finally:
        par.MPI = old
    for x in err:
        if x is not None and not isinstance(x, threading.BrokenBarrierError):
            raise x
    for x in err:
        if x is not None:
            raise Violated("a collective operation was not reached by all processes")
    return res
