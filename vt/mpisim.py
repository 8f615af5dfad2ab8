"""
Simulated MPI: every rank runs the real code in its own thread, one at a time (a baton is passed only at collectives, so
the interleaving inside a collective-free section is irrelevant); collectives match across the communicator or are
reported, and ranks that can never proceed are reported as a deadlock.  Data moved is copied, symbolic or not.
"""
import itertools, threading
import numpy as np


class MPIError(Exception):
    """The ranks' collectives do not match (wrong order, arguments or a rank that never joins)."""


class _Stop(BaseException):
    pass


class World:
    def __init__(self, size):
        self.size = size
        self.cv = threading.Condition()
        self.running = None          # rank holding the baton
        self.state = ['ready']*size  # ready / waiting / done
        self.posts = {}              # (comm id, seq) -> {rank: (name, args)}
        self.results = {}
        self.error = None
        self.ids = itertools.count()

    # --- scheduling
    def run(self, fn):
        """fn(rank, comm) on every rank; returns the list of results, raises the first error."""
        out, errs = [None]*self.size, [None]*self.size
        group = tuple(range(self.size))
        from . import engine

        def work(r):
            try:
                self._acquire(r)
                out[r] = fn(r, Comm(self, ('w',), group, r))
            except _Stop:
                pass
            except BaseException as e:
                errs[r] = e
                with self.cv:
                    if self.error is None:
                        self.error = e
            finally:
                with self.cv:
                    self.state[r] = 'done'
                    self._next()
        ths = [threading.Thread(target=work, args=(r,), daemon=True) for r in range(self.size)]
        with self.cv:
            self.running = 0
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        for e in errs:
            if e is not None and e is self.error:
                raise e
        if self.error is not None:
            raise self.error
        return out

    def _acquire(self, r):
        with self.cv:
            while self.running != r or self.state[r] == 'waiting':
                if self.error is not None:
                    raise _Stop
                self.cv.wait(60)
            if self.error is not None:
                raise _Stop

    def _next(self):
        """(holding cv) pass the baton to a runnable rank"""
        if self.error is None:
            ready = [r for r in range(self.size) if self.state[r] == 'ready']
            if ready:
                cur = self.running if self.running is not None else -1
                self.running = min(ready, key=lambda r: (r <= cur, r))
            elif any(s == 'waiting' for s in self.state):
                pend = {k: {r: v[0] for r, v in p.items()} for k, p in self.posts.items()}
                self.error = MPIError(f'deadlock: states {self.state}, pending collectives {pend}')
        self.cv.notify_all()

    # --- collectives
    def collective(self, comm, name, args, combine):
        """combine(list of args by comm rank) -> list of results by comm rank"""
        key = (comm.cid, comm.seq)
        comm.seq += 1
        with self.cv:
            p = self.posts.setdefault(key, {})
            p[comm.rank] = (name, args)
            if len(p) == comm.size:
                names = {n for n, _ in p.values()}
                if len(names) != 1:
                    self.error = MPIError(f'mismatched collectives {[p[i][0] for i in range(comm.size)]}')
                    self._next()
                    raise self.error
                try:
                    res = combine([p[i][1] for i in range(comm.size)])
                except BaseException as e:
                    self.error = e
                    self._next()
                    raise
                self.results[key] = res
                del self.posts[key]
                for i, g in enumerate(comm.group):
                    self.state[g] = 'ready'
            else:
                self.state[comm.group[comm.rank]] = 'waiting'
                self._next()
        self._acquire(comm.group[comm.rank])
        return self.results[key][comm.rank]


def flat(buf):
    a = getattr(buf, 'a', buf)       # translated memoryviews
    if hasattr(a, 'flags') and not a.flags['C_CONTIGUOUS']:
        raise MPIError('discontiguous communication buffer')
    return a.reshape(-1) if len(a.shape) != 1 else a


def spec(s):
    if isinstance(s, (list, tuple)):
        buf, rest = s[0], s[1:]
    else:
        buf, rest = s, ()
    return flat(buf), [np.asarray(getattr(x, 'a', x)) if not np.isscalar(x) else x for x in rest if not _is_type(x)]


def _is_type(x):
    return type(x).__name__ == 'Datatype'


def piece(buf, start, n):
    start, n = int(start), int(n)
    if n < 0 or start < 0 or (n and start + n > buf.shape[0]):
        raise MPIError(f'communication outside a buffer: [{start}:{start+n}] of {buf.shape[0]}')
    return buf[start:start+n]


def reduce_(op, vals):
    from mpi4py import MPI
    f = [(MPI.SUM, lambda a, b: a + b), (MPI.MAX, _max), (MPI.MIN, _min), (MPI.PROD, lambda a, b: a*b), (MPI.LOR, lambda a, b: a or b), (MPI.LAND, lambda a, b: a and b)]
    for k, g in f:
        if op == k:
            r = vals[0]
            for v in vals[1:]:
                r = g(r, v)
            return r
    raise MPIError(f'unsupported reduction {op}')


def _max(a, b):
    if hasattr(a, 'shape') or hasattr(b, 'shape'):
        return np.maximum(a, b)
    return a if a >= b else b


def _min(a, b):
    if hasattr(a, 'shape') or hasattr(b, 'shape'):
        return np.minimum(a, b)
    return a if a <= b else b


class Comm:
    def __init__(self, world, cid, group, rank, dims=None):
        self.world, self.cid, self.group = world, cid, group
        self.rank, self.size = rank, len(group)
        self.seq = 0
        self.children = 0
        if dims is not None:
            self.dims = [int(d) for d in dims]
            self.dim = len(self.dims)
            self.coords = self.Get_coords(rank)
        self.ob_mpi = self

    Get_rank = lambda self: self.rank
    Get_size = lambda self: self.size

    def _child(self):
        self.children += 1
        return self.cid + (self.children,)

    def _coll(self, name, args, combine):
        return self.world.collective(self, name, args, combine)

    # topologies
    def Create_cart(self, dims, periods=None, reorder=False):
        dims = [int(d) for d in dims]
        if int(np.prod(dims)) > self.size:
            raise MPIError('cartesian communicator larger than its parent')
        self._coll('Create_cart', tuple(dims), lambda a: [None]*len(a) if len(set(a)) == 1 else _bad('Create_cart', a))
        n = int(np.prod(dims))
        return Comm(self.world, self._child(), self.group[:n], self.rank, dims) if self.rank < n else None

    def Get_coords(self, rank):
        return [int(c) for c in np.unravel_index(rank, self.dims)] if self.dims else []

    def Get_cart_rank(self, coords):
        return int(np.ravel_multi_index(coords, self.dims)) if self.dims else 0

    def Sub(self, remain_dims):
        rem = [bool(r) for r in remain_dims]
        if len(rem) != self.dim:
            raise MPIError(f'Sub with {len(rem)} dims on a {self.dim}-d communicator')
        self._coll('Sub', tuple(rem), lambda a: [None]*len(a) if len(set(a)) == 1 else _bad('Sub', a))
        mine = tuple(c for c, r in zip(self.coords, rem) if not r)
        group = [r for r in range(self.size) if tuple(c for c, k in zip(self.Get_coords(r), rem) if not k) == mine]
        return Comm(self.world, self._child() + (mine,), tuple(self.group[r] for r in group), group.index(self.rank), [d for d, k in zip(self.dims, rem) if k])

    def Dup(self):
        self._coll('Dup', None, lambda a: [None]*len(a))
        return Comm(self.world, self._child(), self.group, self.rank, getattr(self, 'dims', None))

    def Free(self): pass

    # data
    def Barrier(self):
        self._coll('Barrier', None, lambda a: [None]*len(a))
    barrier = Barrier

    def bcast(self, obj, root=0):
        return self._coll(f'bcast{root}', obj, lambda a: [a[root]]*len(a))

    def gather(self, obj, root=0):
        from copy import copy
        obj = obj.copy() if hasattr(obj, 'copy') else copy(obj)
        return self._coll(f'gather{root}', obj, lambda a: [list(a) if i == root else None for i in range(len(a))])

    def allgather(self, obj):
        obj = obj.copy() if hasattr(obj, 'copy') else obj
        return self._coll('allgather', obj, lambda a: [list(a) for _ in a])

    def scatter(self, objs, root=0):
        return self._coll(f'scatter{root}', objs, lambda a: [a[root][i] for i in range(len(a))])

    def allreduce(self, obj, op=None):
        from mpi4py import MPI
        op = MPI.SUM if op is None else op
        return self._coll('allreduce', (obj, op), lambda a: [reduce_(op, [x[0] for x in a])]*len(a))

    def reduce(self, obj, op=None, root=0):
        from mpi4py import MPI
        op = MPI.SUM if op is None else op
        return self._coll(f'reduce{root}', obj, lambda a: [reduce_(op, a) if i == root else None for i in range(len(a))])

    def Allreduce(self, send, recv, op=None):
        from mpi4py import MPI
        op = MPI.SUM if op is None else op
        r = spec(recv)[0]
        s = r if send is MPI.IN_PLACE else spec(send)[0]

        def combine(a):
            if len({x.shape for x in a}) != 1:
                raise MPIError(f'Allreduce of different sizes {[x.shape for x in a]}')
            t = reduce_(op, a)
            return [t]*len(a)
        t = self._coll('Allreduce', s.copy(), combine)
        if r.shape != t.shape:
            raise MPIError('Allreduce receive buffer size')
        r[...] = t

    def Bcast(self, buf, root=0):
        b = spec(buf)[0]
        t = self._coll(f'Bcast{root}', b.copy(), lambda a: [a[root]]*len(a))
        if t.shape != b.shape:
            raise MPIError(f'Bcast of different sizes: sent {t.shape}, receiving {b.shape}')
        if self.rank != root:
            b[...] = t

    def Alltoallv(self, send, recv):
        sb, (sc, sd) = spec(send)
        rb, (rc, rd) = spec(recv)
        pieces = [piece(sb, sd[i], sc[i]).copy() for i in range(self.size)]
        got = self._coll('Alltoallv', pieces, lambda a: [[a[j][i] for j in range(len(a))] for i in range(len(a))])
        for j, g in enumerate(got):
            if g.shape[0] != int(rc[j]):
                raise MPIError(f'Alltoallv: rank {self.rank} expects {int(rc[j])} from {j}, which sends {g.shape[0]}')
            if g.shape[0]:
                piece(rb, rd[j], rc[j])[...] = g

    def Allgatherv(self, send, recv):
        sb, rest = spec(send)
        n = int(rest[0]) if rest else sb.shape[0]
        rb, (rc, rd) = spec(recv)
        got = self._coll('Allgatherv', piece(sb, 0, n).copy(), lambda a: [list(a)]*len(a))
        for j, g in enumerate(got):
            if g.shape[0] != int(rc[j]):
                raise MPIError(f'Allgatherv: expects {int(rc[j])} from {j}, which sends {g.shape[0]}')
            if g.shape[0]:
                piece(rb, rd[j], rc[j])[...] = g


def _bad(name, a):
    raise MPIError(f'{name} with different arguments {a}')


# ---- FFTW's distributed transpose, by its documented contract
class Buf:
    """FFTW-allocated doubles; viewed as real or complex arrays."""
    def __init__(self, n, make):
        self.n, self.make, self.arr, self.kind = int(n), make, None, None
        self.shape = (self.n,)

    def view(self, shape, dtype):
        w = 2 if np.dtype(dtype).kind == 'c' else 1
        m = int(np.prod(shape))
        if m*w > self.n:
            raise TypeError('buffer is too small for requested array')
        if self.arr is None:
            self.arr, self.kind = self.make(max(self.n//w, 1), dtype), w
        if self.kind != w:
            raise MPIError('FFTW buffer used as real and complex')
        return self.arr[:m].reshape(shape)


class Cfftw:
    """cimported FFTW-MPI functions; sizes are checked like the library would use them."""
    FFTW_MPI_TRANSPOSED_IN = 1 << 29
    FFTW_MPI_TRANSPOSED_OUT = 1 << 30

    def fftw_mpi_local_size_many_transposed(self, rnk, shape, howmany, block0, block1, comm, l0, s0, l1, s1):
        n0, n1 = int(shape[0]), int(shape[1])
        def loc(n, b):
            s = min(n, b*comm.rank)
            return min(n, b*(comm.rank+1)) - s, s
        if block0*comm.size < n0 or block1*comm.size < n1:
            raise MPIError('FFTW: blocks do not cover the array')
        (l0.value, s0.value), (l1.value, s1.value) = loc(n0, block0), loc(n1, block1)
        return max(l0.value*n1, n0*l1.value, 1)*int(howmany)

    def fftw_mpi_plan_many_transpose(self, n0, n1, howmany, block0, block1, inp, out, comm, flags):
        """in: n0 x n1 tuples, rows distributed in block0; out: its transpose, n1 rows distributed in block1.
        TRANSPOSED_IN: the local input is stored n1 x local_n0; TRANSPOSED_OUT: the local output is stored n0 x local_n1."""
        n0, n1, howmany, block0, block1 = map(int, (n0, n1, howmany, block0, block1))
        return dict(n=(n0, n1), h=howmany, b=(block0, block1), io=(inp, out), comm=comm,
                    tin=bool(flags & self.FFTW_MPI_TRANSPOSED_IN), tout=bool(flags & self.FFTW_MPI_TRANSPOSED_OUT))

    def fftw_destroy_plan(self, p): pass

    def fftw_execute(self, p):
        comm, (n0, n1) = p['comm'], p['n']
        rng = lambda n, b, r: (min(n, b*r), min(n, b*(r+1)))
        a0, a1 = rng(n0, p['b'][0], comm.rank)
        inp, out = (base(x) for x in p['io'])
        h = p['h'] // inp.kind
        if inp.kind == 2 and p['h'] % 2:
            raise MPIError('odd howmany for complex data')
        w = a1 - a0
        loc = inp.arr[:w*n1*h]
        loc = loc.reshape((n1, w, h)) if p['tin'] else loc.reshape((w, n1, h)).transpose((1, 0, 2))
        mine = [loc[slice(*rng(n1, p['b'][1], r))].copy() for r in range(comm.size)]   # (local_n1, w, h) for each target
        key = ('fftw', n0, n1, p['h'], p['b'], p['tin'], p['tout'])

        def combine(a):
            if len({k for k, _ in a}) != 1:
                raise MPIError(f'FFTW plans differ between ranks: {[k for k, _ in a]}')
            return [[a[j][1][i] for j in range(len(a))] for i in range(len(a))]
        got = comm._coll('fftw_execute', (key, mine), combine)
        b0, b1 = rng(n1, p['b'][1], comm.rank)
        u = b1 - b0
        if out.arr is None:
            out.view((0,), complex if inp.kind == 2 else float)
        dst = out.arr[:u*n0*h]
        dst = dst.reshape((n0, u, h)).transpose((1, 0, 2)) if p['tout'] else dst.reshape((u, n0, h))
        for j, g in enumerate(got):
            s, e = rng(n0, p['b'][0], j)
            if u and e > s:
                dst[:, s:e] = g


def base(x):
    x = getattr(x, 'a', x)
    return x


def load_transposes(env):
    """dedalus.core.transposes translated, on simulated communicators and FFTW by contract."""
    import os, dedalus
    from . import pyx, ded, lin
    sp = env.space if env.sym else None
    if sp is not None:
        snp = ded.SymNumpy(sp)
        make = lambda n, dt: lin.empty(sp, (n,), dt)
        copyto = snp.copyto
        view = ded.view_buffer
    else:
        make = lambda n, dt: np.full(n, np.nan, dtype=dt)
        copyto = np.copyto
        view = lambda b, shape, dt: np.ndarray(shape, dt, b)

    class NP:
        def __getattr__(self, n):
            return getattr(np, n)

        @staticmethod
        def ndarray(shape=None, dtype=float, buffer=None):
            shape = tuple(int(s) for s in getattr(shape, 'a', shape))
            if isinstance(buffer, pyx.MV):
                buffer = buffer.a
            if isinstance(buffer, Buf):
                return buffer.view(shape, dtype)
            if isinstance(buffer, np.ndarray):
                if np.prod(shape) == 0:
                    return np.empty(shape, dtype)
                if np.prod(shape)*np.dtype(dtype).itemsize > buffer.nbytes:
                    raise TypeError('buffer is too small for requested array')
                return np.ndarray(shape, dtype, buffer)
            return view(buffer, shape, dtype)

        @staticmethod
        def copyto(d, s):
            return copyto(d, s)

        @staticmethod
        def zeros(shape, dtype=float):
            return np.zeros(shape, dtype) if np.dtype(dtype).kind not in 'fc' else make(int(np.prod(shape)), dtype)
    import types
    from dedalus.libraries.fftw import fftw_wrappers as fw

    class FW:
        fftw_flags = fw.fftw_flags
        @staticmethod
        def create_buffer(n):
            return Buf(n, make)
    path = os.path.join(os.path.dirname(dedalus.__file__), 'core', 'transposes.pyx')
    return pyx.load(path, 'dedalus.core.transposes', 'dedalus.core', dict(np=NP(), fftw_wrappers=FW, cfftw=Cfftw()))
