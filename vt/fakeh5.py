"""An in-memory h5py with the semantics the library relies on, able to hold symbolic data.

Files live in a registry keyed by path; an empty file is created on disk so that existence checks,
globbing and deletion by the code under test act on the real (scratch) file system.
"""
import itertools, os, posixpath, types
import numpy as np
from . import lin

FILES = {}
TOKENS = itertools.count()
UNLIMITED = 2**64 - 1


def reset():
    FILES.clear()


def contents(path):
    """the file at a path (which may have been moved there)"""
    if not os.path.isfile(path):
        return None
    with open(path) as f:
        return FILES.get(f.read())


class Attrs(dict):
    """attributes; those of a dataset include its dimension labels and scales"""
    owner = None

    def __setitem__(self, k, v):
        if k == 'DIMENSION_LIST':
            for d, s in zip(self.owner.dims, v):
                d.scales = list(s)
        elif k == 'DIMENSION_LABELS':
            for d, s in zip(self.owner.dims, v):
                d.label = s
        else:
            super().__setitem__(k, np.array(v) if isinstance(v, (tuple, list)) else v)

    def _extra(self):
        dims = self.owner.dims if self.owner is not None else []
        out = {}
        if any(d.scales for d in dims):
            out['DIMENSION_LIST'] = [list(d.scales) for d in dims]
        if any(d.label for d in dims):
            out['DIMENSION_LABELS'] = [d.label for d in dims]
        return out

    def items(self): return list(super().items()) + list(self._extra().items())
    def keys(self): return [k for k, _ in self.items()]
    def __iter__(self): return iter(self.keys())
    def __contains__(self, k): return k in self.keys()

    def __getitem__(self, k):
        e = self._extra()
        return e[k] if k in e else super().__getitem__(k)

    def update(self, other):
        for k, v in other.items():
            self[k] = v


class Dim:
    def __init__(self):
        self.label = ''
        self.scales = []

    def attach_scale(self, d):
        assert isinstance(d, Dataset)
        if d not in self.scales:
            self.scales.append(d)

    def _names(self):
        return [s.scale_name or '' for s in self.scales]

    def __getitem__(self, k):
        if isinstance(k, int):
            return self.scales[k]
        for s in self.scales:
            if s.scale_name == k:
                return s
        raise KeyError(k)

    def values(self): return list(self.scales)
    def keys(self): return self._names()
    def items(self): return list(zip(self._names(), self.scales))
    def __len__(self): return len(self.scales)


def rowcopy(v):
    return v.copy() if isinstance(v, (np.ndarray, lin.LinArray)) else v


class Dataset:
    is_virtual = False

    def __init__(self, file, name, shape=None, dtype=None, data=None, maxshape=None):
        self.file, self.name = file, '/' + name.strip('/')
        if isinstance(data, Dataset):
            dtype, data = dtype or data.dtype, data[:]
        if data is not None:
            data = data if isinstance(data, lin.LinArray) else np.asarray(data)
            shape = data.shape
            dtype = dtype or data.dtype
        self._shape = tuple(shape)
        self.maxshape = tuple(maxshape) if maxshape is not None else self._shape
        self.dtype = np.dtype(dtype)
        self.rows = [None]*self._shape[0] if self._shape else [None]
        if data is not None:
            self.rows = [d for d in data]
        self.attrs = Attrs()
        self.attrs.owner = self
        self.scale_name = None
        self.dims = [Dim() for _ in self._shape]

    @property
    def shape(self):
        return (len(self.rows),) + self._shape[1:]

    @property
    def ndim(self):
        return len(self._shape)

    def __len__(self):
        return len(self.rows)

    def make_scale(self, name=''):
        self.scale_name = name

    def iter_chunks(self, sel=None):
        """one write at a time, in pieces"""
        assert sel is None
        for i in range(len(self.rows)):
            pieces = [[slice(a, min(a + 2, n)) for a in range(0, n, 2)] for n in self._shape[1:]]
            for p in itertools.product(*pieces):
                yield (slice(i, i + 1),) + p

    def resize(self, n, axis=None):
        assert axis == 0, 'only the write axis is resized'
        n = int(n)
        lim = self.maxshape[0]
        if lim is not None and n > lim:
            raise ValueError('unable to set extend dataset (dimension cannot exceed the existing maximal size)')
        self.rows = self.rows[:n] + [None]*(n - len(self.rows))

    def _row(self, i):
        n = len(self.rows)
        if not -n <= i < n:
            raise IndexError('Index (%s) out of range' % i)
        r = self.rows[i]
        if r is None:
            r = np.zeros(self._shape[1:], dtype=self.dtype)
            return r if self._shape[1:] else r[()]
        return r

    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        if key[:1] == (Ellipsis,):
            key = (slice(None),)
        if isinstance(key[0], slice):
            rows = [self._row(i) for i in range(*key[0].indices(len(self.rows)))]
            if any(isinstance(r, lin.LinArray) for r in rows):
                out = lin.stack(rows)
            elif not rows:
                out = np.zeros((0,) + self._shape[1:], dtype=self.dtype)
            else:
                out = np.array(rows)
            return out[(slice(None),) + key[1:]]
        r = self._row(int(key[0]))
        r = rowcopy(r)
        return r[key[1:]] if key[1:] else r

    def __setitem__(self, key, value):
        if isinstance(key, tuple) and len(key) == 1:
            key = key[0]
        if isinstance(key, slice) and key == slice(None):
            for i in range(len(self.rows)):
                self.rows[i] = rowcopy(value[i] if np.ndim(value) else value)
            return
        if isinstance(key, tuple) and isinstance(key[0], slice):
            for j, i in enumerate(range(*key[0].indices(len(self.rows)))):
                self[(i,) + key[1:]] = value[j]
            return
        if isinstance(key, tuple):
            i, rest = int(key[0]), key[1:]
            self._row(i)
            if self.rows[i] is None:
                self.rows[i] = lin.lift(lin.SPACE, np.zeros(self._shape[1:], dtype=self.dtype))
            self.rows[i][rest] = value
            return
        i = int(key)
        self._row(i)
        if self._shape[1:]:
            if tuple(np.shape(value)) != self._shape[1:]:
                base = lin.lift(lin.SPACE, np.zeros(self._shape[1:], dtype=self.dtype))
                base[...] = value        # broadcasts or raises
                value = base
            if np.iscomplexobj(value) if not isinstance(value, lin.LinArray) else np.dtype(value.dtype).kind == 'c':
                if self.dtype.kind != 'c':
                    raise TypeError('No conversion path for dtype: complex128')
        self.rows[i] = rowcopy(value)


class VirtualSource:
    def __init__(self, path, name, shape=None, maxshape=None, dtype=None):
        self.path, self.name, self.shape, self.sel = path, name, shape, None

    def __getitem__(self, key):
        s = VirtualSource(self.path, self.name, self.shape)
        s.sel = key
        return s


class VirtualLayout:
    def __init__(self, shape, dtype=None, maxshape=None):
        self.shape, self.dtype, self.maxshape, self.parts = shape, dtype, maxshape, []

    def __setitem__(self, key, source):
        assert isinstance(key[0], slice) and key[0].stop == UNLIMITED and source.sel[0].stop == UNLIMITED, 'layouts map the whole write axis'
        self.parts.append((tuple(key[1:]), source))


class VirtualDataset(Dataset):
    is_virtual = True

    def __init__(self, file, name, layout):
        super().__init__(file, name, layout.shape, layout.dtype, maxshape=layout.maxshape)
        self.layout = layout

    def _sources(self):
        out = []
        for sl, src in self.layout.parts:
            p = os.path.normpath(os.path.join(os.path.dirname(self.file.filename), src.path))
            g = contents(p)
            out.append((sl, src, None if g is None else g[src.name]))
        return out

    @property
    def rows(self):
        # unlimited selections extend to the longest source
        n = max([len(d) for _, _, d in self._sources() if d is not None], default=0)
        return [None]*n

    @rows.setter
    def rows(self, v):
        pass

    @property
    def shape(self):
        return (len(self.rows),) + self._shape[1:]

    def _row(self, i):
        n = len(self.rows)
        if not -n <= i < n:
            raise IndexError('out of range')
        i = i % n
        out = lin.lift(lin.SPACE, np.zeros(self._shape[1:], dtype=self.dtype))
        for sl, src, d in self._sources():
            if d is not None and i < len(d):
                out[sl] = d._row(i)[tuple(src.sel[1:])]
        return out

    def __setitem__(self, key, value):
        raise NotImplementedError('writes through virtual datasets')


class Group:
    def __init__(self, file, name):
        self.file, self.name = file, name
        self.items_ = {}
        self.attrs = Attrs()

    def _find(self, path):
        parts = [p for p in path.split('/') if p]
        g = self.file.root if path.startswith('/') else self
        for p in parts:
            if not isinstance(g, Group) or p not in g.items_:
                raise KeyError("Unable to open object (object '%s' doesn't exist)" % path)
            g = g.items_[p]
        return g

    def __getitem__(self, path):
        return self._find(path)

    def __contains__(self, path):
        try:
            self._find(path)
            return True
        except KeyError:
            return False

    def __iter__(self): return iter(sorted(self.items_))
    def keys(self): return sorted(self.items_)
    def items(self): return [(k, self.items_[k]) for k in sorted(self.items_)]
    def values(self): return [self.items_[k] for k in sorted(self.items_)]
    def __len__(self): return len(self.items_)

    def __delitem__(self, name):
        del self.items_[name]

    def move(self, a, b):
        self.items_[b] = self.items_.pop(a)
        self.items_[b].name = posixpath.join(self.name, b)

    def _new(self, name, mk):
        parts = [p for p in name.split('/') if p]
        g = self.file.root if name.startswith('/') else self
        for p in parts[:-1]:
            g = g.items_[p] if p in g.items_ else g.create_group(p)
        if parts[-1] in g.items_:
            raise ValueError('Unable to create dataset (name already exists)')
        d = g.items_[parts[-1]] = mk(posixpath.join(g.name, parts[-1]))
        return d

    def copy(self, source, dest, name=None):
        """copy of a group or dataset with everything in it"""
        src = self._find(source) if isinstance(source, str) else source
        dest = dest.root if isinstance(dest, File) else dest

        def into(g, src, name):
            if isinstance(src, Group):
                new = g.create_group(name)
                for k, v in src.items():
                    into(new, v, k)
            else:
                new = g.create_dataset(name, data=src, maxshape=src.maxshape)
                new.scale_name = src.scale_name
            for k, v in src.attrs.items():
                if not k.startswith('DIMENSION_'):
                    new.attrs[k] = v
        into(dest, src, name or posixpath.basename(src.name))

    def create_group(self, name):
        return self._new(name, lambda n: Group(self.file, n))

    def create_dataset(self, name, shape=None, dtype=None, data=None, maxshape=None, chunks=None, **kw):
        return self._new(name, lambda n: Dataset(self.file, n, shape=shape, dtype=dtype, data=data, maxshape=maxshape))

    def create_virtual_dataset(self, name, layout, fillvalue=None):
        return self._new(name, lambda n: VirtualDataset(self.file, n, layout))


class Root(Group):
    def __init__(self, filename):
        super().__init__(self, '/')
        self.root = self
        self.filename = filename


class File:
    def __init__(self, path, mode='r', **kw):
        path = os.path.abspath(str(path))
        exists = os.path.exists(path)
        if mode in ('w-', 'x') and exists:
            raise FileExistsError("Unable to create file (unable to open file: name = '%s', errno = 17)" % path)
        if mode in ('r', 'r+') and contents(path) is None:
            raise FileNotFoundError("Unable to open file (unable to open file: name = '%s')" % path)
        if mode in ('w', 'w-', 'x') or (mode == 'a' and not exists):
            token = f'simulated HDF5 file {next(TOKENS)}'
            with open(path, 'w') as f:
                f.write(token)
            FILES[token] = Root(path)
        root = contents(path)
        root.filename = path
        self.__dict__.update(_root=root, mode=mode, open=True, filename=path)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        assert self.open, 'file is closed'
        return getattr(self._root, n)

    def __getitem__(self, k):
        assert self.open, 'file is closed'
        return self._root[k]

    def __contains__(self, k): return k in self._root
    def __enter__(self): return self
    def __exit__(self, *a): self.close()
    def close(self): self.__dict__['open'] = False
    def flush(self): pass


def module():
    m = types.SimpleNamespace(File=File, VirtualLayout=VirtualLayout, VirtualSource=VirtualSource, h5s=types.SimpleNamespace(UNLIMITED=UNLIMITED),
                              get_config=lambda: types.SimpleNamespace(mpi=False), Group=Group, Dataset=Dataset)
    return m


# ------------------------------------------------------------------ parallel HDF5
class Mpio:
    """A file (or part of one) opened with driver='mpio': operations on metadata are collective, and are done once."""
    COLLECTIVE = {'create_group', 'create_dataset', 'create_virtual_dataset', 'make_scale', 'resize', 'attach_scale', 'move', 'update', '__delitem__'}

    def __init__(self, obj, comm):
        self.__dict__.update(_obj=obj, _comm=comm)

    def _wrap(self, x):
        return Mpio(x, self._comm) if isinstance(x, (Group, Dataset, Dim, Attrs, File)) else [Mpio(y, self._comm) for y in x] if isinstance(x, list) and x and isinstance(x[0], Dim) else x

    def _once(self, what, fn):
        return self._wrap(self._comm._coll(f'h5 {what} {getattr(self._obj, "name", "")}', fn, lambda fs: [fs[0]()]*len(fs)))

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if n == 'id' and isinstance(self._obj, Dataset):
            return DatasetID(self)
        x = getattr(self._obj, n)
        if n in self.COLLECTIVE:
            return lambda *a, **k: self._once(n, lambda: x(*[unwrap(y) for y in a], **k))
        return self._wrap(x)

    def __setattr__(self, n, v):
        self._once(f'set {n}', lambda: setattr(self._obj, n, v))

    def __setitem__(self, k, v):
        if isinstance(self._obj, Attrs):
            self._once(f'attr {k}', lambda: self._obj.__setitem__(k, v))
        else:
            self._obj[k] = v

    def __getitem__(self, k): return self._wrap(self._obj[k])
    def __contains__(self, k): return k in self._obj
    def __len__(self): return len(self._obj)
    def __iter__(self): return iter(self._obj)
    def __enter__(self): return self
    def __exit__(self, *a): self.close()

    def close(self):
        self._comm._coll('h5 close', None, lambda a: [None]*len(a))
        self._obj.close()


def unwrap(x):
    return x._obj if isinstance(x, Mpio) else x


class DatasetID:
    """low-level writes of hyperslabs"""
    def __init__(self, mp):
        self.mp = mp

    def write(self, mspace, fspace, data, dxpl=None):
        ds = self.mp._obj
        if dxpl is not None and getattr(dxpl, 'mode', None) == 'collective':
            self.mp._comm._coll(f'h5 write {ds.name}', None, lambda a: [None]*len(a))
        if tuple(data.shape) != mspace.shape:
            raise ValueError(f'memory space {mspace.shape} and data {data.shape} differ')
        if not data.flags['C_CONTIGUOUS']:
            raise TypeError('Array must be C-contiguous')
        if np.dtype(data.dtype) != ds.dtype:
            raise TypeError(f'{data.dtype} written to {ds.dtype}')
        if tuple(mspace.count) != tuple(fspace.count) or tuple(mspace.start) != (0,)*len(mspace.shape) or tuple(mspace.count) != mspace.shape:
            raise ValueError('selections differ')
        if fspace.shape != tuple(ds.shape):
            raise ValueError(f'file space {fspace.shape} of a dataset of shape {ds.shape}')
        if any(s < 0 or s + c > n for s, c, n in zip(fspace.start, fspace.count, fspace.shape)):
            raise ValueError('selection+offset not within extent')
        for i in range(fspace.count[0]):
            r = fspace.start[0] + i
            if ds.rows[r] is None:
                ds.rows[r] = lin.lift(lin.SPACE, np.zeros(ds._shape[1:], dtype=ds.dtype)) if lin.SPACE is not None else np.zeros(ds._shape[1:], dtype=ds.dtype)
            if np.prod(fspace.count[1:]):
                ds.rows[r][tuple(slice(s, s + c) for s, c in zip(fspace.start[1:], fspace.count[1:]))] = data[i]


class Space:
    def __init__(self, shape):
        self.shape = tuple(int(s) for s in shape)

    def select_hyperslab(self, start, count):
        self.start, self.count = tuple(int(s) for s in start), tuple(int(s) for s in count)


class Plist:
    mode = 'independent'

    def set_dxpl_mpio(self, mode):
        self.mode = mode


def parallel_module():
    """h5py built with MPI"""
    def open_(path, mode='r', driver=None, comm=None, **kw):
        if driver != 'mpio':
            return File(path, mode, **kw)
        err = []

        def go():
            try:
                return File(path, mode)
            except OSError as e:
                return e
        f = comm._coll(f'h5 open {path} {mode}', go, lambda fs: [fs[0]()]*len(fs))
        if isinstance(f, Exception):
            raise f
        return Mpio(f, comm)
    m = module()
    m.File = open_
    m.get_config = lambda: types.SimpleNamespace(mpi=True)
    m.h5p = types.SimpleNamespace(DATASET_XFER='xfer', create=lambda kind: Plist())
    m.h5fd = types.SimpleNamespace(MPIO_COLLECTIVE='collective', MPIO_INDEPENDENT='independent')
    m.h5s = types.SimpleNamespace(UNLIMITED=UNLIMITED, create_simple=lambda shape, *a: Space(shape))
    def guess_chunk(shape, maxshape, typesize):
        return tuple(max(1, int(s)) for s in shape)
    m.filters = types.SimpleNamespace(guess_chunk=guess_chunk)
    return m
