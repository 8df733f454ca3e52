"""Files for symbolic runs: the real netCDF4 library writes and reads real files in a scratch
directory; a symbolic value is carried through the file as an opaque token (a float64 that
indexes a table of terms), because the file format moves values and never computes with them.

The same classes count the operations on files, so that a crash or an error can be injected at
any of them (see `Faults`)."""
import os
import sys
import tempfile

import numpy as np

import netCDF4 as nc4
import xarray as xr

from .terms import SymReal

BASE = float(2 ** 40)
TABLE = []
RealDataset = nc4.Dataset
_real_open_dataset = xr.open_dataset
_real_load_dataset = xr.load_dataset
_os = {n: getattr(os, n) for n in ('rename', 'replace', 'remove', 'unlink', 'link')}


class Crash(BaseException):
    """the process dies here"""


class Faults(object):
    """operation number `at` fails: 'kill' = the process dies before it, 'error' = it raises OSError"""
    mode, at, count, dead = None, None, 0, False
    incomplete = set()            # (device, inode) of files whose writing was not finished
    log = []

    @classmethod
    def arm(cls, mode, at):
        cls.mode, cls.at, cls.count, cls.dead, cls.log = mode, at, 0, False, []

    @classmethod
    def off(cls):
        cls.mode, cls.dead = None, False

    @classmethod
    def op(cls, what):
        if cls.mode is None:
            return
        if cls.dead:
            raise Crash()
        i = cls.count
        cls.count += 1
        cls.log.append(what)
        if i == cls.at:
            if cls.mode == 'kill':
                cls.dead = True
                raise Crash()
            raise OSError('injected failure of ' + what)


def encode(a):
    if hasattr(a, 'dims') and hasattr(a, 'values'):
        a = a.values
    if isinstance(a, SymReal):
        a = np.array(a, dtype=object)
    arr = np.asarray(a)
    if arr.dtype != object:
        return a
    out = np.zeros(arr.shape, dtype='f8')
    for idx in np.ndindex(*arr.shape):
        e = arr[idx]
        if isinstance(e, SymReal):
            TABLE.append(e)
            out[idx] = BASE + len(TABLE) - 1
        else:
            out[idx] = e
    return out


def decode(arr):
    arr = np.ma.getdata(arr) if not np.ma.is_masked(arr) else np.ma.filled(arr, np.nan)
    if arr.dtype.kind != 'f' or not TABLE:
        return arr
    if not np.any(arr >= BASE):
        return arr
    out = np.empty(arr.shape, dtype=object)
    for idx in np.ndindex(*arr.shape):
        v = float(arr[idx])
        i = int(v - BASE) if BASE <= v < 2 * BASE else -1
        out[idx] = TABLE[i] if 0 <= i < len(TABLE) else v
    return out


class Var(object):
    def __init__(self, v):
        object.__setattr__(self, '_v', v)

    def __getattr__(self, n):
        return getattr(self._v, n)

    @property
    def dtype(self):
        # the symbolic values are real numbers, held by arrays of objects
        d = self._v.dtype
        return np.dtype(object) if TABLE and d == np.float64 else d

    def __setattr__(self, n, x):
        Faults.op('attribute')
        setattr(self._v, n, x)

    def setncattr(self, *a):
        Faults.op('attribute')
        return self._v.setncattr(*a)

    def setncatts(self, *a):
        Faults.op('attribute')
        return self._v.setncatts(*a)

    def __getitem__(self, k):
        return decode(self._v[k])

    def __setitem__(self, k, x):
        Faults.op('data')
        self._v[k] = encode(x)

    def __len__(self):
        return len(self._v)


class _Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, RealDataset) or type.__instancecheck__(cls, x)


class Dataset(object, metaclass=_Meta):
    """netCDF4.Dataset; opened for reading it is the real one"""
    def __new__(cls, filename, mode='r', *a, **k):
        if mode == 'r':
            return RealDataset(filename, mode, *a, **k)
        self = object.__new__(cls)
        Faults.op('open ' + os.path.basename(str(filename)))
        d = self.__dict__
        d['_d'] = RealDataset(filename, mode, *a, **k)
        d['_key'] = key(filename)
        Faults.incomplete.add(d['_key'])
        return self

    def __init__(self, *a, **k):
        pass

    def __getattr__(self, n):
        return getattr(self.__dict__['_d'], n)

    def __setattr__(self, n, x):
        Faults.op('attribute')
        setattr(self._d, n, x)

    @property
    def variables(self):
        return {k: Var(v) for k, v in self._d.variables.items()}

    def createDimension(self, *a, **k):
        Faults.op('dimension')
        return self._d.createDimension(*a, **k)

    def createVariable(self, varname, datatype=None, *a, **k):
        Faults.op('variable')
        try:
            if np.dtype(datatype) == object:
                datatype = 'f8'
        except TypeError:
            pass
        return Var(self._d.createVariable(varname, datatype, *a, **k))

    def __getitem__(self, name):
        r = self._d[name]
        return Var(r) if isinstance(r, nc4.Variable) else r

    def setncattr(self, *a):
        Faults.op('attribute')
        return self._d.setncattr(*a)

    def setncatts(self, *a):
        Faults.op('attribute')
        return self._d.setncatts(*a)

    def sync(self):
        Faults.op('sync')
        return self._d.sync()

    def close(self):
        try:
            Faults.op('close')
        except BaseException:
            if self._d.isopen():
                self._d.close()
            raise
        self._d.close()
        Faults.incomplete.discard(self._key)

    def __enter__(self):
        return self

    def __exit__(self, t, v, tb):
        self.close()

    def __del__(self):
        try:
            if self._d.isopen():
                self._d.close()
        except Exception:
            pass


def key(path):
    s = os.stat(path)
    return (s.st_dev, s.st_ino)


def _wrap_os(name):
    f = _os[name]

    def op(*a, **k):
        if SCRATCH and any(str(x).startswith(SCRATCH[0]) for x in a if isinstance(x, (str, os.PathLike))):
            Faults.op(name + ' ' + ' '.join(os.path.basename(str(x)) for x in a))
        return f(*a, **k)
    op.__name__ = name
    return op


SCRATCH = []


class Tokens(xr.backends.BackendArray):
    """the data of a variable of an open file, read and decoded when it is asked for"""
    def __init__(self, inner):
        self.inner, self.shape, self.dtype = inner, inner.shape, np.dtype(object)

    def __getitem__(self, key):
        r = self.inner[key]
        return decode(np.asarray(r.get_duck_array() if hasattr(r, 'get_duck_array') else r)).astype(object)


def _decode_ds(ds, path=None):
    if path is None:
        ds = ds.load()
    else:
        with RealDataset(path, 'r') as raw:
            tokens = {n for n, v in raw.variables.items()
                      if v.dtype != str and v.dtype.kind == 'f' and np.any(np.ma.getdata(v[:]) >= BASE)}
    for n in list(ds.variables):
        v = ds.variables[n]
        if path is None:
            if v.dtype.kind == 'f' and np.any(v.values >= BASE):
                ds[n] = (v.dims, decode(v.values), v.attrs)
        elif n in tokens:
            # as lazy as what xarray returns
            data = xr.core.indexing.LazilyIndexedArray(Tokens(v._data))
            ds[n] = xr.Variable(v.dims, xr.core.indexing.MemoryCachedArray(data), v.attrs)
    return ds


def install(symbolic):
    nc4.Dataset = Dataset
    for mod in list(sys.modules.values()):
        if mod is not None and getattr(mod, '__name__', '').startswith('sympl') \
                and getattr(mod, 'Dataset', None) is RealDataset:
            mod.Dataset = Dataset
    for n in _os:
        setattr(os, n, _wrap_os(n))
    if symbolic:
        xr.open_dataset = lambda *a, **k: _decode_ds(_real_open_dataset(*a, **k), a[0])
        xr.load_dataset = lambda *a, **k: _decode_ds(_real_load_dataset(*a, **k))


def scratch():
    """an empty scratch directory (the previous one is removed)"""
    Faults.off()
    Faults.incomplete.clear()
    del TABLE[:]
    if SCRATCH:
        d = SCRATCH[0]
        if os.path.isdir(d):
            for n in os.listdir(d):
                _os['remove'](os.path.join(d, n))
            return d
        del SCRATCH[:]
    d = tempfile.mkdtemp(prefix='nc-', dir=os.environ['SYMX_SCRATCH'])   # removed by check.py
    SCRATCH.append(d)
    return d


def forget():
    """called when the harness resets between paths"""
    Faults.off()


def read(path):
    """raw content of a file: {name: (dims, values, attrs)}"""
    ds = RealDataset(path, 'r')
    try:
        out = {}
        for n, v in ds.variables.items():
            out[n] = (v.dimensions, decode(v[:]), {k: v.getncattr(k) for k in v.ncattrs()})
        return out
    finally:
        ds.close()
