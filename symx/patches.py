"""Environment of the two kinds of runs.

symbolic processes : float allocations made by sympl become object-dtype (so that they can
                     hold symbolic reals) and `float(x)` inside sympl keeps symbolic reals.
concrete processes : only np.empty is touched: uninitialised float memory requested by
                     sympl holds POISON (a legal content of uninitialised memory), so that a
                     read of uninitialised memory is reproducible.
"""
import builtins
import sys

import numpy as np

from . import terms
from .terms import SymReal

POISON = 8.0e33


def _from_sympl(depth=2):
    f = sys._getframe(depth)
    name = f.f_globals.get('__name__', '')
    return name == 'sympl' or name.startswith('sympl.')


def _is_floating(dtype):
    if dtype is None:
        return True
    if dtype is _SymFloat:
        return True
    try:
        return np.dtype(dtype).kind == 'f'
    except TypeError:
        return False


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.float, SymReal))

    def __subclasscheck__(cls, c):
        return issubclass(c, (builtins.float, SymReal))

    def __eq__(cls, other):
        return other is cls or other is builtins.float

    def __hash__(cls):
        return hash(builtins.float)


class _SymFloat(builtins.float, metaclass=_FloatMeta):
    """stands for the builtin `float` inside sympl modules during symbolic runs"""
    def __new__(cls, x=0.0):
        if isinstance(x, SymReal):
            return x
        if isinstance(x, np.ndarray) and x.dtype == object and x.ndim == 0:
            return cls(x.item())
        if hasattr(x, 'dims') and hasattr(x, 'values') and x.ndim == 0:
            return cls(x.values)
        return builtins.float(x)


def _garbage(shape):
    out = _np_empty(shape, dtype=object)
    c = terms.CTX[0]
    for idx in np.ndindex(*out.shape):
        out[idx] = POISON
    return out


_np_empty = np.empty
_np_empty_like = np.empty_like


def install_symbolic():
    orig = {n: getattr(np, n) for n in ('zeros', 'ones', 'full', 'array', 'asarray',
                                         'zeros_like', 'ones_like', 'full_like',
                                         'asanyarray', 'ascontiguousarray',
                                         'isnan', 'isfinite', 'isinf')}

    def fixdtype(dtype):
        return object if (dtype is not None and _is_floating(dtype)) else dtype

    def zeros(shape, dtype=float, *a, **k):
        if _from_sympl() and _is_floating(dtype):
            out = orig['zeros'](shape, object)
            out[...] = 0.0
            return out
        return orig['zeros'](shape, dtype, *a, **k)

    def ones(shape, dtype=None, *a, **k):
        if _from_sympl() and _is_floating(dtype):
            out = _np_empty(shape, dtype=object)
            out[...] = 1.0
            return out
        return orig['ones'](shape, dtype, *a, **k)

    def full(shape, fill_value, dtype=None, *a, **k):
        if _from_sympl() and (dtype is None and np.asarray(fill_value).dtype.kind in 'fO'
                              or dtype is not None and _is_floating(dtype)):
            out = _np_empty(shape, dtype=object)
            out[...] = fill_value
            return out
        return orig['full'](shape, fill_value, dtype, *a, **k)

    def empty(shape, dtype=float, *a, **k):
        if _from_sympl() and (_is_floating(dtype) or np.dtype(dtype) == object):
            return _garbage(shape)
        return _np_empty(shape, dtype, *a, **k)

    def empty_like(x, dtype=None, *a, **k):
        if _from_sympl() and (dtype is None and np.asarray(x).dtype.kind in 'fO'
                              or dtype is not None and _is_floating(dtype)):
            return _garbage(np.shape(x))
        return _np_empty_like(x, dtype, *a, **k)

    def zeros_like(x, dtype=None, *a, **k):
        r = orig['zeros_like'](x, fixdtype(dtype) if _from_sympl() else dtype, *a, **k)
        if _from_sympl() and isinstance(r, np.ndarray) and type(r) is np.ndarray and \
                dtype is None and r.dtype.kind == 'f':
            r = r.astype(object)
        return r

    def ones_like(x, dtype=None, *a, **k):
        r = orig['ones_like'](x, fixdtype(dtype) if _from_sympl() else dtype, *a, **k)
        if _from_sympl() and type(r) is np.ndarray and dtype is None and r.dtype.kind == 'f':
            r = r.astype(object)
        return r

    def full_like(x, fill_value, dtype=None, *a, **k):
        if _from_sympl() and (dtype is None and np.asarray(x).dtype.kind in 'fO'
                              or dtype is not None and _is_floating(dtype)):
            out = _np_empty(np.shape(x), dtype=object)
            out[...] = fill_value
            return out
        return orig['full_like'](x, fill_value, dtype, *a, **k)

    def mk(name):
        f = orig[name]

        def conv(x, dtype=None, *a, **k):
            if dtype is not None and _from_sympl() and _is_floating(dtype):
                dtype = object
            return f(x, dtype, *a, **k)
        conv.__name__ = name
        return conv

    def mkpred(name, value):
        f = orig[name]

        def pred(x, *a, **k):
            arr = getattr(x, 'values', x)
            if isinstance(arr, SymReal):
                return value
            if isinstance(arr, np.ndarray) and arr.dtype == object:
                out = _np_empty(arr.shape, dtype=bool)
                for idx in np.ndindex(*arr.shape):
                    e = arr[idx]
                    out[idx] = value if isinstance(e, SymReal) else bool(f(e))
                return out if out.ndim else bool(out)
            return f(x, *a, **k)
        return pred

    np.zeros, np.ones, np.full, np.empty = zeros, ones, full, empty
    np.empty_like, np.zeros_like, np.ones_like = empty_like, zeros_like, ones_like
    np.full_like = full_like
    for n in ('array', 'asarray', 'asanyarray', 'ascontiguousarray'):
        setattr(np, n, mk(n))
    np.isnan, np.isinf = mkpred('isnan', False), mkpred('isinf', False)
    np.isfinite = mkpred('isfinite', True)
    for name, mod in list(sys.modules.items()):
        if (name == 'sympl' or name.startswith('sympl.')) and mod is not None \
                and 'float' not in mod.__dict__:
            mod.__dict__['float'] = _SymFloat


def install_concrete():
    def empty(shape, dtype=float, *a, **k):
        out = _np_empty(shape, dtype, *a, **k)
        if _from_sympl() and out.dtype.kind == 'f':
            out[...] = POISON
        return out

    def empty_like(x, *a, **k):
        out = _np_empty_like(x, *a, **k)
        if _from_sympl() and isinstance(out, np.ndarray) and out.dtype.kind == 'f':
            out[...] = POISON
        return out
    np.empty, np.empty_like = empty, empty_like


# ---------------------------------------------------------------- world reset
import collections
import weakref

_CONTAINERS = (dict, list, set, collections.deque, weakref.WeakSet, weakref.WeakKeyDictionary,
               weakref.WeakValueDictionary)


def _copy(x, depth=0):
    """content of a container (raw, bypassing overridden accessors)"""
    if isinstance(x, dict):
        return {k: _copy(v, depth + 1) if depth < 4 else v for k, v in dict.items(x)}
    if isinstance(x, list):
        return [_copy(v, depth + 1) if depth < 4 else v for v in x]
    if isinstance(x, set):
        return set(x)
    if isinstance(x, (collections.deque, weakref.WeakSet)):
        return list(x)
    if isinstance(x, (weakref.WeakKeyDictionary, weakref.WeakValueDictionary)):
        return dict(x.items())
    if depth > 0 and hasattr(x, 'dims') and hasattr(x, 'copy'):
        return x.copy(deep=True)
    return x


def _refill(obj, saved):
    fresh = _copy(saved)
    if isinstance(obj, dict):
        dict.clear(obj)
        dict.update(obj, fresh)
    elif isinstance(obj, list):
        obj[:] = fresh
    elif isinstance(obj, collections.deque):
        obj.clear()
        obj.extend(fresh)
    else:
        obj.clear()
        obj.update(fresh)


class World(object):
    """Snapshot of every mutable global, class attribute and default argument of sympl, so
    that each path starts from the state of a freshly imported library."""

    def __init__(self):
        import types
        self.bind, self.cont, self.caches = [], [], []
        seen = set()

        def note(obj):
            if isinstance(obj, _CONTAINERS) and id(obj) not in seen:
                seen.add(id(obj))
                self.cont.append((obj, _copy(obj)))

        def func(f):
            for d in (getattr(f, '__defaults__', None) or ()):
                note(d)
            for d in (getattr(f, '__kwdefaults__', None) or {}).values():
                note(d)
            if hasattr(f, 'cache_clear'):
                self.caches.append(f)
            if isinstance(f, types.FunctionType):
                for d in f.__dict__.values():
                    note(d)

        def cls(c):
            if id(c) in seen:
                return
            seen.add(id(c))
            for k, v in list(vars(c).items()):
                if k.startswith('__') or k.startswith('_abc'):
                    if k in ('__init__', '__call__'):
                        func(v)
                    continue
                if isinstance(v, (staticmethod, classmethod)):
                    func(v.__func__)
                elif callable(v):
                    func(v)
                elif isinstance(v, property):
                    pass
                else:
                    note(v)
                    if type(v) in (int, float, str, bool, type(None), tuple):
                        self.bind.append((c, k, v, True))
        for name, mod in list(sys.modules.items()):
            if not (name == 'sympl' or name.startswith('sympl.')) or mod is None:
                continue
            for k, v in list(vars(mod).items()):
                if k.startswith('__'):
                    continue
                if isinstance(v, types.ModuleType):
                    continue
                self.bind.append((mod, k, v, False))
                if isinstance(v, type):
                    if getattr(v, '__module__', '').startswith('sympl'):
                        cls(v)
                elif isinstance(v, types.FunctionType) or hasattr(v, 'cache_clear'):
                    if getattr(v, '__module__', '').startswith('sympl'):
                        func(v)
                else:
                    note(v)
                    if getattr(type(v), '__module__', '').startswith('sympl') and \
                            hasattr(v, '__dict__') and 'registry' not in type(v).__name__.lower():
                        for kk, vv in list(vars(v).items()):
                            note(vv)

    def reset(self):
        for o, k, v, is_cls in self.bind:
            if is_cls:
                if o.__dict__.get(k, None) is not v:
                    setattr(o, k, v)
            elif o.__dict__.get(k, None) is not v:
                o.__dict__[k] = v
        for obj, saved in self.cont:
            _refill(obj, saved)
        for f in self.caches:
            f.cache_clear()
