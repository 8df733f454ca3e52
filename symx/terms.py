"""Symbolic values used to execute the real sympl code.

SymReal   : exact real value, kept as a (Laurent) polynomial over symbolic inputs
SymBool   : a formula; asking for its truth value forks the execution
SymDelta  : a symbolic datetime.timedelta (integer microseconds)
SymDate   : a symbolic datetime.datetime (integer microseconds from an epoch)

Every object delegates decisions to the *current* engine context
(`symx.engine.current()`), which asks the SMT solver which outcomes are feasible.
"""
import datetime as _dt
import numbers
from fractions import Fraction

import numpy as np
from .z3load import z3

EPOCH = _dt.datetime(2000, 1, 1)
CTX = [None]          # current symbolic context (set by the engine)


class SymUnsupported(Exception):
    """The symbolic value met an operation the engine does not model."""


def ctx():
    c = CTX[0]
    if c is None:
        raise RuntimeError('symbolic value used outside of a symbolic run')
    return c


# ------------------------------------------------------------------ polynomials
# poly: dict  monomial -> Fraction ; monomial: tuple of (varname, exponent) sorted

def p_const(c):
    c = Fraction(c)
    return {(): c} if c else {}


def p_add(a, b, sb=1):
    r = dict(a)
    for m, c in b.items():
        n = r.get(m, 0) + sb * c
        if n:
            r[m] = n
        else:
            r.pop(m, None)
    return r


def m_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for v, e in m2:
        n = d.get(v, 0) + e
        if n:
            d[v] = n
        else:
            d.pop(v, None)
    return tuple(sorted(d.items()))


def p_mul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m_mul(m1, m2)
            n = r.get(m, 0) + c1 * c2
            if n:
                r[m] = n
            else:
                r.pop(m, None)
    return r


def p_scale(a, k):
    if not k:
        return {}
    return {m: c * k for m, c in a.items()}


def p_eval(p, env):
    t = Fraction(0)
    for m, c in p.items():
        x = c
        for v, e in m:
            x *= env[v] ** e
        t += x
    return t


def p_vars(p):
    return {v for m in p for v, _ in m}


# ------------------------------------------------------------------ booleans
class SymBool(object):
    __slots__ = ('e',)
    __hash__ = None

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ctx().branch(self.e)

    def __and__(self, o):
        o = to_z3bool(o)
        return NotImplemented if o is None else SymBool(z3.And(self.e, o))
    __rand__ = __and__

    def __or__(self, o):
        o = to_z3bool(o)
        return NotImplemented if o is None else SymBool(z3.Or(self.e, o))
    __ror__ = __or__

    def __xor__(self, o):
        o = to_z3bool(o)
        return NotImplemented if o is None else SymBool(z3.Xor(self.e, o))
    __rxor__ = __xor__

    def __invert__(self):
        return SymBool(z3.Not(self.e))

    def logical_not(self):
        return SymBool(z3.Not(self.e))

    def __eq__(self, o):
        o = to_z3bool(o)
        return NotImplemented if o is None else SymBool(self.e == o)

    def __ne__(self, o):
        o = to_z3bool(o)
        return NotImplemented if o is None else SymBool(self.e != o)

    def __repr__(self):
        return 'SymBool(%s)' % self.e

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def to_z3bool(o):
    if isinstance(o, SymBool):
        return o.e
    if isinstance(o, (bool, np.bool_)):
        return z3.BoolVal(bool(o))
    return None


# ------------------------------------------------------------------ names
class SymName(str):
    """a symbolic name out of a finite pool; equalities are decided lazily by the solver.
    Hashes alike for all symbolic names, so dict and set operations ask for equality.
    (The str content is only a placeholder for messages.)"""

    def __new__(cls, i, var, pool):
        self = str.__new__(cls, '<%s>' % var)
        self.i, self.var, self.pool = i, var, list(pool)
        return self

    def __eq__(self, o):
        if isinstance(o, SymName):
            if o is self:
                return True
            ctx().pcvars.update((self.var, o.var))
            return SymBool(self.i == o.i)
        if isinstance(o, str) and o in self.pool:
            ctx().pcvars.add(self.var)
            return SymBool(self.i == self.pool.index(o))
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        return 77

    def __lt__(self, o):
        ctx().pcvars.update((self.var, o.var))
        return SymBool(self.i < o.i)

    def __gt__(self, o):
        ctx().pcvars.update((self.var, o.var))
        return SymBool(self.i > o.i)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


# ------------------------------------------------------------------ reals
def as_poly(x):
    """poly of a scalar, or None when x is not a scalar number"""
    if type(x) is SymReal:
        return x.p
    if isinstance(x, SymReal):
        return x.p
    if isinstance(x, (bool, np.bool_)):
        return p_const(int(x))
    if isinstance(x, (int, np.integer)):
        return p_const(int(x))
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if x != x or x in (float('inf'), float('-inf')):
            return None
        return p_const(Fraction(x))
    if isinstance(x, Fraction):
        return p_const(x)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return as_poly(x.item())
    return None


def special(x):
    """NaN or an infinity, which are not symbolic: as a float"""
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if x != x or x in (float('inf'), float('-inf')):
            return x
    return None


def special_result(o, keep):
    """result of an operation of a (finite) symbolic real with NaN or, when `keep`, an infinity"""
    x = special(o)
    if x is None or (x == x and not keep):
        return NotImplemented
    return x


class SymReal(numbers.Number):
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p

    # arithmetic -------------------------------------------------------
    def __add__(self, o):
        b = as_poly(o)
        return special_result(o, True) if b is None else SymReal(p_add(self.p, b))
    __radd__ = __add__

    def __sub__(self, o):
        b = as_poly(o)
        if b is None:
            x = special_result(o, True)
            return x if x is NotImplemented else -x
        return SymReal(p_add(self.p, b, -1))

    def __rsub__(self, o):
        b = as_poly(o)
        return special_result(o, True) if b is None else SymReal(p_add(b, self.p, -1))

    def __mul__(self, o):
        b = as_poly(o)
        return special_result(o, False) if b is None else SymReal(p_mul(self.p, b))
    __rmul__ = __mul__

    def __truediv__(self, o):
        b = as_poly(o)
        return special_result(o, False) if b is None else SymReal(p_mul(self.p, recip(b)))

    def __rtruediv__(self, o):
        b = as_poly(o)
        return special_result(o, False) if b is None else SymReal(p_mul(b, recip(self.p)))

    def __pow__(self, o):
        b = as_poly(o)
        if b is None or len(b) > 1 or (b and () not in b):
            return NotImplemented
        k = b.get((), Fraction(0))
        if k.denominator != 1:
            return float(self) ** float(k)
        k = int(k)
        base = self.p if k >= 0 else recip(self.p)
        r = p_const(1)
        for _ in range(abs(k)):
            r = p_mul(r, base)
        return SymReal(r)

    def __neg__(self):
        return SymReal(p_scale(self.p, -1))

    def __pos__(self):
        return self

    def __abs__(self):
        return -self if self < 0 else self

    def conjugate(self):
        return self

    def __floordiv__(self, o):
        b = as_poly(o)
        if b is None:
            return NotImplemented
        if len(b) == 1 and b.get((), 0) > 0:
            return SymReal(ctx().floor_div(self.p, b[()]))
        return float(self) // float(o)

    def __floor__(self):
        return SymReal(ctx().floor_div(self.p, 1))

    def __ceil__(self):
        return -SymReal(ctx().floor_div(p_scale(self.p, -1), 1))

    def __divmod__(self, o):
        return self // o, self % o

    def __rfloordiv__(self, o):
        return float(o) // float(self)

    def __mod__(self, o):
        b = as_poly(o)
        if b is None:
            return NotImplemented
        if len(b) == 1 and b.get((), 0) > 0:
            return SymReal(p_add(self.p, p_mul(ctx().floor_div(self.p, b[()]), b), -1))
        return float(self) % float(o)

    # comparisons ------------------------------------------------------
    def _cmp(self, o, op):
        b = as_poly(o)
        if b is None:
            x = special(o)
            if x is None:
                return NotImplemented
            return {'<': x > 0, '<=': x > 0, '>': x < 0, '>=': x < 0, '==': False, '!=': True}[op]
        d = p_add(self.p, b, -1)
        if not d or (len(d) == 1 and () in d):
            c = d.get((), Fraction(0))
            return {'<': c < 0, '<=': c <= 0, '>': c > 0, '>=': c >= 0,
                    '==': c == 0, '!=': c != 0}[op]
        e = ctx().z3poly(d)
        z = {'<': e < 0, '<=': e <= 0, '>': e > 0, '>=': e >= 0,
             '==': e == 0, '!=': e != 0}[op]
        return SymBool(z)

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    def __eq__(self, o):
        return self._cmp(o, '==')

    def __ne__(self, o):
        return self._cmp(o, '!=')

    def __hash__(self):
        return 7

    def __bool__(self):
        return bool(self != 0)

    # realisation ------------------------------------------------------
    def __float__(self):
        return float(ctx().realise(self.p))

    def __int__(self):
        return int(ctx().realise(self.p))

    def __index__(self):
        v = ctx().realise(self.p)
        if v.denominator != 1:
            raise TypeError('not an integer')
        return int(v)

    def is_integer(self):
        return float(self).is_integer()

    def item(self):
        return self

    def __round__(self, n=None):
        return round(float(self), n)

    def __repr__(self):
        return 'SymReal(%s)' % (' + '.join(
            '%s%s' % (float(c), ''.join('*%s^%d' % t for t in m))
            for m, c in sorted(self.p.items())) or '0')

    def __format__(self, spec):
        return repr(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def recip(p):
    if len(p) == 1:
        (m, c), = p.items()
        for v, e in m:
            if e > 0:
                ctx().nonzero(v)
        return {tuple((v, -e) for v, e in m): 1 / c}
    if not p:
        raise ZeroDivisionError('symbolic division by zero')
    return {((ctx().recip_var(p), 1),): Fraction(1)}


# ------------------------------------------------------------------ time
def _us(d):
    """microseconds (poly) of a timedelta-like, or None"""
    if isinstance(d, SymDelta):
        return d.us
    if isinstance(d, _dt.timedelta):
        return p_const((d.days * 86400 + d.seconds) * 1000000 + d.microseconds)
    return None


class SymDelta(_dt.timedelta):
    def __new__(cls, us):
        s = _dt.timedelta.__new__(cls, 0)
        s.us = us
        return s

    def total_seconds(self):
        return SymReal(p_scale(self.us, Fraction(1, 1000000)))

    @property
    def days(self):
        return SymReal(ctx().floor_div(self.us, 86400000000))

    @property
    def seconds(self):
        return SymReal(self.us) % 86400000000 // 1000000

    @property
    def microseconds(self):
        return SymReal(self.us) % 1000000

    def __add__(self, o):
        b = _us(o)
        if b is not None:
            return SymDelta(p_add(self.us, b))
        if isinstance(o, _dt.datetime):
            return SymDate(p_add(_dus(o), self.us))
        return NotImplemented
    __radd__ = __add__

    def __sub__(self, o):
        b = _us(o)
        return NotImplemented if b is None else SymDelta(p_add(self.us, b, -1))

    def __rsub__(self, o):
        b = _us(o)
        if b is not None:
            return SymDelta(p_add(b, self.us, -1))
        if isinstance(o, _dt.datetime):
            return SymDate(p_add(_dus(o), self.us, -1))
        return NotImplemented

    def __mul__(self, o):
        b = as_poly(o)
        return NotImplemented if b is None else SymDelta(p_mul(self.us, b))
    __rmul__ = __mul__

    def __truediv__(self, o):
        b = _us(o)
        if b is not None:
            return SymReal(p_mul(self.us, recip(b)))
        b = as_poly(o)
        return NotImplemented if b is None else SymDelta(p_mul(self.us, recip(b)))

    def __rtruediv__(self, o):
        b = _us(o)
        return NotImplemented if b is None else SymReal(p_mul(b, recip(self.us)))

    def __floordiv__(self, o):
        b = _us(o)
        if b is None:
            return NotImplemented
        return SymReal(self.us) // SymReal(b)

    def __mod__(self, o):
        b = _us(o)
        if b is None:
            return NotImplemented
        if len(b) == 1 and b.get((), 0) > 0:
            return SymDelta((SymReal(self.us) % SymReal(b)).p)
        return _dt.timedelta(microseconds=int(ctx().realise(self.us) % ctx().realise(b)))

    def __rmod__(self, o):
        return NotImplemented if _us(o) is None else SymDelta(_us(o)) % self

    def __divmod__(self, o):
        return self // o, self % o

    def __neg__(self):
        return SymDelta(p_scale(self.us, -1))

    def __pos__(self):
        return self

    def __abs__(self):
        return -self if self < _dt.timedelta(0) else self

    def _cmp(self, o, op):
        b = _us(o)
        if b is None:
            return NotImplemented
        return SymReal(self.us)._cmp(SymReal(b), op)

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    def __eq__(self, o):
        r = self._cmp(o, '==')
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, '!=')
        return True if r is NotImplemented else r

    def __hash__(self):
        return 13

    def __bool__(self):
        return bool(SymReal(self.us) != 0)

    def __repr__(self):
        return 'SymDelta(%r us)' % SymReal(self.us)
    __str__ = __repr__

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def _dus(d):
    if isinstance(d, SymDate):
        return d.us
    if isinstance(d, _dt.datetime):
        return _us(d - EPOCH)
    return None


class SymDate(_dt.datetime):
    def __new__(cls, us):
        s = _dt.datetime.__new__(cls, 2000, 1, 1)
        s.us = us
        return s

    def __add__(self, o):
        b = _us(o)
        return NotImplemented if b is None else SymDate(p_add(self.us, b))
    __radd__ = __add__

    def __sub__(self, o):
        b = _us(o)
        if b is not None:
            return SymDate(p_add(self.us, b, -1))
        b = _dus(o)
        return NotImplemented if b is None else SymDelta(p_add(self.us, b, -1))

    def __rsub__(self, o):
        b = _dus(o)
        return NotImplemented if b is None else SymDelta(p_add(b, self.us, -1))

    def _cmp(self, o, op):
        b = _dus(o)
        if b is None:
            return NotImplemented
        return SymReal(self.us)._cmp(SymReal(b), op)

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    def __eq__(self, o):
        r = self._cmp(o, '==')
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, '!=')
        return True if r is NotImplemented else r

    def __hash__(self):
        return 17

    def _real(self):
        return EPOCH + _dt.timedelta(microseconds=int(ctx().realise(self.us)))

    def replace(self, *a, **k):
        return self._real().replace(*a, **k)

    def strftime(self, f):
        return self._real().strftime(f)

    def isoformat(self, *a, **k):
        return self._real().isoformat(*a, **k)

    def timetuple(self):
        return self._real().timetuple()

    def __repr__(self):
        return 'SymDate(%r us)' % SymReal(self.us)

    def __str__(self):
        return 'SymDate<%r>' % SymReal(self.us)

    def __format__(self, spec):
        return str(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self
