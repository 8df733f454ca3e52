"""Dynamic symbolic execution of the real sympl code with an SMT solver.

A *harness* is a Python function `fn(ctx, B)` that builds inputs through `ctx`, calls
sympl's public API and states the property through `ctx.check/close/same`.  The same
function runs in two modes:

* SymContext      inputs are symbolic; every truth value the code asks of a symbolic
                  value is decided by the solver (both outcomes explored when both are
                  feasible); obligations are decided by the solver for all values that
                  satisfy the path condition.
* ConcreteContext inputs come from a solver assignment; the unpatched code runs on
                  ordinary floats / datetimes.  Used to validate the encoding on every
                  path and to replay counterexamples.
"""
import datetime as _dt
import itertools
import math
import random
import signal
import time as _time
import zlib
import traceback
from fractions import Fraction

import numpy as np

from .z3load import z3
from . import terms
from .terms import (SymReal, SymBool, SymDelta, SymDate, p_add, p_mul, p_scale, p_eval,
                    p_vars, p_const, as_poly, EPOCH, CTX)

QUERY_TIMEOUT_MS = 20000


class PathAbort(BaseException):
    """path infeasible / assumption false"""


class PathTimeout(BaseException):
    pass


class Obligation(object):
    __slots__ = ('label', 'kind', 'a', 'b', 'tol')

    def __init__(self, label, kind, a=None, b=None, tol=None):
        self.label, self.kind, self.a, self.b, self.tol = label, kind, a, b, tol


def unwrap(x):
    """numpy view of a value (DataArray or scalar)"""
    if hasattr(x, 'values') and hasattr(x, 'dims'):
        return x.values
    return x


class BaseContext(object):
    current = None
    symbolic = False

    def __init__(self):
        self.reached = set()
        self._uniq = {}
        self._trail = 0
        BaseContext.current = self

    # ------------------------------------------------ derived helpers
    def _label(self, label):
        n = self._uniq.get(label, 0)
        self._uniq[label] = n + 1
        return label if n == 0 else '%s#%d' % (label, n)

    def choose(self, label, options):
        options = list(options)
        return options[self.choice(label, len(options))]

    def flag(self, label):
        return self.choice(label, 2) == 1

    def array(self, label, shape, lo=-8, hi=8, dtype=np.float64):
        """symbolic elements; an integer dtype restricts them to integers.  The dtype itself only
        exists in the concrete run (symbolic elements live in object arrays)"""
        missing = dtype == 'missing'      # the last element is NaN
        if missing:
            dtype = np.float64
        out = self._storage(label, tuple(shape), object if self.symbolic else dtype)
        new = self.integer if np.issubdtype(dtype, np.integer) else self.real
        for idx in np.ndindex(*shape):
            out[idx] = new('%s%s' % (label, list(idx)), lo, hi)
        if missing:
            out[tuple(n - 1 for n in shape)] = float('nan')
        return out

    def trail(self, label):
        """a number which depends on the choices made so far (the same in both runs)"""
        return zlib.crc32(('%s|%d' % (label, self._trail)).encode())

    def _storage(self, label, shape, dtype):
        """an array laid out in memory in one of several ways (a function of the label and of
        the choices made so far, the same in the symbolic and in the concrete run)"""
        k = zlib.crc32(('%s|%d' % (label, self._trail)).encode()) % 4
        if not shape or k == 0:
            return np.empty(shape, dtype=dtype)
        if k == 1:
            return np.empty(shape, dtype=dtype, order='F')
        if k == 2:        # part of a larger array
            return np.zeros(tuple(n + 1 for n in shape[:-1]) + (2 * shape[-1] + 1,), dtype=dtype)[
                tuple(slice(1, None) for _ in shape[:-1]) + (slice(1, None, 2),)]
        return np.empty(shape, dtype=dtype)[..., ::-1]

    def _took(self, label, k):
        self._trail = zlib.crc32(('%d|%s=%d' % (self._trail, label, k)).encode())
        return k

    def reach(self, label):
        self.reached.add(label)

    def names(self, label, n, pool):
        """n names; every equality pattern over a pool of admissible names, up to
        renaming of the pool's interchangeable members is explored by choice"""
        return [self.choose('%s%d' % (label, i), pool) for i in range(n)]

    def close(self, got, want, label, tol=1e-7):
        """got == want for all values up to `tol` (absolute)"""
        self._compare(got, want, label, tol)

    def same(self, got, want, label):
        """exact equality"""
        self._compare(got, want, label, None)

    def _compare(self, got, want, label, tol):
        g, w = np.asarray(unwrap(got), dtype=object), np.asarray(unwrap(want), dtype=object)
        if g.shape != w.shape:
            self.check(False, '%s: shape %s, expected %s' % (label, g.shape, w.shape))
            return
        for idx in np.ndindex(*g.shape):
            self._compare1(g[idx], w[idx], label + (str(list(idx)) if idx else ''), tol)

    def near(self, got, want, tol=None):
        """formula (SymBool / bool): same shape and |got - want| <= tol everywhere"""
        g, w = np.asarray(unwrap(got), dtype=object), np.asarray(unwrap(want), dtype=object)
        if g.shape != w.shape:
            return False
        r = True
        for idx in np.ndindex(*g.shape):
            if tol is None:
                c = g[idx] == w[idx]
            else:
                d = g[idx] - w[idx]
                c = (d <= tol) & (d >= -tol)
            if c is False:
                return False
            r = c if r is True else (r & c)
        return r

    def expect_exc(self, fn, exc, label):
        """fn must raise one of exc"""
        try:
            r = fn()
        except exc as e:
            self.check(True, label)
            return e
        self.check(False, label + ': no exception raised (returned %s)' % (type(r).__name__,))

    def distinct(self, names):
        """formula: pairwise different"""
        r = True
        for i, a in enumerate(names):
            for b in names[:i]:
                r = self.land(r, a != b)
        return r

    def land(self, *fs):
        r = True
        for f in fs:
            if f is True:
                continue
            if f is False:
                return False
            r = f if r is True else (r & f)
        return r

    def lor(self, *fs):
        r = False
        for f in fs:
            if f is False:
                continue
            if f is True:
                return True
            r = f if r is False else (r | f)
        return r

    def lnot(self, f):
        return (not f) if isinstance(f, (bool, np.bool_)) else ~f

    def iff(self, a, b):
        return self.lor(self.land(a, b), self.land(self.lnot(a), self.lnot(b)))

    def isin(self, name, names):
        return self.lor(*[name == n for n in names])

    def attempt(self, fn, exc):
        try:
            return fn(), None
        except exc as e:
            return None, e


class SymContext(BaseContext):
    symbolic = True

    def __init__(self, prefix=(), seed=0):
        BaseContext.__init__(self)
        self.prefix = list(prefix)
        self.decisions = []
        self.alternatives = []         # new prefixes discovered
        self.solver = z3.Solver()
        self.solver.set('timeout', QUERY_TIMEOUT_MS)
        self.zvars = {}                # varname -> z3 real-sorted term
        self.ivars = {}                # varname -> z3 Int constant (times, choices)
        self.box = {}                  # varname -> (lo, hi)
        self.kind = {}                 # varname -> 'real' | 'us' | 'date' | 'choice' | 'def'
        self.order = []                # input variables, in creation order
        self.defs = {}                 # reciprocal vars: name -> poly
        self.recips = {}               # varname -> reciprocal z3 var
        self.pcvars = set()
        self.obligations = []
        self.choices = {}              # label -> value
        self.queries = 0
        self.solver_time = 0.0
        self.unknowns = 0
        self.realised = 0
        self.branches = 0
        self.rng = random.Random(seed)

    # ------------------------------------------------ solver plumbing
    def _check(self, *assumptions):
        t = _time.time()
        r = self.solver.check(*assumptions)
        self.solver_time += _time.time() - t
        self.queries += 1
        if r == z3.unknown:
            self.unknowns += 1
        return r

    def _new_real(self, name, lo, hi, kind='real'):
        lo, hi = Fraction(lo), Fraction(hi)
        if kind == 'real':
            v = z3.Real(name)
            self.zvars[name] = v
            self.solver.add(v >= z3.Q(lo.numerator, lo.denominator),
                            v <= z3.Q(hi.numerator, hi.denominator))
        else:
            i = z3.Int(name)
            self.ivars[name] = i
            self.zvars[name] = z3.ToReal(i)
            self.solver.add(i >= int(lo), i <= int(hi))
        self.box[name] = (lo, hi)
        self.kind[name] = kind
        self.order.append(name)
        return {((name, 1),): Fraction(1)}

    def real(self, label, lo=-8, hi=8):
        return SymReal(self._new_real(self._label(label), lo, hi))

    def us(self, label, lo, hi):
        """integer microseconds"""
        return self._new_real(self._label(label), lo, hi, 'us')

    def integer(self, label, lo, hi):
        """symbolic integer (compared by the code under test, decided by the solver)"""
        return SymReal(self.us(label, lo, hi))

    def timedelta(self, label, lo, hi):
        lo, hi = _us_int(lo), _us_int(hi)
        return SymDelta(self.us(label, lo, hi))

    def date(self, label, lo=0, hi=400 * 86400 * 10**6):
        return SymDate(self._new_real(self._label(label), lo, hi, 'date'))

    def name(self, label, pool):
        """symbolic name (equality decided by the solver when the code asks)"""
        n = self._label(label)
        self._new_real(n, 0, len(pool) - 1, 'us')
        return terms.SymName(self.ivars[n], n, list(pool))

    def choice(self, label, n):
        name = self._label(label)
        i = z3.Int(name)
        self.solver.add(i >= 0, i < n)
        self.kind[name] = 'choice'
        pos = len(self.decisions)
        if pos < len(self.prefix):
            k = self.prefix[pos]
        else:
            k = 0
            for j in range(n - 1, 0, -1):
                self.alternatives.append(self.decisions + [j])
        self.decisions.append(k)
        self.branches += 1
        self.solver.add(i == k)
        self.choices[name] = k
        return self._took(name, k)

    # ------------------------------------------------ called by terms
    def z3poly(self, p):
        out = []
        for m, c in sorted(p.items()):
            t = z3.Q(c.numerator, c.denominator)
            for v, e in m:
                self.pcvars.add(v)
                base = self.zvars[v] if e > 0 else self._recip_of(v)
                for _ in range(abs(e)):
                    t = t * base
            out.append(t)
        if not out:
            return z3.RealVal(0)
        return z3.Sum(out) if len(out) > 1 else out[0]

    def _recip_of(self, v):
        if v not in self.recips:
            r = z3.Real('recip!' + v)
            self.solver.add(r * self.zvars[v] == 1)
            self.recips[v] = r
        return self.recips[v]

    def nonzero(self, v):
        lo, hi = self.box.get(v, (None, None))
        if lo is not None and (lo > 0 or hi < 0):
            return
        if v in self.recips:
            return
        if self.branch(self.zvars[v] == 0, vars_=[v]):
            raise ZeroDivisionError('division by zero')
        self._recip_of(v)

    def recip_var(self, p):
        if self.branch(self.z3poly(p) == 0):
            raise ZeroDivisionError('division by zero')
        key = tuple(sorted(p.items()))
        for n, q in self.defs.items():
            if isinstance(q, dict) and tuple(sorted(q.items())) == key:
                return n
        name = 'inv!%d' % len(self.defs)
        v = z3.Real(name)
        self.zvars[name] = v
        self.kind[name] = 'def'
        self.defs[name] = dict(p)
        self.solver.add(v * self.z3poly(p) == 1)
        return name

    def floor_div(self, p, n):
        """floor(p / n) for a positive constant n, as a new integer of the solver"""
        n = Fraction(n)
        if not p or (len(p) == 1 and () in p):
            return p_const(p.get((), Fraction(0)) // n)
        key = ('floor', tuple(sorted(p.items())), n)
        for name, q in self.defs.items():
            if isinstance(q, tuple) and ('floor', tuple(sorted(q[1].items())), q[2]) == key:
                return {((name, 1),): Fraction(1)}
        name = 'floor!%d' % len(self.defs)
        i = z3.Int(name)
        self.zvars[name] = z3.ToReal(i)
        self.kind[name] = 'def'
        self.defs[name] = ('floor', dict(p), n)
        zn = z3.Q(n.numerator, n.denominator)
        zp = self.z3poly(p)
        self.solver.add(z3.ToReal(i) * zn <= zp, zp < (z3.ToReal(i) + 1) * zn)
        return {((name, 1),): Fraction(1)}

    def branch(self, e, vars_=()):
        self.pcvars.update(vars_)
        self._note_vars(e)
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        pos = len(self.decisions)
        self.branches += 1
        if pos < len(self.prefix):
            k = self.prefix[pos]
        else:
            rt = self._check(e)
            rf = self._check(z3.Not(e))
            ft, ff = rt != z3.unsat, rf != z3.unsat
            if not ft and not ff:
                raise PathAbort('infeasible')
            k = 1 if ft else 0
            if ft and ff:
                self.alternatives.append(self.decisions + [0])
        self.decisions.append(k)
        self.solver.add(e if k else z3.Not(e))
        return bool(k)

    def _note_vars(self, e):
        pass   # variables are recorded by z3poly when the term is built

    def realise(self, p):
        """concretise: the path is restricted to one value (recorded, not exhaustive)"""
        if not p:
            return Fraction(0)
        if len(p) == 1 and () in p:
            return p[()]
        self.realised += 1
        env = self.generic()
        if env is None:
            raise PathAbort('infeasible')
        v = p_eval(p, env)
        for x in p_vars(p):
            if x in self.defs:
                continue
            val = env[x]
            self.solver.add(self.zvars[x] == z3.Q(val.numerator, val.denominator))
            self.pcvars.add(x)
        return v

    # ------------------------------------------------ assignments
    def _complete(self, env):
        for n, p in self.defs.items():
            if isinstance(p, tuple):
                env[n] = Fraction(p_eval(p[1], env) // p[2])
                continue
            d = p_eval(p, env)
            env[n] = 1 / d if d else Fraction(0)
        return env

    def _rand(self, v):
        lo, hi = self.box[v]
        if self.kind[v] == 'real':
            k = self.rng.randint(1, 63)
            x = lo + (hi - lo) * Fraction(k, 64) 
            return x
        return Fraction(self.rng.randint(int(lo), int(hi)))

    def _model_env(self, m):
        env = {}
        for v in self.order:
            term = self.ivars.get(v, self.zvars[v])
            val = m.eval(term, model_completion=True)
            if z3.is_algebraic_value(val):
                val = val.approx(40)
            env[v] = Fraction(val.numerator_as_long(), val.denominator_as_long()) \
                if z3.is_rational_value(val) else Fraction(val.as_long())
        return env

    def generic(self, extra=None):
        """a random assignment satisfying the path condition (and `extra`)"""
        env = {v: self._rand(v) for v in self.order}
        fixed = [v for v in self.order if v in self.pcvars]
        if extra is not None:
            fixed = list(self.order)
        if not fixed:
            return self._complete(env)
        s = self.solver
        s.push()
        try:
            if extra is not None:
                s.add(extra)
            eqs = {v: self.zvars[v] == z3.Q(env[v].numerator, env[v].denominator)
                   for v in fixed}
            r = self._check(*eqs.values())
            if r == z3.sat:
                return self._complete(env)
            r = self._check()
            if r != z3.sat:
                return None
            kept = []
            vs = list(fixed)
            self.rng.shuffle(vs)
            for v in vs[:8]:
                if self._check(*(kept + [eqs[v]])) == z3.sat:
                    kept.append(eqs[v])
            if self._check(*kept) != z3.sat:
                return None
            m = self._model_env(s.model())
            for v in fixed:
                env[v] = m[v]
            return self._complete(env)
        finally:
            s.pop()

    def assignment(self, env):
        """JSON-able inputs for ConcreteContext"""
        a = {k: ['c', v] for k, v in self.choices.items()}
        for v in self.order:
            k = self.kind[v]
            if k == 'real':
                a[v] = ['r', '%d/%d' % (env[v].numerator, env[v].denominator)]
            else:
                a[v] = ['i', int(env[v])]
        return a

    # ------------------------------------------------ property statements
    def assume(self, cond):
        e = terms.to_z3bool(cond)
        if e is None:
            e = z3.BoolVal(bool(cond))
        if z3.is_false(z3.simplify(e)):
            raise PathAbort('assumption')
        self.solver.add(e)
        if len(self.decisions) >= len(self.prefix) and self._check() == z3.unsat:
            raise PathAbort('assumption')

    def check(self, cond, label):
        if isinstance(cond, SymBool):
            self.obligations.append(Obligation(label, 'bool', cond.e))
        else:
            self.obligations.append(Obligation(label, 'const', bool(cond)))

    def _compare1(self, g, w, label, tol):
        pg, pw = as_poly(g), as_poly(w)
        if pg is None or pw is None:
            ok = (g is w) or (type(g) == type(w) and bool(g == w)) or \
                (isinstance(g, float) and isinstance(w, float) and g != g and w != w)
            self.check(ok, label + (' (%r vs %r)' % (g, w) if not ok else ''))
            return
        self.obligations.append(Obligation(label, 'num', pg, pw, 0 if tol is None else tol))

    # ------------------------------------------------ discharge
    def _mono_bound(self, m):
        lo, hi = Fraction(1), Fraction(1)
        for v, e in m:
            if v not in self.box:
                return None
            a, b = self.box[v]
            if e < 0:
                if a <= 0 <= b:
                    return None
                a, b = 1 / b, 1 / a
            for _ in range(abs(e)):
                c = [lo * a, lo * b, hi * a, hi * b]
                lo, hi = min(c), max(c)
        return lo, hi

    def discharge(self, deadline=None):
        """-> (stats, violations[(label, env)])"""
        st = dict(obligations=len(self.obligations), discharged=0, undecided=0)
        viol = []
        nums, bools = [], []
        for o in self.obligations:
            if o.kind == 'const':
                if o.a:
                    st['discharged'] += 1
                else:
                    viol.append((o.label, None))
            elif o.kind == 'num':
                nums.append(o)
            else:
                bools.append(o)
        if bools:
            r = self._check(z3.Or([z3.Not(o.a) for o in bools]))
            if r == z3.unsat:
                st['discharged'] += len(bools)
            else:
                for o in bools:
                    self.pcvars.update(self.order)
                    env = self.generic(z3.Not(o.a))
                    if env is None:
                        r1 = self._check(z3.Not(o.a))
                        if r1 == z3.unsat:
                            st['discharged'] += 1
                        else:
                            st['undecided'] += 1
                    else:
                        viol.append((o.label, env))
        if nums:
            # linear abstraction: one bounded real per monomial; unsat is sound
            s = z3.Solver()
            s.set('timeout', QUERY_TIMEOUT_MS)
            mv = {}

            def term(p):
                out = []
                for m, c in p.items():
                    q = z3.Q(c.numerator, c.denominator)
                    if m == ():
                        out.append(q)
                        continue
                    if m not in mv:
                        x = z3.Real('m!%d' % len(mv))
                        mv[m] = x
                        b = self._mono_bound(m)
                        if b is not None:
                            s.add(x >= z3.Q(b[0].numerator, b[0].denominator),
                                  x <= z3.Q(b[1].numerator, b[1].denominator))
                    out.append(q * mv[m])
                return z3.Sum(out) if out else z3.RealVal(0)
            bad = []
            for o in nums:
                t = Fraction(o.tol)
                d = term(o.a) - term(o.b)
                t = z3.Q(t.numerator, t.denominator)
                bad.append(z3.Or(d > t, -d > t))
            t0 = _time.time()
            r = s.check(z3.Or(bad))
            self.solver_time += _time.time() - t0
            self.queries += 1
            if r == z3.unsat:
                st['discharged'] += len(nums)
            else:
                suspects = []
                for o, b in zip(nums, bad):
                    t0 = _time.time()
                    r = s.check(b)
                    self.solver_time += _time.time() - t0
                    self.queries += 1
                    if r == z3.unsat:
                        st['discharged'] += 1
                    else:
                        suspects.append(o)
                pts = [self.generic() for _ in range(4)] if suspects else []
                pts = [e for e in pts if e is not None]
                n_exact = 0
                for o in suspects:
                    d = p_add(o.a, o.b, -1)
                    hit = [e for e in pts if abs(p_eval(d, e)) > Fraction(o.tol)]
                    if hit:
                        hit.sort(key=lambda e: -abs(p_eval(d, e)))
                        viol.append((o.label, hit[0]))
                        continue
                    if n_exact >= 6:
                        st['undecided'] += 1
                        continue
                    n_exact += 1
                    # ask for a large violation first: it survives float rounding
                    env = None
                    dz = self.z3poly(d)
                    for tol in ([Fraction(1, 100)] if o.tol < 0.01 else []) + [Fraction(o.tol)]:
                        t = z3.Q(tol.numerator, tol.denominator)
                        r = self._check(z3.Or(dz > t, -dz > t))
                        if r == z3.sat:
                            env = self._complete(self._model_env(self.solver.model()))
                            break
                    if env is not None:
                        viol.append((o.label, env))
                    elif r == z3.unsat:
                        st['discharged'] += 1
                    else:
                        st['undecided'] += 1
        out = []
        for label, env in viol:
            if env is None:
                env = self.generic()
            if env is not None:
                out.append((label, env))
            else:
                st['undecided'] += 1
        return st, out


def _us_int(x):
    if isinstance(x, _dt.timedelta):
        return (x.days * 86400 + x.seconds) * 10**6 + x.microseconds
    return int(x)


class AssumptionFailed(BaseException):
    pass


class ConcreteContext(BaseContext):
    symbolic = False

    def __init__(self, assignment):
        BaseContext.__init__(self)
        self.a = assignment
        self.failures = []
        self.checks = 0
        self.missing = 0

    def _get(self, label, default):
        name = self._label(label)
        if name in self.a:
            k, v = self.a[name]
            return Fraction(v) if k == 'r' else v
        self.missing += 1
        return default

    def real(self, label, lo=-8, hi=8):
        return float(self._get(label, Fraction(lo) + (Fraction(hi) - Fraction(lo)) / 3))

    def us(self, label, lo, hi):
        return int(self._get(label, int(lo)))

    def integer(self, label, lo, hi):
        return self.us(label, lo, hi)

    def timedelta(self, label, lo, hi):
        return _dt.timedelta(microseconds=self.us(label, _us_int(lo), _us_int(hi)))

    def date(self, label, lo=0, hi=0):
        return EPOCH + _dt.timedelta(microseconds=int(self._get(label, int(lo))))

    def name(self, label, pool):
        return list(pool)[min(int(self._get(label, 0)), len(pool) - 1)]

    def choice(self, label, n):
        name = self._label(label)
        self._uniq[label] -= 1
        return self._took(name, min(int(self._get(label, 0)), n - 1))

    def assume(self, cond):
        if not bool(cond):
            raise AssumptionFailed()

    def check(self, cond, label):
        self.checks += 1
        if not bool(cond):
            self.failures.append(label)

    def _compare1(self, g, w, label, tol):
        self.checks += 1
        try:
            if tol is None:
                ok = bool(g == w) or (g != g and w != w) or g is w
            else:
                g, w = float(g), float(w)
                ok = abs(g - w) <= tol * 2 or (g != g and w != w) or g == w
        except Exception:
            ok = False
        if not ok:
            self.failures.append('%s: got %r, expected %r' % (label, g, w))


# ---------------------------------------------------------------- exploring
def run_symbolic(fn, bounds, prefix, seed, reset, path_seconds=60):
    """one path; -> dict"""
    ctx = SymContext(prefix, seed)
    CTX[0] = ctx
    res = dict(status='ok', exc=None)
    reset()

    def onalarm(sig, frame):
        raise PathTimeout()
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(path_seconds)
    try:
        try:
            fn(ctx, bounds)
        except PathAbort as e:
            res['status'] = 'abort'
        except PathTimeout:
            res['status'] = 'timeout'
        except Exception as e:
            res['status'] = 'exception'
            res['exc'] = '%s: %s' % (type(e).__name__, str(e)[:300])
            res['tb'] = traceback.format_exc()[-2500:]
        res['assignments'] = []
        res['violations'] = []
        res['obl'] = dict(obligations=0, discharged=0, undecided=0)
        if res['status'] in ('ok', 'exception'):
            try:
                env = ctx.generic()
            except PathTimeout:
                env = None
            if env is None:
                res['status'] = 'infeasible' if res['status'] == 'ok' else res['status']
            else:
                res['assignments'].append(ctx.assignment(env))
            if env is not None:
                try:
                    st, viol = ctx.discharge()
                    res['obl'] = st
                    res['violations'] = [(l, ctx.assignment(e)) for l, e in viol[:6]]
                except PathTimeout:
                    res['status'] = 'timeout'
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        CTX[0] = None
    res.update(decisions=ctx.decisions, alternatives=ctx.alternatives, queries=ctx.queries,
               solver_time=ctx.solver_time, unknowns=ctx.unknowns, realised=ctx.realised,
               branches=ctx.branches, reached=sorted(ctx.reached), nvars=len(ctx.order),
               choices=dict(ctx.choices))
    return res


def run_concrete(fn, bounds, assignment, reset):
    ctx = ConcreteContext(assignment)
    reset()
    res = dict(status='ok', exc=None)
    try:
        fn(ctx, bounds)
    except AssumptionFailed:
        res['status'] = 'assume'
    except Exception as e:
        res['status'] = 'exception'
        res['exc'] = '%s: %s' % (type(e).__name__, str(e)[:300])
        res['tb'] = traceback.format_exc()[-2500:]
    res['failures'] = ctx.failures
    res['checks'] = ctx.checks
    res['missing'] = ctx.missing
    return res
