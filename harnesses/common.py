"""Helpers shared by the harnesses (no sympl internals: public API only)."""
import datetime as dt
import warnings
from fractions import Fraction as F

import numpy as np
import sympl
from sympl import DataArray
from symx.engine import BaseContext
from symx.runner import Harness
from symx.terms import SymReal

warnings.simplefilter('ignore')
DAY = dt.timedelta(days=1)
SEC = dt.timedelta(seconds=1)
US = dt.timedelta(microseconds=1)
MS = dt.timedelta(milliseconds=1)
MAXDT = dt.timedelta(days=10)


def da(values, dims, units, **attrs):
    a = dict(attrs)
    if units is not None:
        a['units'] = units
    # every other DataArray has coordinates (consistent ones) for every other dimension
    k = BaseContext.current.trail('%s %s' % (dims, units)) if BaseContext.current is not None else 0
    coords = None
    if k % 2 and len(set(dims)) == len(dims) == np.ndim(values):
        coords = {d: np.arange(n) * 10. for i, (d, n) in enumerate(zip(dims, np.shape(values))) if k >> i & 2 and d}
    return DataArray(values, dims=tuple(dims), attrs=a, coords=coords)


def tendency_component(inputs, tendencies, diagnostics, fn, implicit=False, **kw):
    """a TendencyComponent (or ImplicitTendencyComponent) whose array_call is fn"""
    base = sympl.ImplicitTendencyComponent if implicit else sympl.TendencyComponent

    if implicit:
        def array_call(self, state, timestep):
            return fn(state, timestep)
    else:
        def array_call(self, state):
            return fn(state)
    ns = dict(input_properties=inputs, tendency_properties=tendencies,
              diagnostic_properties=diagnostics, array_call=array_call)
    ns.update(kw.pop('class_attrs', {}))
    cls = type(kw.pop('class_name', 'Tend'), (base,), ns)
    return cls(**kw)


def diagnostic_component(inputs, diagnostics, fn, **kw):
    def array_call(self, state):
        return fn(state)
    ns = dict(input_properties=inputs, diagnostic_properties=diagnostics, array_call=array_call)
    ns.update(kw.pop('class_attrs', {}))
    return type(kw.pop('class_name', 'Diag'), (sympl.DiagnosticComponent,), ns)(**kw)


def stepper_component(inputs, outputs, diagnostics, fn, **kw):
    def array_call(self, state, timestep):
        return fn(state, timestep)
    ns = dict(input_properties=inputs, output_properties=outputs,
              diagnostic_properties=diagnostics, array_call=array_call)
    ns.update(kw.pop('class_attrs', {}))
    return type(kw.pop('class_name', 'Step'), (sympl.Stepper,), ns)(**kw)


def snapshot(state):
    """deep copy of a state, for later comparison"""
    out = {}
    for k, v in state.items():
        if hasattr(v, 'dims'):
            out[k] = (np.array(v.values, dtype=object if v.values.dtype == object else None,
                               copy=True), tuple(v.dims), dict(v.attrs), id(v))
        else:
            out[k] = v
    return out


def check_unmodified(ctx, snap, state, label, identity=False):
    ctx.check(set(snap) == set(state), label + ': set of quantities changed')
    for k, s in snap.items():
        if k not in state:
            continue
        v = state[k]
        if isinstance(s, tuple):
            if not hasattr(v, 'dims'):
                ctx.check(False, '%s: %s replaced by %s' % (label, k, type(v)))
                continue
            ctx.same(v.values, s[0], '%s: %s values' % (label, k))
            ctx.check(tuple(v.dims) == s[1], '%s: %s dims' % (label, k))
            ctx.check(dict(v.attrs) == s[2], '%s: %s attrs' % (label, k))
            if identity:
                ctx.check(id(v) == s[3], '%s: %s identity' % (label, k))
        else:
            ctx.check((v is s) or (v == s), '%s: %s' % (label, k))


def same_units(u1, u2):
    """are two unit strings the same unit (independent of spelling)"""
    from pint import UnitRegistry
    r = _ureg()
    a, b = r.Quantity(1.0, r.parse_units(_clean(u1))), r.Quantity(1.0, r.parse_units(_clean(u2)))
    return a.units.dimensionality == b.units.dimensionality and \
        abs(a.to_root_units().magnitude - b.to_root_units().magnitude) \
        <= 1e-12 * abs(a.to_root_units().magnitude)


_U = []


def _ureg():
    """our own registry (the oracle does not use sympl's)"""
    if not _U:
        import pint
        r = pint.UnitRegistry(autoconvert_offset_to_baseunit=True)
        for d in ('degrees_north = degree = degree_N = degree_north = degrees_N = degreeN = degreesN',
                  'degrees_east = degree = degree_E = degree_east = degrees_E = degreeE = degreesE'):
            r.define(d)
        _U.append(r)
    return _U[0]


def _clean(u):
    return u.replace('%', 'percent').replace('\u00b0', 'degree')


KINDS = ['tendency', 'implicit', 'diagnostic', 'stepper']
# every (kind, dictionary of returned quantities)
SLOTS = [('tendency', 'tendencies'), ('tendency', 'diagnostics'),
         ('implicit', 'tendencies'), ('implicit', 'diagnostics'),
         ('diagnostic', 'diagnostics'), ('stepper', 'new_state'), ('stepper', 'diagnostics')]


def make_component(kind, inputs, fn, tendencies=None, diagnostics=None, outputs=None, **kw):
    """fn(state, timestep) -> dict(tendencies=..., diagnostics=..., new_state=...)"""
    if kind in ('tendency', 'implicit'):
        def call(state, timestep=None):
            r = fn(state, timestep)
            return r.get('tendencies', {}), r.get('diagnostics', {})
        return tendency_component(inputs, tendencies or {}, diagnostics or {}, call,
                                  implicit=(kind == 'implicit'), **kw)
    if kind == 'diagnostic':
        return diagnostic_component(inputs, diagnostics or {},
                                    lambda s: fn(s, None).get('diagnostics', {}), **kw)

    def step(state, timestep):
        r = fn(state, timestep)
        return r.get('diagnostics', {}), r.get('new_state', {})
    return stepper_component(inputs, outputs or {}, diagnostics or {}, step, **kw)


def call_component(kind, comp, state, timestep):
    """-> dict(tendencies=, diagnostics=, new_state=) of returned quantities"""
    if kind == 'tendency':
        t, d = comp(state)
        return dict(tendencies=t, diagnostics=d, new_state={})
    if kind == 'implicit':
        t, d = comp(state, timestep)
        return dict(tendencies=t, diagnostics=d, new_state={})
    if kind == 'diagnostic':
        return dict(tendencies={}, diagnostics=comp(state), new_state={})
    d, n = comp(state, timestep)
    return dict(tendencies={}, diagnostics=d, new_state=n)


def slot_props(slot, props):
    """keyword for make_component"""
    return {{'tendencies': 'tendencies', 'diagnostics': 'diagnostics',
             'new_state': 'outputs'}[slot]: props}


def unit_factor(u, base):
    """exact-ish factor: value in u times factor = value in base (no offsets)"""
    r = _ureg()
    q = r.Quantity(1.0, r.parse_units(_clean(u))).to(r.parse_units(_clean(base))).magnitude
    return F(q).limit_denominator(10**9)


def labelled(v, dims_lengths):
    """v[pos] over named positions, broadcasting missing dims -> dict pos-tuple (sorted dims) -> value"""
    names = sorted(dims_lengths)
    out = {}
    vals = v.values
    for idx in np.ndindex(*[dims_lengths[n] for n in names]):
        pos = dict(zip(names, idx))
        out[idx] = vals[tuple(pos[d] for d in v.dims)]
    return out
