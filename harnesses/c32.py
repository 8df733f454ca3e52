"""C32 nested wrappers, composites and steppers."""
from .common import *

# The reference: a model of each layer, written from the documentation alone, on plain values in
# base units (m, s).  A layer maps (values, time, seconds) -> dict(t=..., d=..., n=...).
SCALES = {'inputs': F(3), 'out': F(-1, 2), 'diag': F(5)}


class Ref(object):
    def __init__(self, f):
        self.f = f

    def __call__(self, v, time, s):
        return self.f(v, time, s)


def ref_scale(inner, what):
    def f(v, time, s):
        v = dict(v, q=v['q'] * SCALES['inputs']) if 'inputs' in what else v
        r = inner(v, time, s)
        r = {k: dict(x) for k, x in r.items()}
        for part in ('t', 'n'):
            if 'out' in what and 'q' in r.get(part, {}):
                r[part]['q'] = r[part]['q'] * SCALES['out']
        if 'diag' in what:
            r['d']['d'] = r['d']['d'] * SCALES['diag']
        return r
    return f


def ref_freq(inner, interval):
    mem = {}

    def f(v, time, s):
        if not mem or time >= mem['t'] + interval:
            mem.update(t=time, r=inner(v, time, s))
        return {k: dict(x) for k, x in mem['r'].items()}
    return f


def ref_sum(members):
    def f(v, time, s):
        out = {'t': {}, 'd': {}}
        for m in members:
            r = m(v, time, s)
            for n, x in r.get('t', {}).items():
                out['t'][n] = out['t'][n] + x if n in out['t'] else x
            out['d'].update(r['d'])
        return out
    return f


def ref_ab(inner, order):
    hist = []
    C = {1: [F(1)], 2: [F(3, 2), F(-1, 2)], 3: [F(23, 12), F(-16, 12), F(5, 12)]}

    def f(v, time, s):
        r = inner(v, time, s)
        hist.insert(0, r['t'])
        del hist[order:]
        n = {}
        for name in r['t']:
            inc = 0
            for c, t in zip(C[len(hist)], hist):
                inc = inc + t[name] * c
            n[name] = v[name] + inc * s
        return {'d': r['d'], 'n': n}
    return f


def ref_rk2(inner):
    def f(v, time, s):
        r = inner(v, time, s)
        v1 = dict(v, **{n: v[n] + t * s for n, t in r['t'].items()})
        r2 = inner(v1, time, s)
        return {'d': r['d'], 'n': {n: (v[n] + v1[n] + t * s) * F(1, 2) for n, t in r2['t'].items()}}
    return f


def ref_diff(inner):
    """a stepper as a component that gives tendencies"""
    def f(v, time, s):
        r = inner(v, time, s)
        return {'d': r['d'], 't': {n: (x - v[n]) / s for n, x in r['n'].items()}}
    return f


DIMS = ['x']


def make_base(kind, runs):
    """q' = 2q + r, diagnostic d = q - r; declared in km where the state may have m"""
    inputs = {'q': {'dims': DIMS, 'units': 'km'}, 'r': {'dims': DIMS, 'units': 'm'}}
    dp = {'d': {'dims': DIMS, 'units': 'm'}}

    def fn(state, timestep):
        runs.append(1)
        q, r = state['q'] * 1000, state['r']
        out = {'diagnostics': {'d': q - r}}
        if kind == 'tendency':
            out['tendencies'] = {'q': q * 2 + r}
        elif kind == 'implicit':
            out['tendencies'] = {'q': q * 2 + r * timestep.total_seconds()}
        elif kind == 'stepper':
            out['new_state'] = {'q': q + r * timestep.total_seconds()}
        return out
    comp = make_component(kind, inputs, fn, diagnostics=dp,
                          tendencies={'q': {'dims': DIMS, 'units': 'm s^-1'}} if kind in ('tendency', 'implicit') else {},
                          outputs={'q': {'dims': DIMS, 'units': 'm'}} if kind == 'stepper' else {})

    def ref(v, time, s):
        q, r = v['q'], v['r']
        ref.runs += 1
        out = {'d': {'d': q - r}}
        if kind == 'tendency':
            out['t'] = {'q': q * 2 + r}
        elif kind == 'implicit':
            out['t'] = {'q': q * 2 + r * s}
        elif kind == 'stepper':
            out['n'] = {'q': q + r * s}
        return out
    ref.runs = 0
    return comp, ref


def make_other(kind):
    """a second member: tendency of q in km/hr and of p; diagnostic e"""
    inputs = {'r': {'dims': DIMS, 'units': 'km'}}
    dp = {'e': {'dims': DIMS, 'units': 'km'}}

    def fn(state, timestep):
        r = state['r']
        out = {'diagnostics': {'e': r * 7}}
        if kind != 'diagnostic':
            out['tendencies'] = {'q': r * 3600, 'p': r * 2}
        return out
    comp = make_component('diagnostic' if kind == 'diagnostic' else 'tendency', inputs, fn, diagnostics=dp,
                          tendencies={} if kind == 'diagnostic' else
                          {'q': {'dims': DIMS, 'units': 'km hr^-1'}, 'p': {'dims': DIMS, 'units': 'km s^-1'}})

    def ref(v, time, s):
        out = {'d': {'e': v['r'] * 7}}
        if kind != 'diagnostic':
            out['t'] = {'q': v['r'], 'p': v['r'] * 2}
        return out
    return comp, ref


def value(da_, base='m'):
    """values in base units"""
    u = da_.attrs['units']
    f = unit_factor(u, base)
    v = da_.values
    return np.asarray(v, dtype=object) * f if f != 1 else v


def nested(ctx, B):
    kind = ctx.choose('kind', B['kinds'])
    runs = []
    comp, ref = base, base_ref = make_base(kind, runs)
    interval = ctx.timedelta('interval', 0 * DAY, DAY)
    has_e, stepped, members, uses_dt = False, kind == 'stepper', False, kind in ('implicit', 'stepper')
    n_freq = 0
    layers = []
    names_out = ['q']
    for i in range(B['layers']):
        opts = ['none', 'scale', 'freq']
        if not stepped:
            if not members:
                opts.append('composite')
            if kind != 'diagnostic':
                opts += ['ab', 'rk2']
        else:
            opts.append('diff')
        if layers and layers[-1] == 'none':
            opts = ['none']
        layer = ctx.choose('layer %d' % i, opts)
        layers.append(layer)
        if layer == 'scale':
            what = ctx.choose('scaled', B['scaled'])
            kw = {}
            if 'inputs' in what:
                kw['input_scale_factors'] = {'q': float(SCALES['inputs'])}
            if 'out' in what and kind != 'diagnostic':
                kw['output_scale_factors' if stepped else 'tendency_scale_factors'] = {'q': float(SCALES['out'])}
            if 'diag' in what:
                kw['diagnostic_scale_factors'] = {'d': float(SCALES['diag'])}
            comp, ref = sympl.ScalingWrapper(comp, **kw), ref_scale(ref, what)
        elif layer == 'freq':
            n_freq += 1
            comp, ref = sympl.UpdateFrequencyWrapper(comp, interval), ref_freq(ref, interval)
        elif layer == 'composite':
            members = True
            other, oref = make_other(kind)
            first = ctx.flag('other first')
            cls = {'tendency': sympl.TendencyComponentComposite, 'implicit': sympl.ImplicitTendencyComponentComposite,
                   'diagnostic': sympl.DiagnosticComponentComposite}[kind]
            comp = cls(other, comp) if first else cls(comp, other)
            ref = ref_sum([oref, ref] if first else [ref, oref])
        elif layer in ('ab', 'rk2'):
            stepped = uses_dt = True
            if layer == 'ab':
                comp, ref = sympl.AdamsBashforth(comp, order=2, name='N'), ref_ab(ref, 2)
            else:
                comp, ref = sympl.SSPRungeKutta(comp, stages=2, name='N'), ref_rk2(ref)
        elif layer == 'diff':
            stepped, kind = False, 'implicit'
            comp, ref = sympl.TimeDifferencingWrapper(comp), ref_diff(ref)
    if 'diff' in layers:       # division by the timestep: concrete ones
        dtv = ctx.choose('dt', [2 * SEC, SEC / 8])
    else:
        dtv = ctx.timedelta('dt', MS, 60 * SEC)
    s = dtv.total_seconds()
    qu = ctx.choose('units of q', B['units'])
    f = unit_factor(qu, 'm')
    isS = isinstance(comp, sympl.Stepper)
    ctx.check(isS == stepped, 'recognised as a stepper')
    for k in range(B['calls']):
        t = ctx.date('t%d' % k)
        v = {n: ctx.array('%s%d' % (n, k), (1,)) for n in ('q', 'r', 'p')}
        state = {'time': t, 'q': da(v['q'], DIMS, qu), 'r': da(v['r'], DIMS, 'm'), 'p': da(v['p'], DIMS, 'm')}
        snap = snapshot(state)
        n0, r0 = len(runs), base_ref.runs
        out = comp(state, dtv) if uses_dt else comp(state)
        vals = {n: np.asarray(x, dtype=object) * (f if n == 'q' else 1) for n, x in v.items()}
        want = ref(vals, t, s)
        check_unmodified(ctx, snap, state, 'state of call %d' % k)
        ctx.check(len(runs) - n0 == base_ref.runs - r0, 'call %d: the component is executed %d times, expected %d' % (
            k, len(runs) - n0, base_ref.runs - r0))
        if kind == 'diagnostic':
            parts = {'d': out}
        elif stepped:
            parts = {'d': out[0], 'n': out[1]}
        else:
            parts = {'t': out[0], 'd': out[1]}
        for p, w in want.items():
            if not w and p not in parts:
                continue
            got = parts[p]
            extra = set(got) - set(w) - ({'time'} if p == 'n' else set())
            if p == 'n':        # a TendencyStepper carries over the rest of what it is given
                extra -= {'r', 'p'}
                if layers[-1] in ('ab', 'rk2'):
                    for n in ('r', 'p'):
                        ctx.check(n in got, '%s carried over' % n)
            ctx.check(not extra, 'call %d: nothing else in %s: %s' % (k, p, sorted(extra)))
            for n, x in w.items():
                ctx.check(n in got, 'call %d: %s in %s' % (k, n, p))
                if n not in got:
                    continue
                ctx.check(tuple(got[n].dims) == tuple(DIMS), 'dims of %s' % n)
                ctx.close(value(got[n], 'm s^-1' if p == 't' else 'm'), x, 'call %d: %s of %s' % (
                    k, {'t': 'tendency', 'd': 'diagnostic', 'n': 'new value'}[p], n), tol=1e-4)
    for l in layers:
        ctx.reach(l)


HARNESSES = [
    Harness('nested', nested, dict(kinds=KINDS, layers=3, calls=2, scaled=[('inputs', 'out', 'diag')], units=['km']),
            dict(kinds=KINDS, layers=4, calls=3, scaled=[('inputs',), ('out', 'diag'), ('inputs', 'out', 'diag')],
                 units=['km', 'm']),
            reach=['scale', 'freq', 'composite', 'ab', 'rk2', 'diff']),
]
ASSUMPTIONS = ['timestep 1 ms to 1 minute; update interval 0 to 1 day; the state times are any dates',
               'scale factors 3, -1/2 and 5']
