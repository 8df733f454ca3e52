"""Arrays of integers, of single precision numbers and with missing values (NaN), for the properties about values.

In the symbolic run an integer array has elements which are solver integers (in an object array);
the type itself exists in the concrete run of each path only, where a result rounded to the type
of an input fails the same obligations."""
from .common import *

T4 = [np.int64, np.int32, np.float32, np.float64, 'missing']
Q = [np.int32, np.float32, 'missing']
DEC = 10 * SEC
TOL = 2e-3


def f_(ctx, x):
    return x if ctx.symbolic else float(x)


def obj(a):
    a = np.asarray(a)
    return np.array(a.tolist(), dtype=object).reshape(a.shape) if a.dtype != object else np.array(a)


def typed(ctx, label, shape, types, units_of=None):
    t = ctx.choose('type of %s' % label, types)
    return ctx.array(label, shape, dtype=t), t


def stepping(cls, kwargs):
    """q stepped by every scheme, types of the state and of the tendencies (per call) chosen"""
    def harness(ctx, B):
        kw = ctx.choose('scheme', B['kwargs'])
        su, tu, fac = ctx.choose('units', [('m', 'm s^-1', F(1)), ('km', 'm s^-1', F(1, 1000))])
        dt = ctx.timedelta('dt', MS, DEC)
        q0, t = typed(ctx, 'q', (2,), B['types'])
        tts = [ctx.choose('type of the tendencies %d' % i, B['types']) for i in range(2)]
        fed = []
        fresh = cls == 'Leapfrog' and ctx.flag('the state is replaced after each step')

        def fn(state):
            v = ctx.array('tend%d' % len(fed), (2,), dtype=tts[len(fed) % 2])
            fed.append(obj(v) * f_(ctx, fac))
            return {'q': v}, {'d': v}
        comp = tendency_component({'q': {'dims': ['x'], 'units': 'm'}}, {'q': {'dims': ['x'], 'units': tu}},
                                  {'d': {'dims': ['x'], 'units': 'm'}}, fn)
        stepper = getattr(sympl, cls)(comp, **kw)
        state = {'time': ctx.date('t'), 'q': da(np.array(q0), ['x'], su)}
        s = dt.total_seconds()
        q, old = obj(q0), None
        for k in range(B['steps']):
            del fed[:-3]
            n = len(fed)
            diags, new = stepper(state, dt)
            h = fed[n:]
            if cls == 'AdamsBashforth':
                o = min(kw['order'], len(fed))
                c = {1: [1], 2: [F(3, 2), F(-1, 2)], 3: [F(23, 12), F(-16, 12), F(5, 12)],
                     4: [F(55, 24), F(-59, 24), F(37, 24), F(-9, 24)]}[o]
                want = q + s * sum(f_(ctx, F(a)) * b for a, b in zip(c, reversed(fed)))
            elif cls == 'Leapfrog':
                if old is None:
                    want = q + s * h[0]
                else:
                    want = old + 2 * s * h[0]
                    infl = f_(ctx, F(1, 2) * F(kw['asselin_strength'])) * (old - 2 * q + want)
                    q = q + f_(ctx, F(kw['alpha'])) * infl
                    if kw['alpha'] != 1:
                        want = want + f_(ctx, F(kw['alpha']) - 1) * infl
                    ctx.close(obj(state['q'].values), q, 'filtered state in step %d' % (k + 1), tol=TOL)
                old = q
            elif kw['stages'] == 2:
                want = f_(ctx, F(1, 2)) * (q + (q + s * h[0] + s * h[1]))
            else:
                q2 = f_(ctx, F(3, 4)) * q + f_(ctx, F(1, 4)) * (q + s * h[0] + s * h[1])
                want = f_(ctx, F(1, 3)) * q + f_(ctx, F(2, 3)) * (q2 + s * h[2])
            ctx.close(obj(new['q'].values), want, 'step %d' % (k + 1), tol=TOL)
            q, state = want, new
            if fresh:        # another state of the same kind
                v = ctx.array('q%d' % k, (2,), dtype=t)
                q, state = obj(v), {'time': ctx.date('t%d' % k), 'q': da(np.array(v), ['x'], su)}
        ctx.close(obj(q0), obj(q0), 'input')
        ctx.reach('done')
    steps = 3 if cls == 'AdamsBashforth' or cls == 'Leapfrog' else 2
    return Harness('number_types', harness, dict(kwargs=kwargs, types=Q, steps=steps),
                   dict(kwargs=kwargs, types=T4, steps=steps), reach=['done'],
                   note='integer and single precision states and tendencies')


AB = stepping('AdamsBashforth', [{'order': 1}, {'order': 2}, {'order': 3}, {'order': 4}])
SSP = stepping('SSPRungeKutta', [{'stages': 2}, {'stages': 3}])
LEAP = stepping('Leapfrog', [{'asselin_strength': 0.25, 'alpha': 0.5}, {'asselin_strength': 0.5, 'alpha': 1.}])

UP = [('m', 'm', F(1), F(0)), ('m', 'km', F(1, 1000), F(0)), ('degC', 'K', F(1), F(27315, 100)),
      ('percent', '', F(1, 100), F(0)), ('hr', 's', F(3600), F(0))]
LAYOUTS = [(['x'], ['x']), (['x', 'y'], ['y', 'x']), (['x', 'y'], ['y']), (['*', 'x'], ['x', 'z']), (['x'], [])]
L = {'x': 2, 'y': 2, 'z': 2}


def deliver(ctx, spec, sdims, v):
    """element at each index of the array for `spec`"""
    lens = [L['z' if d == '*' else d] if ('z' if d == '*' else d) in L else 1 for d in spec]
    out = np.empty(tuple(lens), dtype=object)
    for idx in np.ndindex(*lens):
        pos = {('z' if d == '*' else d): i for d, i in zip(spec, idx)}
        out[idx] = v[tuple(pos[d] for d in sdims)] if sdims else v[()]
    return out


def two_inputs(ctx, B):
    res = []
    for n in ('q', 'r'):
        spec, sdims = ctx.choose('layout of %s' % n, B['layouts'] if n == 'q' else LAYOUTS[:2])
        u, cu, f, o = ctx.choose('units of %s' % n, UP[:B['units'] if n == 'q' else 2])
        v, t = typed(ctx, n, tuple(L[d] for d in sdims), B['types'])
        res.append((n, spec, sdims, u, cu, f, o, v))
    # the lengths of dimensions missing in one come from the other quantity
    state = {'time': ctx.date('t'), 'len': da(ctx.array('len', (2, 2, 2)), ['x', 'y', 'z'], 'm')}
    props = {'len': {'dims': ['x', 'y', 'z'], 'units': 'm'}}
    for n, spec, sdims, u, cu, f, o, v in res:
        state[n] = da(np.array(v), sdims, u)
        props[n] = {'dims': spec, 'units': cu}
    if any('*' in r[1] for r in res):
        state.pop('len'), props.pop('len')
        ctx.assume(all('y' not in r[1] or 'y' in r[2] for r in res))
    return res, state, props


def check_inputs(ctx, res, got):
    for n, spec, sdims, u, cu, f, o, v in res:
        want = deliver(ctx, spec, sdims, obj(v)) * f_(ctx, f) + f_(ctx, o)
        ctx.close(obj(got[n]), want, 'array for %s' % n, tol=TOL)


def inputs_harness(ctx, B):
    kind = ctx.choose('kind', KINDS)
    res, state, props = two_inputs(ctx, B)
    got = {}

    def fn(s, timestep):
        got.update(s)
        return {}
    comp = make_component(kind, props, fn)
    snap = snapshot(state)
    call_component(kind, comp, state, SEC)
    check_inputs(ctx, res, got)
    check_unmodified(ctx, snap, state, 'state')
    ctx.reach('done')


INPUTS = Harness('number_types', inputs_harness, dict(layouts=LAYOUTS, types=Q, units=4),
                 dict(layouts=LAYOUTS, types=T4, units=5), reach=['done'],
                 note='integer and single precision inputs')


def pair_harness(ctx, B):
    """get_numpy_arrays_with_properties and back"""
    res, state, props = two_inputs(ctx, B)
    raw = sympl.get_numpy_arrays_with_properties(state, props)
    check_inputs(ctx, res, raw)
    back = sympl.restore_data_arrays_with_properties(dict(raw), props, state, props)
    for n, spec, sdims, u, cu, f, o, v in res:
        ctx.check(list(back[n].dims) == ['z' if d == '*' and 'z' in sdims else d for d in spec if d != '*' or 'z' in sdims],
                  'dims of %s' % n)
        want = deliver(ctx, spec, sdims, obj(v)) * f_(ctx, f) + f_(ctx, o)
        if np.shape(back[n].values) == np.shape(want):
            ctx.close(obj(back[n].values), want, 'restored %s' % n, tol=TOL)
        else:
            ctx.check(False, 'shape of %s' % n)
    ctx.reach('done')


PAIR = Harness('number_types', pair_harness, dict(layouts=LAYOUTS, types=Q, units=4),
               dict(layouts=LAYOUTS, types=T4, units=5), reach=['done'],
               note='integer and single precision values')


def outputs_harness(ctx, B):
    kind, slot = ctx.choose('slot', SLOTS)
    form = ctx.choose('returned as', B['forms'])
    spec, shape = ctx.choose('dims', [(['x'], (2,)), (['y', 'x'], (2, 2)), (['*'], (4,)), ([], ())])
    v, t = typed(ctx, 'out', shape, B['types']) if shape else \
        (np.array(ctx.array('out', (1,), dtype=np.int64)[0]), np.int64)
    if form == 'list' and shape:
        given = v.tolist()
    elif form == 'scalar' and not shape:
        given = v.item() if ctx.symbolic else int(v)
    else:
        given = v
    props = {'out': {'dims': spec, 'units': 'kg'}}
    inputs = {'q': {'dims': ['*'] if spec == ['*'] else ['x', 'y'], 'units': 'm'}}
    comp = make_component(kind, inputs, lambda s, dt: {slot: {'out': given}}, **slot_props(slot, props))
    state = {'time': ctx.date('t'), 'q': da(ctx.array('q', (2, 2)), ['x', 'y'], 'm')}
    out = call_component(kind, comp, state, SEC)[slot]['out']
    want = obj(v).reshape((2, 2)) if spec == ['*'] else obj(v)
    ctx.check(list(out.dims) == (['x', 'y'] if spec == ['*'] else spec), 'dims')
    ctx.check(out.attrs.get('units') == 'kg', 'units')
    ctx.same(obj(out.values), want, 'values')
    ctx.reach('done')


OUTPUTS = Harness('number_types', outputs_harness, dict(types=Q, forms=['array', 'list', 'scalar']),
                  dict(types=T4, forms=['array', 'list', 'scalar']), reach=['done'],
                  note='outputs of integers and single precision, lists and scalars')


def packing_harness(ctx, B):
    kind = ctx.choose('kind', ['tendency', 'implicit', 'stepper'])
    tdims = ctx.choose('tracer dims', [['tracer', 'x'], ['x', 'tracer']])
    units = {'A': ('m', ctx.choose('units of A', ['m', 'km'])), 'B': ('kg', 'kg')}
    order = ctx.choose('order', [['A', 'B'], ['B', 'A']])
    for n in order:
        sympl.register_tracer(n, units[n][0])
    vals, state = {}, {'time': ctx.date('t')}
    for n in 'AB':
        vals[n], _ = typed(ctx, n, (2,), B['types'])
        state[n] = da(np.array(vals[n]), ['x'], units[n][1])
    ax = tdims.index('tracer')
    got = []
    ot = ctx.choose('type of the result', B['types'])
    out = ctx.array('out', (2, 2), dtype=ot)

    def fn(s, dt):
        got.append(np.array(s['tracers']))
        return {'new_state' if kind == 'stepper' else 'tendencies': {'tracers': out}}
    comp = make_component(kind, {}, fn, class_attrs={'uses_tracers': True, 'tracer_dims': tuple(tdims)})
    r = call_component(kind, comp, state, SEC)
    r = r['new_state'] if kind == 'stepper' else r['tendencies']
    for i, n in enumerate(order):
        f = F(1000) if units[n][1] == 'km' else F(1)
        ctx.close(np.take(obj(got[0]), i, axis=ax), obj(vals[n]) * f_(ctx, f), 'packed %s' % n, tol=TOL)
        ctx.same(obj(r[n].values), np.take(obj(out), i, axis=ax), 'unpacked %s' % n)
    ctx.reach('done')


PACKING = Harness('number_types', packing_harness, dict(types=Q), dict(types=T4), reach=['done'],
                  note='tracers of different types')


def scaling_harness(ctx, B):
    kind = ctx.choose('kind', KINDS)
    ins = {'q': {'dims': ['x'], 'units': 'm'}}
    slot = {'tendency': 'tendencies', 'implicit': 'tendencies', 'stepper': 'new_state',
            'diagnostic': 'diagnostics'}[kind]
    arg = {'tendencies': 'tendency', 'new_state': 'output', 'diagnostics': 'diagnostic'}[slot]
    q, _ = typed(ctx, 'q', (2,), B['types'])
    out, _ = typed(ctx, 'out', (2,), B['types'])
    got = []

    def fn(s, dt):
        got.append(np.array(s['q']))
        return {slot: {'q': out}}
    comp = make_component(kind, ins, fn, **slot_props(slot, {'q': {'dims': ['x'], 'units': 'm s^-1' if slot == 'tendencies' else 'm'}}))
    fi, fo = ctx.real('factor of the input', -4, 4), ctx.real('factor of the output', -4, 4)
    w = sympl.ScalingWrapper(comp, input_scale_factors={'q': fi}, **{arg + '_scale_factors': {'q': fo}})
    state = {'time': ctx.date('t'), 'q': da(np.array(q), ['x'], 'm')}
    for k in range(2):
        r = call_wrapped(kind, w, state)[slot]['q']
        ctx.close(obj(got[-1]), obj(q) * fi, 'scaled input', tol=TOL)
        ctx.close(obj(r.values), obj(out) * fo, 'scaled output', tol=TOL)
    ctx.same(obj(state['q'].values), obj(q), 'state')
    ctx.reach('done')


def call_wrapped(kind, w, state):
    if kind == 'diagnostic':
        return {'diagnostics': w(state)}
    if kind == 'tendency':
        return dict(zip(('tendencies', 'diagnostics'), w(state)))
    if kind == 'implicit':
        return dict(zip(('tendencies', 'diagnostics'), w(state, SEC)))
    return dict(zip(('diagnostics', 'new_state'), w(state, SEC)))


SCALING = Harness('number_types', scaling_harness, dict(types=Q), dict(types=T4), reach=['done'],
                  note='integers and single precision numbers are scaled')


def rates_harness(ctx, B):
    """tendencies in diagnostics of steppers, and TimeDifferencingWrapper"""
    which = ctx.choose('object', ['Stepper', 'TimeDifferencingWrapper', 'AdamsBashforth'])
    su, f = ctx.choose('units of the state', [('m', F(1)), ('km', F(1000))])
    q, _ = typed(ctx, 'q', (2,), B['types'])
    v, _ = typed(ctx, 'v', (2,), B['types'])
    dt = ctx.timedelta('dt', SEC / 10, DEC)
    s = dt.total_seconds()
    state = {'time': ctx.date('t'), 'q': da(np.array(q), ['x'], su)}
    ins = {'q': {'dims': ['x'], 'units': 'm'}}
    if which == 'AdamsBashforth':
        comp = tendency_component(ins, {'q': {'dims': ['x'], 'units': 'm s^-1'}}, {}, lambda st: ({'q': v}, {}))
        comp = sympl.AdamsBashforth(comp, order=1, name='n', tendencies_in_diagnostics=True)
        diags, _ = comp(state, dt)
        got = diags['q_tendency_from_n']
        want = obj(v) * s + obj(q) * 0
    else:
        kw = dict(name='n', tendencies_in_diagnostics=True) if which == 'Stepper' else {}
        comp = stepper_component(ins, ins, {}, lambda st, d: ({}, {'q': v}), **kw)
        if which == 'Stepper':
            diags, _ = comp(state, dt)
            got = diags['q_tendency_from_n']
        else:
            tends, _ = sympl.TimeDifferencingWrapper(comp)(state, dt)
            got = tends['q']
        want = obj(v) - obj(q) * f_(ctx, f)
    g = unit_factor(got.attrs['units'], 'm s^-1')
    ctx.close(obj(got.values) * f_(ctx, g) * s, want, 'rate of change', tol=2e-2)
    ctx.same(obj(state['q'].values), obj(q), 'state')
    ctx.reach('done')


RATES = Harness('number_types', rates_harness, dict(types=Q), dict(types=T4), reach=['done'],
                note='integer and single precision states')

CONVERSIONS = [('m', 'km', F(1, 1000), F(0)), ('km', 'm', F(1000), F(0)), ('m', 'm', F(1), F(0)),
               ('degC', 'K', F(1), F(27315, 100)), ('K', 'degC', F(1), F(-27315, 100)), ('percent', '', F(1, 100), F(0)),
               ('', '%', F(100), F(0)), ('Pa', 'hPa', F(1, 100), F(0)), ('s', 'minute', F(1, 60), F(0)),
               ('m', 'meter', F(1), F(0))]


def conversion_harness(ctx, B):
    u, w, f, o = ctx.choose('units', CONVERSIONS)
    dims, shape = ctx.choose('dims', [(['x'], (2,)), (['y', 'x'], (2, 1)), ([], ())])
    if shape:
        v, _ = typed(ctx, 'v', shape, B['types'])
    else:
        t = ctx.choose('type', [np.int64, np.float32])
        v = np.array(ctx.array('v', (1,), dtype=t)[0])
    a = da(v, dims, u, note='n')
    before = obj(v)
    b = a.to_units(w)
    ctx.close(obj(b.values), before * f_(ctx, f) + f_(ctx, o), '%s to %s' % (u, w), tol=TOL)
    ctx.same(obj(a.values), before, 'original')
    ctx.check(a.attrs.get('units') == u and a.attrs.get('note') == 'n', 'attributes of the original')
    ctx.check(same_units(b.attrs.get('units', '?'), w) and b.attrs.get('note') == 'n', 'attributes of the result')
    ctx.reach('done')


CONVERSION = Harness('number_types', conversion_harness, dict(types=T4), dict(types=T4), reach=['done'],
                     note='integers and single precision numbers are converted')


def simple_components(ctx, B):
    which = ctx.choose('component', ['relaxation', 'tendency', 'diagnostic'])
    v, _ = typed(ctx, 'v', (2,), B['types'])
    if which == 'relaxation':
        eq, _ = typed(ctx, 'eq', (2,), B['types'])
        tau = ctx.array('timescale', (2,), 1, 9, dtype=ctx.choose('type of the timescale', [np.int32, np.float32, np.float64]))
        su, f = ctx.choose('units', [('m', F(1)), ('km', F(1000))])
        comp = sympl.RelaxationTendencyComponent('q', 'm')
        state = {'time': ctx.date('t'), 'q': da(np.array(v), ['x'], su),
                 'equilibrium_q': da(np.array(eq), ['x'], 'm'),
                 'q_relaxation_timescale': da(np.array(tau), ['x'], 's')}
        t, d = comp(state)
        ctx.close(obj(t['q'].values) * obj(tau), obj(eq) - obj(v) * f_(ctx, f), 'relaxation', tol=5e-3)
    else:
        quantity = {'a': da(np.array(v), ['x'], 'm')}
        r = sympl.ConstantTendencyComponent(quantity)({'time': ctx.date('t')})[0] if which == 'tendency' else \
            sympl.ConstantDiagnosticComponent(quantity)({'time': ctx.date('t')})
        ctx.same(obj(r['a'].values), obj(v), 'constant')
    ctx.reach('done')


SIMPLE = Harness('number_types', simple_components, dict(types=Q), dict(types=T4), reach=['done'],
                 note='integer and single precision quantities')


def legacy_harness(ctx, B):
    spec, sdims = ctx.choose('layout', LAYOUTS[:4])
    v, _ = typed(ctx, 'v', tuple(L[d] for d in sdims), B['types'])
    a = da(np.array(v), sdims, 'm')
    r = sympl.get_numpy_array(a, spec)
    lens = [1 if d not in sdims and d != '*' else L['z' if d == '*' else d] for d in spec]
    want = np.empty(tuple(lens), dtype=object)
    for idx in np.ndindex(*lens):
        pos = {('z' if d == '*' else d): i for d, i in zip(spec, idx)}
        want[idx] = v[tuple(pos[d] for d in sdims)]
    ctx.same(obj(r), obj(want) if not ctx.symbolic else want, 'extracted')
    if all(d in sdims or d == '*' for d in spec):
        b = sympl.restore_dimensions(r, list(spec), a)
        ctx.check(tuple(b.dims) == tuple(sdims), 'dims')
        ctx.same(obj(b.values), obj(v), 'restored')
    ctx.reach('done')


LEGACY = Harness('number_types', legacy_harness, dict(types=T4), dict(types=T4), reach=['done'],
                 note='integer and single precision values')


def constant_types(ctx, B):
    """constants set to integers"""
    n = ctx.choose('name', ['planetary_radius', 'my_constant'])
    u, w, f, o = ctx.choose('units', CONVERSIONS[:9])
    v = ctx.array('v', (1,), dtype=ctx.choose('type', B['types']))[0]
    if not ctx.symbolic and ctx.choice('plain python number', 2):
        v = v.item()
    elif ctx.symbolic:
        ctx.choice('plain python number', 2)
    sympl.set_constant(n, v, u)
    ctx.close(sympl.get_constant(n, w), obj(v)[()] * f_(ctx, f) + f_(ctx, o), 'constant', tol=TOL)
    ctx.reach('done')


CONSTANTS = Harness('number_types', constant_types, dict(types=T4), dict(types=T4), reach=['done'],
                    note='integers and single precision numbers')
