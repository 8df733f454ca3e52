"""C15 tracer packing."""
from .common import *
from . import shapes
from . import histories
from . import large
from . import numtypes

L = {'x': 2, 'y': 2, 'z': 1, 'e': 0}
# registered units of each tracer, and the units (with factor to the registered ones) of the state
UN = {'A': ('kg', F(1), 'kg'), 'B': ('m', F(1000), 'km'), 'C': ('', F(1, 100), 'percent'),
      'D': ('K', F(1), 'K')}


def f_(ctx, x):
    return x if ctx.symbolic else float(x)


def same_label(got, want):
    return got is not None and (' '.join(got.split()) == ' '.join(want.split()) or same_units(got, want))


def packing(ctx, B):
    kind = ctx.choose('kind', ['tendency', 'implicit', 'stepper'])
    tdims = ctx.choose('tracer dims', B['tdims'])
    reg = ctx.choose('registered (in order)', B['reg'])
    pre = ctx.choose('prepended', B['pre'])
    late = ctx.choice('component created before this many registrations', min(B['late'], len(reg) + 1))
    identity = bool(ctx.choice('component returns what it got', 2))
    flipmode = ctx.choice('state dims reversed (none, all, only B)', B['flip'])
    flip = flipmode == 1
    if flipmode == 2 and ('*' in tdims or len(tdims) < 3):
        ctx.assume(False)
    qdims = [d for d in tdims if d != 'tracer']
    full = ['x', 'y'] if '*' in qdims else qdims
    ti = tdims.index('tracer')
    got = []
    N = {}

    def fn(state, timestep):
        arr = state['tracers']
        k = len(got)
        got.append(np.array(arr))
        if identity:
            out = arr
        else:
            N[k] = ctx.array('out%d' % k, arr.shape)
            out = N[k]
        main = {'tracers': out, 'q': state['q'] + 1}
        return {'new_state' if kind == 'stepper' else 'tendencies': main, 'diagnostics': {'d': state['q'] * 2}}
    qp = {'q': {'dims': ['z'], 'units': 'Pa' if kind == 'stepper' else 'Pa s^-1'}}
    attrs = {'uses_tracers': True, 'tracer_dims': tuple(tdims)}
    if pre:
        attrs['prepend_tracers'] = [(n, UN[n][0]) for n in pre]

    def make():
        return make_component(kind, {'q': {'dims': ['z'], 'units': 'Pa'}}, fn,
                              diagnostics={'d': {'dims': ['z'], 'units': 'K'}},
                              class_attrs=attrs,
                              **({'outputs': qp} if kind == 'stepper' else {'tendencies': qp}))
    comp = None
    if late == 0:
        comp = make()
    for i, n in enumerate(reg):
        sympl.register_tracer(n, UN[n][0])
        if i + 1 == late:
            comp = make()
    dtv = ctx.timedelta('dt', MS, MAXDT)

    def call(expected, tag):
        state = {'time': ctx.date('t' + tag), 'q': da(ctx.array('q' + tag, (1,)), 'z', 'Pa')}
        vals = {}
        sdims = full[::-1] if flip else full
        for n in UN:
            v = ctx.array(n + tag, tuple(L[d] for d in full))
            vals[n] = v * f_(ctx, UN[n][1])
            rev = flip or (flipmode == 2 and n == 'B')
            state[n] = da(np.transpose(np.array(v)) if rev else v, full[::-1] if rev else full, UN[n][2])
        if '*' in qdims and flip:
            # wildcard order follows the first quantity met; all have the same order here
            vals = {n: np.transpose(v) for n, v in vals.items()}
        fdims = sdims if '*' in qdims else full
        snap = snapshot(state)
        k = len(got)
        r = call_component(kind, comp, state, dtv)
        check_unmodified(ctx, snap, state, 'state')
        arr = got[k]
        flat = (lambda v: np.reshape(v, (-1,))) if '*' in qdims else (lambda v: v)
        shape = list(np.shape(flat(vals['A'])))
        shape.insert(ti, len(expected))
        if expected:
            ctx.check(list(arr.shape) == shape, 'shape %s of the tracer array' % (arr.shape,))
            if list(arr.shape) != shape:
                return
        for i, n in enumerate(expected):
            row = np.take(arr, i, axis=ti)
            ctx.close(row, flat(vals[n]), 'row %d is tracer %s' % (i, n), tol=1e-6)
        main = r['new_state'] if kind == 'stepper' else r['tendencies']
        ctx.check(set(main) - {'time'} == set(expected) | {'q'}, 'names returned: %s' % sorted(main))
        for i, n in enumerate(expected):
            if n not in main:
                continue
            o = main[n]
            u = UN[n][0] if kind == 'stepper' else (UN[n][0] + ' s^-1').strip()
            ctx.check(same_label(o.attrs.get('units'), u), 'units %s of %s' % (o.attrs, n))
            ctx.check(tuple(o.dims) == tuple(fdims), 'dims %s of %s' % (o.dims, n))
            want = flat(vals[n]) if identity else np.take(N[k], i, axis=ti)
            ctx.close(flat(o.values), want, 'returned %s' % n, tol=1e-6)
        ctx.close(main['q'], state['q'].values + 1, 'other output')
        ctx.close(r['diagnostics']['d'], state['q'].values * 2, 'diagnostic')

    def order(registered):
        return list(pre) + [n for n in registered if n not in pre]
    call(order(reg), 'a')
    if B['more']:
        sympl.register_tracer('D', UN['D'][0])
        sympl.register_tracer('A', UN['A'][0])
        reg2 = list(reg) + [n for n in ('D', 'A') if n not in reg]
        call(order(reg2), 'b')
    ctx.reach('done')


PER = {None: F(1), 's': F(1), 'min': F(60), 'hr': F(3600), 'day': F(86400), 's^-1': F(1), 'hr^-1': F(3600)}


def time_unit(ctx, B):
    """The tendencies of tracers are per tracer_tendency_time_unit, also for what steps them."""
    kind = ctx.choose('kind', ['tendency', 'implicit'])
    unit = ctx.choose('tracer_tendency_time_unit', B['unit'])
    how = ctx.choose('how', B['how'])
    use = ctx.choose('used', ['called', 'composite', 'adams', 'rk'] if kind == 'tendency' else ['called', 'composite'])
    sympl.register_tracer('B', 'm')
    sympl.register_tracer('C', '')
    N = ctx.array('n', (2, 2))

    def fn(state, timestep):
        return {'tendencies': {'tracers': N, 'q': state['q'] * 0 + 1}, 'diagnostics': {}}
    attrs = {'uses_tracers': True, 'tracer_dims': ('tracer', 'x')}
    if unit is not None and how == 'class':
        attrs['tracer_tendency_time_unit'] = unit
    comp = make_component(kind, {'q': {'dims': ['z'], 'units': 'Pa'}}, fn, class_attrs=attrs,
                          tendencies={'q': {'dims': ['z'], 'units': 'Pa s^-1'}})
    if unit is not None and how == 'instance':
        comp.tracer_tendency_time_unit = unit
    state = {'time': ctx.date('t'), 'q': da(ctx.array('q', (1,)), 'z', 'Pa'), 'B': da(ctx.array('b', (2,)), 'x', 'km'),
             'C': da(ctx.array('c', (2,)), 'x', '')}
    dt = ctx.timedelta('dt', MS, MAXDT)
    rate = f_(ctx, 1 / PER[unit])
    if use in ('called', 'composite'):
        if use == 'composite':
            comp = (sympl.TendencyComponentComposite if kind == 'tendency' else sympl.ImplicitTendencyComponentComposite)(comp)
        r = (comp(state) if kind == 'tendency' else comp(state, dt))[0]
        for i, (n, u) in enumerate((('B', 'm'), ('C', ''))):
            per = (u + ' s^-1').strip()
            ctx.check(same_units(r[n].attrs['units'], (u + ' ' + (unit or 's') + ('' if '-' in (unit or 's') else '^-1')).strip()), 'units %r of %s' % (r[n].attrs['units'], n))
            ctx.close(r[n].values * f_(ctx, unit_factor(r[n].attrs['units'], per)), N[i] * rate, 'tendency of %s' % n, tol=1e-6)
    else:
        st = (sympl.AdamsBashforth(comp, order=1) if use == 'adams' else sympl.SSPRungeKutta(comp, stages=3))
        diag, new = st(state, dt)
        for i, n in enumerate('BC'):
            f = f_(ctx, F(1, 1000) if n == 'B' else F(1))
            ctx.check(same_units(new[n].attrs['units'], state[n].attrs['units']), 'units of stepped %s' % n)
            ctx.close(new[n].values, state[n].values + N[i] * rate * f * dt.total_seconds(),
                      'stepped %s' % n, tol=1e-6)
    ctx.reach('done')


def wrong_shape(ctx, B):
    """A tracer array which does not have one row per tracer, or other dimensions, is rejected."""
    kind = ctx.choose('kind', ['tendency', 'implicit', 'stepper'])
    tdims = ctx.choose('tracer dims', B['tdims'])
    nreg = ctx.choice('tracers registered', 3)
    prep = ctx.choice('one prepended', 2)
    n = nreg + prep
    if n == 0:
        ctx.assume(False)
    shape = [n if d == 'tracer' else 6 if d == '*' else L[d] for d in tdims]
    off = [ctx.choice('axis %d off by' % i, 3) - 1 for i in range(len(shape))]
    extra = ctx.choice('extra axis', 2)
    full = ['x', 'u'] if '*' in tdims else [d for d in tdims if d != 'tracer']
    LL = dict(L, u=3)
    out = ctx.array('out', tuple(s + o for s, o in zip(shape, off)) + (1,) * extra)

    def fn(state, timestep):
        if '*' in tdims and 'shape' not in seen:
            seen['shape'] = np.shape(state['tracers'])
        main = {'tracers': out, 'q': state['q'] + 1}
        return {'new_state' if kind == 'stepper' else 'tendencies': main, 'diagnostics': {}}
    seen = {}
    qp = {'q': {'dims': ['z'], 'units': 'Pa' if kind == 'stepper' else 'Pa s^-1'}}
    attrs = {'uses_tracers': True, 'tracer_dims': tuple(tdims)}
    if prep:
        attrs['prepend_tracers'] = [('C', '')]
    for name in 'BA'[:nreg]:
        sympl.register_tracer(name, UN[name][0])
    comp = make_component(kind, {'q': {'dims': ['z'], 'units': 'Pa'}}, fn, class_attrs=attrs,
                          **({'outputs': qp} if kind == 'stepper' else {'tendencies': qp}))
    state = {'time': ctx.date('t'), 'q': da(ctx.array('q', (1,)), 'z', 'Pa')}
    for name in 'ABC':
        state[name] = da(ctx.array(name, tuple(LL[d] for d in full)), full, UN[name][2])
    snap = snapshot(state)
    dt = ctx.timedelta('dt', MS, MAXDT)
    try:
        r = call_component(kind, comp, state, dt)
    except Exception:
        r = None
    check_unmodified(ctx, snap, state, 'state')
    wrong = bool(extra) or any(off)
    if '*' in tdims and 'shape' in seen:
        ctx.check(seen['shape'] == tuple(shape), 'shape given')
    if wrong:
        ctx.check(r is None, 'shape %s is accepted where %s is declared and %d tracers exist' % (np.shape(out), tdims, n))
        ctx.reach('wrong')
    else:
        ctx.check(r is not None, 'the right shape is rejected')
        ctx.reach('right')


TD = [['tracer', 'x', 'y'], ['x', 'tracer', 'y'], ['y', 'x', 'tracer'], ['tracer', 'x'], ['tracer', '*'], ['*', 'tracer'],
      ['tracer']]
HARNESSES = [
    Harness('packing', packing,
            dict(tdims=TD[:2] + TD[4:5], reg=[[], ['B', 'A'], ['C', 'A', 'B']], pre=[(), ('B',)], late=1, flip=3, more=1),
            dict(tdims=TD, reg=[[], ['A'], ['B', 'A'], ['C', 'A', 'B'], ['B', 'C', 'A']], pre=[(), ('B',), ('C', 'B')],
                 late=4, flip=3, more=1), reach=['done']),
    Harness('empty', packing,
            dict(tdims=[['tracer', 'e', 'y'], ['y', 'tracer', 'e'], ['e', 'tracer']], reg=[[], ['B', 'A']], pre=[(), ('B',)], late=1,
                 flip=2, more=1), reach=['done'], note='a dimension of length zero'),
    Harness('order', packing,
            dict(tdims=TD[:1], reg=[['B', 'A', 'C'], ['C', 'B']], pre=[(), ('C',), ('C', 'B'), ('D',)], late=4, flip=1, more=1),
            dict(tdims=TD[:3], reg=[['B', 'A', 'C'], ['C', 'B'], ['A', 'B', 'C', 'D']], pre=[(), ('C',), ('C', 'B'), ('D', 'A')],
                 late=5, flip=1, more=1), reach=['done']),
    Harness('wrong_shape', wrong_shape, dict(tdims=[['tracer', 'x', 'y'], ['*', 'tracer']]),
            dict(tdims=[['tracer', 'x', 'y'], ['x', 'tracer', 'y'], ['tracer', 'x'], ['tracer', '*'], ['*', 'tracer'], ['tracer']]),
            reach=['right', 'wrong']),
    Harness('time_unit', time_unit,
            dict(unit=[None, 's', 'hr', 'hr^-1'], how=['class']),
            dict(unit=list(PER), how=['class', 'instance']), reach=['done'], note='tracer_tendency_time_unit'),
    numtypes.PACKING,
    large.PACKING,
]
HARNESSES.append(histories.REGISTERED)
ASSUMPTIONS = ['a prepended tracer is listed once and in the units in which it is registered',
               'all tracers have the dims the component declares']
HARNESSES.append(shapes.PACKING)
