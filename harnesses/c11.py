"""C11 time stepping leaves everything else alone."""
from .common import *
from . import shapes

STEPPERS = ['ab1', 'ab2', 'ab3', 'ab4', 'rk2', 'rk3', 'leapfrog']


def make(name, comps, **kw):
    if name.startswith('ab'):
        return sympl.AdamsBashforth(*comps, order=int(name[2]), **kw)
    if name.startswith('rk'):
        return sympl.SSPRungeKutta(*comps, stages=int(name[2]), **kw)
    return sympl.Leapfrog(*comps, **kw)


def stepping(ctx, B):
    name = ctx.choose('stepper', B['steppers'])
    tid = ctx.choice('tendencies_in_diagnostics', B['tid'])
    su = ctx.choose('state units', B['units'])
    sdims = ctx.choose('state dims', B['sdims'])
    tdims = ctx.choose('tendency dims', B['tdims'])
    ncomp = ctx.choose('components', B['ncomp'])
    L = {'x': 2, 'y': 1, 'z': 2}
    tdims_full = [d for d in (['x', 'y'] if '*' in tdims else tdims)]
    dtv = ctx.timedelta('dt', MS, MAXDT)
    cnt = [0]
    kept = []

    def mk(i):
        def fn(state):
            v = ctx.array('f%d_%d' % (i, cnt[0]), np.shape(state['q']))
            d = ctx.array('d%d_%d' % (i, cnt[0]), (2,))
            cnt[0] += 1
            kept.append((v, np.array(v)))
            return {'q': v}, {'d%d' % i: d}
        return tendency_component({'q': {'dims': tdims, 'units': 'm'}, 'u': {'dims': ['x'], 'units': 's'}},
                                  {'q': {'dims': tdims, 'units': 'm s^-1'}},
                                  {'d%d' % i: {'dims': ['x'], 'units': 'K'}}, fn, class_name='T%d' % i)
    stepper = make(name, [mk(i) for i in range(ncomp)],
                   **({'tendencies_in_diagnostics': True} if tid else {}))

    def fresh(k):
        s = {'time': ctx.date('t%d' % k),
             'q': da(ctx.array('q%d' % k, tuple(L[d] for d in sdims)), sdims, su, note='n'),
             'u': da(ctx.array('u%d' % k, (2,)), 'x', 'hr', long_name='untouched'),
             'v': da(ctx.array('v%d' % k, (1, 2)), 'yz', 'kg'),
             'scalar': da(np.asarray(ctx.real('s%d' % k)), '', 'degC')}
        return s
    state = fresh(0)
    history = []       # (snapshot, object, what)
    for k in range(B['steps']):
        snap = snapshot(state)
        keys = list(state)
        diags, new = stepper(state, dtv)
        ctx.check(list(state) == keys or set(state) == set(keys), 'keys of the input state')
        exempt = {'q'} if name == 'leapfrog' and k > 0 else set()
        check_unmodified(ctx, {a: b for a, b in snap.items() if a not in exempt},
                         {a: b for a, b in state.items() if a not in exempt}, 'input state of call %d' % (k + 1))
        ctx.check(state['q'].attrs.get('units') == su and tuple(state['q'].dims) == tuple(sdims),
                  'units and dims of the stepped quantity in the input state')
        for s, o, what in history:
            check_unmodified(ctx, s, o, what + ' after call %d' % (k + 1))
        ctx.check(set(new) == set(keys), 'new state has the quantities of the state')
        for n in ('u', 'v', 'scalar'):
            if n not in new:
                continue
            ctx.same(new[n], snap[n][0], 'untouched %s' % n)
            ctx.check(tuple(new[n].dims) == snap[n][1], 'dims of untouched %s' % n)
            ctx.check(dict(new[n].attrs) == snap[n][2], 'attrs of untouched %s' % n)
        ctx.check('time' in new and (new['time'] is snap['time'] or new['time'] == snap['time']), 'time carried over')
        ctx.check(new['q'].attrs.get('units') is not None and same_units(new['q'].attrs['units'], su),
                  'units of stepped quantity')
        ctx.check(set(new['q'].dims) == set(sdims), 'dims of stepped quantity')
        ctx.check(new['q'] is not state['q'], 'stepped quantity is a new object')
        want = {'d%d' % i for i in range(ncomp)} | ({'q_tendency_from_%s' % stepper.name} if tid else set())
        ctx.check(set(diags) == want, 'diagnostics %s' % sorted(diags))
        for v, c in kept:
            ctx.same(v, c, 'arrays of the component')
        history.append((snapshot(diags), diags, 'diagnostics of call %d' % (k + 1)))
        if ctx.choice('continue%d' % k, B['cont']) == 0:
            # what the filter does to `new` when it is passed on is checked in C10
            if name != 'leapfrog':
                history.append((snapshot(new), new, 'state returned by call %d' % (k + 1)))
            else:
                history.append((snapshot({a: b for a, b in new.items() if a != 'q'}),
                                {a: b for a, b in new.items() if a != 'q'}, 'state returned by call %d' % (k + 1)))
            history.append((snapshot(state), state, 'state given to call %d' % (k + 1)))
            state = new
        else:
            history.append((snapshot(new), new, 'state returned by call %d' % (k + 1)))
            history.append((snapshot(state), state, 'state given to call %d' % (k + 1)))
            state = fresh(k + 1)
        ctx.reach('call%d' % (k + 1))


def component_stepper(ctx, B):
    """a Stepper component leaves the state it is given alone, and reports only its outputs"""
    tid = ctx.flag('tendencies_in_diagnostics')
    su = ctx.choose('units', ['m', 'km'])
    step = stepper_component(
        {'q': {'dims': ['x'], 'units': 'm'}, 'u': {'dims': ['x', 'y'], 'units': 's'}},
        {'q': {'dims': ['x'], 'units': 'm'}}, {'d': {'dims': ['x'], 'units': 'K'}},
        lambda s, t: ({'d': s['q'] * 2}, {'q': s['q'] + s['u'][:, 0]}),
        **({'tendencies_in_diagnostics': True} if tid else {}))
    q, u = ctx.array('q', (2,)), ctx.array('u', (1, 2))
    state = {'time': ctx.date('t'), 'q': da(q, 'x', su), 'u': da(u, ['y', 'x'], 's'),
             'v': da(ctx.array('v', (2,)), 'z', 'kg')}
    dtv = ctx.timedelta('dt', MS, MAXDT)
    hist = []
    f = F(1000) if su == 'km' else F(1)
    for k in range(B['calls']):
        snap = snapshot(state)
        d, new = step(state, dtv)
        check_unmodified(ctx, snap, state, 'input state')
        ctx.check(set(new) - {'time'} == {'q'}, 'outputs of the stepper')
        ctx.close(new['q'], q * (f if ctx.symbolic else float(f)) + u[0], 'new value', tol=1e-6)
        for s, o in hist:
            check_unmodified(ctx, s, o, 'results of an earlier call')
        hist += [(snapshot(d), d), (snapshot(new), new)]
    ctx.reach('done')


class Other(object):
    pass


def anything(ctx, B):
    """entries of the state which no component uses can be any object; there may be no tendencies at all"""
    name = ctx.choose('stepper', STEPPERS)
    what = ctx.choose('components', ['none', 'diagnostic only', 'tendency'])
    tid = ctx.flag('tendencies_in_diagnostics')

    def fn(state):
        if what == 'tendency':
            return {'q': np.array(f)}, {'d': np.array(g)}
        return {}, {'d': np.array(g)}
    f, g = ctx.array('f', (2,)), ctx.array('g', (2,))
    tend = {'q': {'dims': ['x'], 'units': 'm s^-1'}} if what == 'tendency' else {}
    comps = [] if what == 'none' else [
        tendency_component({'q': {'dims': ['x'], 'units': 'm'}}, tend, {'d': {'dims': ['x'], 'units': 'K'}}, fn)]
    stepper = make(name, comps, **({'tendencies_in_diagnostics': True} if tid else {}))
    dtv = ctx.timedelta('dt', MS, MAXDT)
    q = ctx.array('q', (2,))
    others = {'none': None, 'zero': 0, 'text': '', 'list': [], 'number': 1.5, 'array': np.array([1., 2.]),
              'object': Other(), 'false': False, 'nan': float('nan'), 'class': Other, '': 'an empty name', 3: 'not a name',
              'bare': DataArray(np.array([1., 2.])), 'date': sympl.datetime(2000, 2, 29)}
    state = dict(others, time=ctx.date('t'), q=da(q, 'x', 'm'))
    t = state['time']
    for k in range(B['steps']):
        old = dict(state)
        diags, new = stepper(state, dtv)
        ctx.check(set(state) == set(old) and set(new) == set(old), 'names of the quantities')
        for n, v in others.items():
            ctx.check(state.get(n, ctx) is v, 'entry %r of the input state' % (n,))
            ctx.check(new.get(n, ctx) is v or n in ('bare', 'array', 'list') and type(new.get(n)) is type(v),
                      'entry %r of the new state' % (n,))
        ctx.check(isinstance(new.get('bare'), DataArray) and list(new['bare'].values) == [1., 2.] and
                  not new['bare'].attrs, 'a quantity without units')
        ctx.check(isinstance(new.get('array'), np.ndarray) and list(new['array']) == [1., 2.], 'an array')
        ctx.check(new['time'] is t or new['time'] == t, 'time')
        if what != 'tendency':
            ctx.same(new['q'], q, 'a quantity without tendencies')
            ctx.same(state['q'], q, 'a quantity without tendencies in the input state')
        want = set() if what == 'none' else {'d'}
        if tid and what == 'tendency':
            want.add('q_tendency_from_%s' % stepper.name)
        ctx.check(set(diags) == want, 'diagnostics %s' % sorted(diags))
        if 'd' in diags:
            ctx.same(diags['d'], g, 'diagnostic')
        state = new
    ctx.reach('done')


SD = [['x', 'y'], ['y', 'x']]
def reordered(ctx, B):
    """The order of the dimensions of a quantity may change between steps: the new state has the
    order of the state it was stepped from, and the values are those of a run without reordering."""
    name = ctx.choose('stepper', B['steppers'])
    tdims = ctx.choose('tendency dims', B['tdims'])
    units = ctx.choose('units', ['m', 'km'])
    L = {'x': 2, 'y': 2}
    dtv = ctx.timedelta('dt', MS, MAXDT)
    fs = [ctx.array('f%d' % k, (2, 2)) for k in range(3 * B['steps'])]

    def mk():
        cnt = [0]

        def fn(state):
            cnt[0] += 1
            f = fs[cnt[0] - 1]
            return {'q': f if tdims[0] == 'x' else np.transpose(f)}, {}
        return make(name, [tendency_component({'q': {'dims': tdims, 'units': 'm'}},
                                              {'q': {'dims': tdims, 'units': 'm s^-1'}}, {}, fn)])
    one, two = mk(), mk()
    for k in range(B['steps']):
        order = ctx.choose('order %d' % k, [('x', 'y'), ('y', 'x')])
        q = ctx.array('q%d' % k, (2, 2))
        t = ctx.date('t%d' % k)
        a = {'time': t, 'q': da(q.copy(), ('x', 'y'), units)}
        b = {'time': t, 'q': da(np.array(q if order[0] == 'x' else np.transpose(q)), order, units)}
        _, na = one(a, dtv)
        _, nb = two(b, dtv)
        for x, y, what in ((na['q'], nb['q'], 'new state'), (a['q'], b['q'], 'state')):
            ctx.check(tuple(y.dims) == order, 'dims %s of the %s' % (y.dims, what))
            if set(y.dims) == {'x', 'y'}:
                ctx.close(y.transpose('x', 'y').values, x.values, '%s after reordering' % what, tol=1e-6)
    ctx.reach('done')


HARNESSES = [
    Harness('steppers', stepping,
            dict(steppers=['ab1', 'ab3', 'rk2', 'rk3', 'leapfrog'], tid=2, units=['m', 'km'], sdims=SD,
                 tdims=[['x', 'y'], ['*']], ncomp=[1], steps=3, cont=1),
            dict(steppers=STEPPERS, tid=2, units=['m', 'km'], sdims=SD, tdims=[['x', 'y'], ['*']],
                 ncomp=[1, 2], steps=4, cont=2), reach=['call3']),
    Harness('steppers_restart', stepping,
            dict(steppers=STEPPERS, tid=1, units=['m'], sdims=SD[:1], tdims=[['x', 'y']], ncomp=[2], steps=3, cont=2),
            dict(steppers=STEPPERS, tid=1, units=['m'], sdims=SD[:1], tdims=[['x', 'y']], ncomp=[2], steps=5, cont=2),
            reach=['call3']),
    Harness('anything', anything, dict(steps=3), dict(steps=6), reach=['done'],
            note='entries of other types, no components, components without tendencies'),
    Harness('reordered', reordered, dict(steppers=['ab2', 'rk3', 'leapfrog'], tdims=[['x', 'y'], ['y', 'x']], steps=3),
            dict(steppers=STEPPERS, tdims=[['x', 'y'], ['y', 'x']], steps=5), reach=['done']),
    Harness('component_stepper', component_stepper, dict(calls=3), reach=['done']),
]
ASSUMPTIONS = ['the Leapfrog filter may change the stepped quantity of the state passed in from the second call on']
HARNESSES.append(shapes.STEPPERS)
