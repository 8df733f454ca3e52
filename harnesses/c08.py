"""C08 Adams-Bashforth steps follow the textbook formula with ramp-up and constant dt."""
from .common import *
from . import shapes
from . import large
from . import numtypes

AB = {1: [F(1)], 2: [F(3, 2), F(-1, 2)], 3: [F(23, 12), F(-16, 12), F(5, 12)],
      4: [F(55, 24), F(-59, 24), F(37, 24), F(-9, 24)]}
# (state units, tendency units, factor tendency -> state units per second)
UNITS = [('m', 'm s^-1', F(1)), ('km', 'm s^-1', F(1, 1000)), ('m', 'km hr^-1', F(1000, 3600))]


def steps(ctx, B):
    order = ctx.choose('order', B['orders'] + [None])
    kw = {} if order is None else dict(order=order)      # third order by default
    order = order or 3
    su, tu, fac = ctx.choose('units', UNITS[:B['n_units']])
    two = ctx.flag('two_components')
    dtv = ctx.timedelta('dt', MS, MAXDT)
    t0 = ctx.date('t0')
    n = 2
    log = []

    def mk(i):
        def fn(state):
            v = ctx.array('tend%d_%d' % (i, len(log)), (n,))
            log.append((i, v))
            return {'q': v}, {'d%d' % i: v * 2}
        return tendency_component({'q': {'dims': ['x'], 'units': 'm'}},
                                  {'q': {'dims': ['x'], 'units': tu}},
                                  {'d%d' % i: {'dims': ['x'], 'units': 'm'}}, fn,
                                  class_name='T%d' % i)
    comps = [mk(0)] + ([mk(1)] if two else [])
    stepper = sympl.AdamsBashforth(*comps, **kw)
    q = ctx.array('q', (n,))
    state = {'time': t0, 'q': da(q, 'x', su)}
    hist = []
    for k in range(B['steps']):
        del log[:]
        diags, new = stepper(state, dtv)
        total = sum(v for _, v in log) * fac
        ctx.check(len(log) == len(comps), 'each component called once per step')
        hist.append(total)
        coef = AB[min(order, len(hist))]
        expect = q + dtv.total_seconds() * sum(c * h for c, h in zip(coef, reversed(hist)))
        ctx.close(new['q'], expect, 'order %d step %d' % (order, k + 1), tol=1e-5)
        ctx.check(tuple(new['q'].dims) == ('x',), 'dims kept')
        ctx.check(same_units(new['q'].attrs.get('units', '?'), su), 'units of result')
        for i, v in log:
            ctx.same(diags['d%d' % i], v * 2, 'diagnostics of this step')
        if k >= 1:
            ctx.reach('multi')
        if min(order, len(hist)) == 4:
            ctx.reach('order4')
        # the state of the next step is arbitrary (the user may post-process it)
        if ctx.choice('perturb%d' % k, 2 if k == 0 else 1):
            q = ctx.array('qq%d' % k, (n,))
        else:
            q = np.array(new['q'].values)
        state = {'time': t0, 'q': da(q, 'x', su)}


def constant_timestep(ctx, B):
    order = ctx.choose('order', [1, 2, 3, 4])
    which = ctx.choose('k', list(range(1, B['before'] + 1)))
    d1 = ctx.timedelta('dt1', US, MAXDT)
    d2 = ctx.timedelta('dt2', US, MAXDT)

    def fn(state):
        return {'q': state['q'] * 0}, {}
    comp = tendency_component({'q': {'dims': [], 'units': 'm'}},
                              {'q': {'dims': [], 'units': 'm s^-1'}}, {}, fn)
    stepper = sympl.AdamsBashforth(comp, order=order)
    state = {'time': ctx.date('t0'), 'q': da(ctx.real('q'), '', 'm')}
    for _ in range(which):
        stepper(state, d1)
    r, e = ctx.attempt(lambda: stepper(state, d2), ValueError)
    if e is not None:
        ctx.reach('rejected')
        ctx.check(d1 != d2, 'equal timestep rejected')
    else:
        ctx.reach('accepted')
        ctx.check(d1 == d2, 'changed timestep accepted silently')


def independent(ctx, B):
    """two stepper instances, used alternately, do not share history"""
    order = ctx.choose('order', [2, 3])
    dtv = ctx.timedelta('dt', MS, MAXDT)
    logs = {0: [], 1: []}

    def mk(i):
        def fn(state):
            v = ctx.array('tend%d_%d' % (i, len(logs[i])), (1,))
            logs[i].append(v)
            return {'q': v}, {}
        return sympl.AdamsBashforth(tendency_component(
            {'q': {'dims': ['x'], 'units': 'm'}}, {'q': {'dims': ['x'], 'units': 'm s^-1'}}, {}, fn),
            order=order)
    st = [mk(0), mk(1)]
    q = ctx.array('q', (1,))
    state = {'time': ctx.date('t0'), 'q': da(q, 'x', 'm')}
    for k in range(B['calls']):
        i = ctx.choice('who%d' % k, 2)
        _, new = st[i](state, dtv)
        h = logs[i]
        coef = AB[min(order, len(h))]
        ctx.close(new['q'], q + dtv.total_seconds() * sum(c * v for c, v in zip(coef, reversed(h))),
                  'interleaved instance', tol=1e-5)
    ctx.reach('done')


def units_change(ctx, B):
    """the units in which the state holds the quantity may differ from step to step"""
    order = ctx.choose('order', B['orders'])
    dtv = ctx.timedelta('dt', MS, MAXDT)
    log = []

    def fn(state):
        log.append(ctx.array('tend%d' % len(log), (1,)))
        return {'q': log[-1]}, {}
    stepper = sympl.AdamsBashforth(tendency_component(
        {'q': {'dims': ['x'], 'units': 'm'}}, {'q': {'dims': ['x'], 'units': 'm s^-1'}}, {}, fn),
        order=order)
    for k in range(B['steps']):
        u, f = ctx.choose('u%d' % k, [('m', F(1)), ('km', F(1, 1000))])
        q = ctx.array('q%d' % k, (1,))
        _, new = stepper({'time': ctx.date('t%d' % k), 'q': da(q, 'x', u)}, dtv)
        coef = AB[min(order, len(log))]
        ctx.close(new['q'], q + dtv.total_seconds() * f * sum(
            c * h for c, h in zip(coef, reversed(log))), 'units changed between steps', tol=1e-5)
        ctx.check(same_units(new['q'].attrs.get('units', '?'), u), 'units of result')
    ctx.reach('done')


def two_quantities(ctx, B):
    """two components stepping overlapping sets of quantities, one of them implicit"""
    order = ctx.choose('order', B['orders'])
    imp = ctx.flag('implicit')
    dtv = ctx.timedelta('dt', MS, MAXDT)
    logs = {'a': [], 'b': []}
    calls = [0]

    def f1(state, t=None):
        v = ctx.array('f1_%d' % calls[0], (2,))
        w = ctx.array('g1_%d' % calls[0], (2,))
        logs['a'].append([v])
        logs['b'].append([w])
        return {'a': v, 'b': w}, {}

    def f2(state, t=None):
        v = ctx.array('f2_%d' % calls[0], (2,))
        logs['b'][-1].append(v * 1000)
        calls[0] += 1
        return {'b': v}, {}
    ins = {'a': {'dims': ['x'], 'units': 'm'}, 'b': {'dims': ['x'], 'units': 'm'}}
    c1 = tendency_component(ins, {'a': {'dims': ['x'], 'units': 'm s^-1'},
                                  'b': {'dims': ['x'], 'units': 'm s^-1'}}, {}, f1)
    c2 = tendency_component(ins, {'b': {'dims': ['x'], 'units': 'km s^-1'}}, {}, f2, implicit=imp)
    stepper = sympl.AdamsBashforth(c1, c2, order=order)
    for k in range(B['steps']):
        vals = {n: ctx.array('%s%d' % (n, k), (2,)) for n in 'ab'}
        _, new = stepper(dict({n: da(v, 'x', 'm') for n, v in vals.items()}, time=ctx.date('t')), dtv)
        for n in 'ab':
            h = [sum(p) for p in logs[n]]
            coef = AB[min(order, len(h))]
            ctx.close(new[n], vals[n] + dtv.total_seconds() * sum(
                c * v for c, v in zip(coef, reversed(h))), 'two quantities', tol=1e-3)
    ctx.reach('done')


def bad_order(ctx, B):
    order = ctx.choose('order', [0, -1, 5, 6, 2.5, '3', None, 1, 2, 3, 4, 3.0])
    comp = tendency_component({}, {}, {}, lambda s: ({}, {}))
    r, e = ctx.attempt(lambda: sympl.AdamsBashforth(comp, order=order), (ValueError, TypeError))
    ctx.check((e is None) == (order in (1, 2, 3, 4)), 'order %r: %s' % (order, e))


HARNESSES = [
    Harness('ab_units_change', units_change, dict(orders=[2, 3, 4], steps=4),
            dict(orders=[2, 3, 4], steps=6), reach=['done']),
    Harness('ab_two_quantities', two_quantities, dict(orders=[1, 2, 3, 4], steps=5),
            dict(orders=[1, 2, 3, 4], steps=8), reach=['done']),
    Harness('ab_order', bad_order, {}),
    Harness('ab_steps', steps, dict(orders=[1, 2, 3, 4], n_units=3, steps=6),
            dict(orders=[1, 2, 3, 4], n_units=3, steps=12), reach=['multi', 'order4'],
            note='orders 1-4, 1-2 components, N consecutive steps, arbitrary tendencies per step, '
                 'dt any whole number of microseconds in [1 ms, 10 d], |values|<=8'),
    Harness('ab_constant_dt', constant_timestep, dict(before=5), dict(before=8),
            reach=['rejected', 'accepted']),
    Harness('ab_independent', independent, dict(calls=5), dict(calls=7), reach=['done']),
    numtypes.AB,
    large.AB_STEPS,
]
ASSUMPTIONS = ['floats are modelled as reals, results compared within 1e-5 absolute for |x|<=8, dt<=10 days']
HARNESSES.append(shapes.AB)
