"""C09 SSP Runge-Kutta steps are the Shu-Osher stages; diagnostics come from the first stage."""
from .common import *
from . import shapes
from . import large
from . import numtypes

UNITS = [('m', 'm s^-1', F(1)), ('km', 'm s^-1', F(1, 1000)), ('m', 'km hr^-1', F(1000, 3600))]
TOL = 1e-5


def stages(ctx, B):
    ns = ctx.choose('stages', [2, 3, None])
    kw = {} if ns is None else dict(stages=ns)     # 3 stages by default
    ns = ns or 3
    su, tu, fac = ctx.choose('units', UNITS)
    two = ctx.flag('two')
    imp = ctx.flag('implicit')
    dims, sdims = ctx.choose('dims', B['dims'])
    L = {'x': 2, 'y': 1}
    dtv = ctx.timedelta('dt', MS, MAXDT)
    to_m = {'m': F(1), 'km': F(1000)}[su]
    log = []

    def mk(i):
        def fn(state, t=None):
            v = ctx.array('f%d_%d' % (i, len(log)), tuple(L[d] for d in dims))
            d = ctx.array('d%d_%d' % (i, len(log)), (2,))
            log.append((i, np.array(state['q']), np.array(state['u']), v, d, t))
            return {'q': v}, {'d%d' % i: d}
        return tendency_component({'q': {'dims': dims, 'units': 'm'}, 'u': {'dims': ['x'], 'units': 's'}},
                                  {'q': {'dims': dims, 'units': tu}},
                                  {'d%d' % i: {'dims': ['x'], 'units': 'K'}}, fn, class_name='T%d' % i,
                                  implicit=imp and i == 0)
    comps = [mk(0)] + ([mk(1)] if two else [])
    stepper = sympl.SSPRungeKutta(*comps, **kw)
    q = ctx.array('q', tuple(L[d] for d in sdims))
    u = ctx.array('u', (2,))
    ax = [sdims.index(d) for d in dims]
    tx = [dims.index(d) for d in sdims]
    for k in range(B['steps']):
        del log[:]
        state = {'time': ctx.date('t'), 'q': da(q, sdims, su), 'u': da(u, 'x', 's')}
        diags, new = stepper(state, dtv)
        n = len(comps)
        ctx.check([l[0] for l in log] == list(range(n)) * ns, 'each component evaluated once per stage')
        if len(log) != n * ns:
            return
        dt_ = dtv.total_seconds()
        f = [np.transpose(sum(l[3] for l in log[s * n:(s + 1) * n]), tx) * fac for s in range(ns)]
        y = [q]
        if ns == 2:
            y.append(q + dt_ * f[0])
            want = F(1, 2) * q + F(1, 2) * (y[1] + dt_ * f[1])
        else:
            y.append(q + dt_ * f[0])
            y.append(F(3, 4) * q + F(1, 4) * (y[1] + dt_ * f[1]))
            want = F(1, 3) * q + F(2, 3) * (y[2] + dt_ * f[2])
        for s in range(ns):
            for l in log[s * n:(s + 1) * n]:
                ctx.close(l[1], np.transpose(y[s], ax) * to_m, 'stage %d of %d evaluated at the wrong state'
                          % (s + 1, ns), tol=TOL * 1000)
                ctx.same(l[2], u, 'other inputs at stage %d' % (s + 1))
                if imp and l[0] == 0:
                    ctx.check(l[5] == dtv, 'timestep passed to implicit component')
        ctx.check(set(new['q'].dims) == set(sdims), 'dims')
        if set(new['q'].dims) == set(sdims):
            ctx.close(np.transpose(new['q'].values, [new['q'].dims.index(d) for d in sdims]), want,
                      '%d-stage result, step %d' % (ns, k + 1), tol=TOL)
        ctx.check(same_units(new['q'].attrs.get('units', '?'), su), 'units of result')
        ctx.check(set(diags) == {'d%d' % i for i in range(n)}, 'diagnostics of the components')
        for l in log[:n]:
            if 'd%d' % l[0] in diags:
                ctx.same(diags['d%d' % l[0]], l[4], 'diagnostics are those of the initial state')
        ctx.reach('stages%d' % ns)
        q = ctx.array('q_%d' % k, tuple(L[d] for d in sdims))


def bad_stages(ctx, B):
    n = ctx.choose('n', [0, 1, 2, 3, 4, 5, -2, '2', None, 2.5])
    comp = tendency_component({}, {}, {}, lambda s: ({}, {}))
    r, e = ctx.attempt(lambda: sympl.SSPRungeKutta(comp, stages=n), (ValueError, TypeError))
    ctx.check((e is None) == (n in (2, 3)), 'stages=%r: %s' % (n, e))


DIMS = [(['x'], ['x']), (['x', 'y'], ['y', 'x']), (['x', 'y'], ['x', 'y'])]
HARNESSES = [
    Harness('ssprk_stages', stages, dict(dims=DIMS, steps=2), dict(dims=DIMS, steps=4),
            reach=['stages2', 'stages3'],
            note='arbitrary tendencies at every stage, dt any whole microsecond in [1 ms, 10 d]'),
    Harness('ssprk_bad_stages', bad_stages, {}),
    numtypes.SSP,
    large.RK_STEPS,
]
ASSUMPTIONS = ['floats are modelled as reals, compared within 1e-5 (state units) for |x|<=8, dt<=10 days']
HARNESSES.append(shapes.SSP)
