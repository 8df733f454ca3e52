"""C10 Leapfrog: forward Euler first, then the centred step with the RAW filter."""
from .common import *
from . import shapes
from . import large
from . import numtypes

TOL = 1e-7


def steps(ctx, B):
    dtv = ctx.timedelta('dt', MS, MAXDT)
    default = ctx.choice('params', 3)   # 0 given, 1 defaults, 2 classic filter
    kw = {}
    nu, al = F(5, 100), F(1, 2)
    if default == 0:
        nu = ctx.real('nu', 0, 1)
        al = ctx.real('alpha', 0, 1)
        kw = dict(asselin_strength=nu, alpha=al)
    elif default == 2:
        nu = ctx.real('nu', 0, 1)
        al = F(1)
        kw = dict(asselin_strength=nu, alpha=1. if ctx.flag('float alpha') else 1)
    if not ctx.symbolic:
        nu, al = float(nu), float(al)
    tu, fac = ctx.choose('units', B['units'])
    two = ctx.choice('two', B['two'])
    log = []

    def fn(state):
        v = ctx.array('f%d' % len(log), (1,))
        w = ctx.array('g%d' % len(log), (1,))
        log.append((v * fac if ctx.symbolic else v * float(fac), w, np.array(state['q'])))
        return ({'q': v, 'p': w} if two else {'q': v}), {'d': w}
    ins = {'q': {'dims': ['x'], 'units': 'm'}, 'p': {'dims': ['x'], 'units': 's'}}
    tend = {'q': {'dims': ['x'], 'units': tu}}
    if two:
        tend['p'] = {'dims': ['x'], 'units': 's s^-1'}
    stepper = sympl.Leapfrog(tendency_component(ins, tend, {'d': {'dims': ['x'], 'units': 'K'}}, fn), **kw)
    cur = {'q': ctx.array('q', (1,)), 'p': ctx.array('p', (1,))}
    state = {'time': ctx.date('t'), 'q': da(cur['q'].copy(), 'x', 'm'), 'p': da(cur['p'].copy(), 'x', 's')}
    old = None
    for k in range(B['steps']):
        dt_ = dtv.total_seconds()
        prev_state = state
        diags, new = stepper(state, dtv)
        ctx.check(len(log) == k + 1, 'component called once per step')
        if len(log) != k + 1:
            return
        ctx.same(log[-1][2], cur['q'], 'tendencies evaluated at the current state')
        ctx.same(diags['d'], log[-1][1], 'diagnostics')
        names = ['q', 'p'] if two else ['q']
        nxt, filt = {}, {}
        for j, n in enumerate(('q', 'p')):
            f = log[-1][j]
            if n not in names:
                nxt[n], filt[n] = cur[n], cur[n]
                ctx.same(new[n], cur[n], 'quantity without tendency')
                ctx.same(state[n], cur[n], 'quantity without tendency in current state')
                continue
            if old is None:
                nxt[n] = cur[n] + dt_ * f
                filt[n] = cur[n]
                ctx.close(new[n], nxt[n], 'first step is forward Euler', tol=TOL)
                ctx.same(state[n], cur[n], 'no filter in the first step')
            else:
                raw = old[n] + 2 * dt_ * f
                infl = (old[n] - 2 * cur[n] + raw) * nu * (F(1, 2) if ctx.symbolic else 0.5)
                filt[n] = cur[n] + al * infl
                nxt[n] = raw + (al - 1) * infl
                ctx.close(new[n], nxt[n], 'step %d of %s' % (k + 1, n), tol=TOL * 1000)
                ctx.close(state[n], filt[n], 'filtered current state, step %d of %s' % (k + 1, n), tol=TOL * 1000)
                ctx.reach('leap')
            ctx.check(same_units(new[n].attrs.get('units', '?'), 'm' if n == 'q' else 's'), 'units')
            ctx.check(tuple(new[n].dims) == ('x',), 'dims')
        old = {n: np.array(state[n].values) for n in ('q', 'p')}
        # continue from the new state, or from an arbitrary (post-processed) one
        how = ctx.choice('perturb%d' % k, 6 if k < B['perturb'] else 1)
        if how == 1:
            cur = {'q': ctx.array('q%d' % k, (1,)), 'p': ctx.array('p%d' % k, (1,))}
            state = {'time': ctx.date('t'), 'q': da(cur['q'].copy(), 'x', 'm'),
                     'p': da(cur['p'].copy(), 'x', 's')}
        else:
            if how == 2:        # one dictionary is used for all states
                state.update(new)
            elif how == 3:      # the dictionary of the old state is used for something else
                state.clear()
                state = new
            elif how == 4:      # the arrays are used for all states
                for n in ('q', 'p'):
                    state[n].values[...] = new[n].values
            elif how == 5:      # those of the old state are used for something else
                for n in ('q', 'p'):
                    if state[n] is not new[n] and not np.shares_memory(state[n].values, new[n].values):
                        state[n].values[...] = 99
                        state[n].attrs['units'] = 'kg'
                state = new
            else:
                state = new
            cur = {n: np.array(new[n].values) for n in ('q', 'p')}


def constant_timestep(ctx, B):
    d1 = ctx.timedelta('dt1', US, MAXDT)
    d2 = ctx.timedelta('dt2', US, MAXDT)
    n = ctx.choose('before', [1, 2, 3])
    comp = tendency_component({'q': {'dims': [], 'units': 'm'}}, {'q': {'dims': [], 'units': 'm s^-1'}}, {},
                              lambda s: ({'q': s['q'] * 0}, {}))
    stepper = sympl.Leapfrog(comp)
    state = {'time': ctx.date('t0'), 'q': da(np.asarray(ctx.real('q')), '', 'm')}
    for _ in range(n):
        _, state = stepper(state, d1)
    r, e = ctx.attempt(lambda: stepper(state, d2), ValueError)
    if e is not None:
        ctx.reach('rejected')
        ctx.check(d1 != d2, 'equal timestep rejected')
    else:
        ctx.reach('accepted')
        ctx.check(d1 == d2, 'changed timestep accepted silently')


def units_change(ctx, B):
    """the state may hold the quantity in other units at the next step"""
    dtv = ctx.timedelta('dt', MS, MAXDT)
    fs = []

    def fn(state):
        fs.append(ctx.array('f%d' % len(fs), (1,)))
        return {'q': fs[-1]}, {}
    stepper = sympl.Leapfrog(tendency_component({'q': {'dims': ['x'], 'units': 'm'}},
                                                {'q': {'dims': ['x'], 'units': 'm s^-1'}}, {}, fn),
                             asselin_strength=0.5, alpha=0.5)
    old = None
    for k in range(B['steps']):
        u, f = ctx.choose('u%d' % k, [('m', F(1)), ('km', F(1, 1000))])
        if not ctx.symbolic:
            f = float(f)
        q = ctx.array('q%d' % k, (1,))
        state = {'time': ctx.date('t'), 'q': da(q.copy(), 'x', u)}
        _, new = stepper(state, dtv)
        if old is None:
            want, filt = q + dtv.total_seconds() * fs[-1] * f, q
        else:
            o = old[0] * f
            raw = o + 2 * dtv.total_seconds() * fs[-1] * f
            infl = (o - 2 * q + raw) * (F(1, 4) if ctx.symbolic else 0.25)
            half = F(1, 2) if ctx.symbolic else 0.5
            want, filt = raw - infl * half, q + infl * half
        ctx.close(new['q'], want, 'units changed between steps', tol=TOL * 10)
        ctx.close(state['q'], filt, 'filter when units changed between steps', tol=TOL * 10)
        old = (np.array(state['q'].values) / f,)
    ctx.reach('done')


HARNESSES = [
    Harness('leapfrog_steps', steps, dict(steps=4, units=[('m s^-1', F(1)), ('km hr^-1', F(1000, 3600))],
                                          two=2, perturb=2),
            dict(steps=6, units=[('m s^-1', F(1)), ('km hr^-1', F(1000, 3600))], two=2, perturb=4),
            reach=['leap'], note='symbolic filter strength and alpha in [0,1], arbitrary tendencies per step'),
    Harness('leapfrog_constant_dt', constant_timestep, {}, reach=['rejected', 'accepted']),
    Harness('leapfrog_units_change', units_change, dict(steps=3), dict(steps=4), reach=['done']),
    numtypes.LEAP,
    large.LEAP_STEPS,
]
ASSUMPTIONS = ['floats modelled as reals, compared within 1e-4 at magnitudes up to 1e6 (|x|<=8, dt<=10 days)']
HARNESSES.append(shapes.LEAP)
