"""C35 a whole model run (the run script of the documentation) gives the documented trajectory."""
import os
from symx import ncproxy
from .common import *
from .c18 import check_rows, content_of

install, reset = ncproxy.install, ncproxy.forget
DIMS = ['x']
HIST = {'AB1': 1, 'AB2': 2, 'AB3': 3, 'Leapfrog': 0, 'RK2': 1, 'RK3': 1}
AB = {1: [F(1)], 2: [F(3, 2), F(-1, 2)], 3: [F(23, 12), F(-16, 12), F(5, 12)]}
# (units of q in the state, metres per unit)
UNITS = {'m': F(1), 'km': F(1000)}


# ---- the model package: components written for sympl --------------------------------------------
def make_cloud():
    """diagnostic: d = q - 2 r"""
    return diagnostic_component({'q': {'dims': DIMS, 'units': 'm'}, 'r': {'dims': DIMS, 'units': 'm'}},
                                {'d': {'dims': DIMS, 'units': 'km'}},
                                lambda s: {'d': (s['q'] - s['r'] * 2) / 1000}, class_name='Cloud')


def make_mixing(wild):
    """tendency: dq/dt = 2 d - q + r;  diagnostic e = q + d"""
    dims = ['*'] if wild else DIMS

    def fn(s):
        q = s['q']
        return {'q': s['d'] * 2 - q + s['r'] / 1000}, {'e': q + s['d']}
    return tendency_component({'q': {'dims': dims, 'units': 'km'}, 'd': {'dims': dims, 'units': 'km'},
                               'r': {'dims': dims, 'units': 'm'}},
                              {'q': {'dims': dims, 'units': 'km s^-1'}}, {'e': {'dims': dims, 'units': 'km'}}, fn,
                              class_name='Mixing')


def make_radiation(runs):
    """tendency: dq/dt = 3 r, dr/dt = -q;  diagnostic f = r"""
    def fn(s):
        runs.append(1)
        q, r = s['q'], s['r'] * 1000
        return {'q': r * 3, 'r': -q}, {'f': r}
    return tendency_component({'q': {'dims': DIMS, 'units': 'm'}, 'r': {'dims': DIMS, 'units': 'km'}},
                              {'q': {'dims': DIMS, 'units': 'm s^-1'}, 'r': {'dims': DIMS, 'units': 'm s^-1'}},
                              {'f': {'dims': DIMS, 'units': 'm'}}, fn, class_name='Radiation')


def make_fall():
    """stepper: q' = q - r dt, p' = p + q;  diagnostic h = q + p"""
    def fn(s, timestep):
        q, r, p = s['q'] * 1000, s['r'], s['p']
        return {'h': q + p}, {'q': q - r * timestep.total_seconds(), 'p': p + q}
    return stepper_component({'q': {'dims': DIMS, 'units': 'km'}, 'r': {'dims': DIMS, 'units': 'm'},
                              'p': {'dims': DIMS, 'units': 'm'}},
                             {'q': {'dims': DIMS, 'units': 'm'}, 'p': {'dims': DIMS, 'units': 'm'}},
                             {'h': {'dims': DIMS, 'units': 'm'}}, fn, class_name='Fall')


class Model(object):
    """the objects of a run script"""
    def __init__(self, cfg, runs):
        self.cloud = make_cloud()
        rad = make_radiation(runs)
        if cfg['scaled']:
            rad = sympl.ScalingWrapper(rad, tendency_scale_factors={'q': 0.5}, input_scale_factors={'r': 4.})
        if cfg['interval'] is not None:
            rad = sympl.UpdateFrequencyWrapper(rad, cfg['interval'])
        comps = [rad, make_mixing(cfg['wild'])]
        if cfg['forcing']:
            comps.append(sympl.ConstantTendencyComponent(
                {'r': DataArray([3.6, 7.2], dims=DIMS, attrs={'units': 'km hr^-1'})}, {}))
        s = cfg['scheme']
        if s.startswith('AB'):
            self.physics = sympl.AdamsBashforth(*comps, order=int(s[2]))
        elif s.startswith('RK'):
            self.physics = sympl.SSPRungeKutta(*comps, stages=int(s[2]))
        else:
            self.physics = sympl.Leapfrog(*comps, asselin_strength=0.25)
        self.fall = make_fall()


# ---- the reference: the same model on plain numbers, in metres and seconds, from the documents ----
class Reference(object):
    def __init__(self, cfg):
        self.cfg = cfg
        self.mem = None
        self.hist = []
        self.old = None
        self.runs = 0

    def radiation(self, v, time):
        c = self.cfg
        if c['interval'] is not None and self.mem is not None and not time >= self.mem[0] + c['interval']:
            return self.mem[1]
        self.runs += 1
        q, r = v['q'], v['r'] * (4 if c['scaled'] else 1)
        out = {'q': r * 3 * (F(1, 2) if c['scaled'] else 1), 'r': -q}, {'f': r}
        if c['interval'] is not None:
            self.mem = (time, out)
        return out

    def tendency(self, v, time):
        (t, g) = self.radiation(v, time)
        t = dict(t)
        t['q'] = t['q'] + v['d'] * 2 - v['q'] + v['r']
        if self.cfg['forcing']:
            t['r'] = t['r'] + np.array([F(1), F(2)], dtype=object)
        return t, dict(g, e=v['q'] + v['d'])

    def physics(self, v, time, s):
        """-> diagnostics, the stepped quantities, what the input state holds afterwards"""
        sch = self.cfg['scheme']
        now = {n: v[n] for n in ('q', 'r')}
        t, g = self.tendency(v, time)
        if sch.startswith('AB'):
            self.hist = [t] + self.hist[:int(sch[2]) - 1]
            cs = AB[len(self.hist)]
            return g, {n: v[n] + sum(c * h[n] for c, h in zip(cs, self.hist)) * s for n in now}, now
        if sch == 'Leapfrog':
            old, self.old = self.old, now
            if old is None:
                return g, {n: v[n] + t[n] * s for n in now}, now
            new = {n: old[n] + t[n] * s * 2 for n in now}
            # the Robert-Asselin-Williams filter
            d = {n: (old[n] - v[n] * 2 + new[n]) * F(1, 4) for n in now}
            a = F(self.cfg['alpha'])
            filtered = {n: v[n] + d[n] * a * F(1, 2) for n in now}
            new = {n: new[n] + d[n] * (a - 1) * F(1, 2) for n in now}
            self.old = filtered
            return g, new, filtered

        def euler(y):
            f, _ = self.tendency(dict(v, **y), time)
            return {n: y[n] + f[n] * s for n in y}
        y1 = {n: v[n] + t[n] * s for n in now}
        if sch == 'RK2':
            e = euler(y1)
            return g, {n: v[n] * F(1, 2) + e[n] * F(1, 2) for n in now}, now
        e = euler(y1)
        y2 = {n: v[n] * F(3, 4) + e[n] * F(1, 4) for n in now}
        e = euler(y2)
        return g, {n: v[n] * F(1, 3) + e[n] * F(2, 3) for n in now}, now


def metres(a):
    f = unit_factor(a.attrs['units'], 'm')
    return np.asarray(a.values, dtype=object) * f


def compare(ctx, state, want, time, tag):
    ctx.check(set(state) == set(want) | {'time'}, '%s: holds %s, expected %s' % (tag, sorted(state), sorted(want)))
    ctx.check(state['time'] == time, tag + ': time')
    for n, w in want.items():
        if n in state:
            ctx.check(tuple(state[n].dims) == ('x',), '%s: dims of %s' % (tag, n))
            if tuple(state[n].dims) == ('x',):
                ctx.close(metres(state[n]), w, '%s: %s' % (tag, n), tol=1e-4)


def run(ctx, cfg, steps, dtv, time, qu, monitors=(), restart_after=None, path=None, in_place=False):
    kept = {}
    s = dtv.total_seconds()
    f = UNITS[qu]
    runs = []
    model, ref = Model(cfg, runs), Reference(cfg)
    vals = {n: ctx.array(n, (2,)) for n in ('q', 'r', 'p')}
    state = {'time': time, 'q': da(vals['q'], DIMS, qu), 'r': da(vals['r'], DIMS, 'm'), 'p': da(vals['p'], DIMS, 'm')}
    v = {n: np.asarray(x, dtype=object) * (f if n == 'q' else 1) for n, x in vals.items()}
    states, rows = [], []
    for k in range(steps):
        t = state['time']
        # the run script of the documentation
        state.update(model.cloud(state))
        physics_diagnostics, after_physics = model.physics(state, dtv)
        dynamics_diagnostics, new = model.fall(after_physics, dtv)
        next_state = dict(after_physics)
        next_state.update(new)
        state.update(physics_diagnostics)
        state.update(dynamics_diagnostics)
        for m in monitors:
            m.store(state)
        next_state['time'] = state['time'] + dtv
        # the reference
        v['d'] = v['q'] - v['r'] * 2
        n0 = ref.runs
        g, n, now = ref.physics(v, t, s)
        mid = dict(v, **n)
        new_v = dict(mid, q=mid['q'] - mid['r'] * s, p=mid['p'] + mid['q'])
        g = dict(g, h=mid['q'] + mid['p'])
        v = dict(v, **now)
        v.update(g)
        compare(ctx, state, v, t, 'state of step %d' % k)
        ctx.check(len(runs) == ref.runs, 'step %d: the wrapped component runs %d times, expected %d'
                  % (k, len(runs), ref.runs))
        states.append((state, snapshot(state)))
        if in_place:        # the script keeps one set of arrays for all steps
            for n, x in next_state.items():
                if n != 'time':
                    to = kept.setdefault(n, state[n])
                    new_values = np.array(x.values)
                    to.values[...] = new_values
                    to.attrs['units'] = x.attrs['units']
                    next_state[n] = to
        # what is carried to the next step: of the diagnostics of this step, those the stepper had been given
        carried = {n: x for n, x in new_v.items() if n in next_state}
        compare(ctx, next_state, carried, t + dtv, 'state after step %d' % k)
        ctx.check({'q', 'r', 'p'} <= set(next_state), 'the next state holds the prognostic quantities')
        state, v = next_state, carried
        if restart_after == k:
            # the process ends; another one carries on from the restart file with new objects
            sympl.RestartMonitor(path).store(state)
            model = Model(cfg, runs)
            state = sympl.RestartMonitor(path).load()
            compare(ctx, state, carried, t + dtv, 'restarted state')
            ctx.reach('restarted')
    for i, (st, snap) in enumerate(states if not in_place else ()):
        check_unmodified(ctx, snap, st, 'state of step %d at the end of the run' % i)
    return states


def configuration(ctx, B):
    cfg = dict(scheme=ctx.choose('scheme', B['schemes']), scaled=bool(ctx.choice('scaled', B['scaled'])),
               forcing=bool(ctx.choice('forcing', B['forcing'])), wild=bool(ctx.choice('wildcard', B['wild'])),
               interval=None, alpha=0.5)
    return cfg


def trajectory(ctx, B):
    cfg = configuration(ctx, B)
    if ctx.choose('update frequency', B['freq']):
        cfg['interval'] = ctx.timedelta('interval', 0 * DAY, DAY)
    dtv = ctx.choose('dt', B['dt'])
    run(ctx, cfg, B['steps'], dtv, ctx.date('t0'), ctx.choose('units', B['units']), in_place=ctx.flag('one set of arrays'))
    ctx.reach(cfg['scheme'])


class Keep(sympl.Monitor):
    def __init__(self, out):
        self.out = out

    def store(self, state):
        self.out.append((state['time'], content_of(state)))


TIMES = {'datetime': lambda: dt.datetime(2000, 2, 28, 23, 59, 58), 'timedelta': lambda: dt.timedelta(0),
         '360_day': lambda: sympl.datetime(2000, 2, 30, 23, 59, 58, calendar='360_day')}


def stored(ctx, B):
    """monitors hold what the run had at each time; a run which is restarted gives the same trajectory"""
    d = ncproxy.scratch()
    cfg = configuration(ctx, B)
    time = TIMES[ctx.choose('time', B['times'])]()
    wos = bool(ctx.choice('write on store', 2))
    names = ctx.choose('store_names', [None, ['q', 'h']])
    restart = None
    if HIST[cfg['scheme']] == 1:
        restart = ctx.choose('restart after step', [None] + list(range(B['steps'] - 1)))
    kw = {} if names is None else dict(store_names=names)
    path = os.path.join(d, 'out.nc')
    mon = sympl.NetCDFMonitor(path, write_on_store=wos, **kw)
    seen = []
    states = run(ctx, cfg, B['steps'], 3 * SEC, time, 'm', monitors=[mon, Keep(seen)], restart_after=restart,
                 path=os.path.join(d, 'restart.nc'))
    if not wos:
        mon.write()
    rows = []
    for k, (st, snap) in enumerate(states):
        t, q = seen[k]
        ctx.check(t == time + k * 3 * SEC and set(q) == set(st) - {'time'}, 'stored state of step %d' % k)
        rows.append((t, {n: x for n, x in q.items() if names is None or n in names}))
    check_rows(ctx, path, rows, 'file of the run')
    ctx.reach('stored')


HARNESSES = [
    Harness('trajectory', trajectory,
            dict(schemes=['AB1', 'AB2', 'AB3', 'Leapfrog', 'RK2', 'RK3'], scaled=2, forcing=2, wild=2, freq=[0, 1], steps=3, dt=[SEC / 2],
                 units=['km']),
            dict(schemes=['AB1', 'AB2', 'AB3', 'Leapfrog', 'RK2', 'RK3'], scaled=2, forcing=2, wild=2, freq=[0, 1], steps=4, dt=[SEC / 2, 3 * SEC],
                 units=['km', 'm']), reach=['AB1', 'AB2', 'AB3', 'Leapfrog', 'RK2', 'RK3']),
    Harness('stored', stored, dict(schemes=['AB1', 'Leapfrog', 'RK3'], scaled=1, forcing=2, wild=1, steps=3, times=list(TIMES)[:2]),
            dict(schemes=['AB1', 'AB3', 'Leapfrog', 'RK2', 'RK3'], scaled=2, forcing=2, wild=2, steps=4, times=list(TIMES)),
            reach=['stored', 'restarted']),
]
ASSUMPTIONS = ['timestep 0.5 s or 3 s; update interval 0 to 1 day; the first time is any date',
               'files as in C18 and C19: real files, symbolic values carried through as opaque tokens']
