"""C34 a call that fails leaves no trace."""
from .common import *


class Broken(Exception):
    pass


class World(object):
    """one object under test, the states it is given and all it has returned"""

    def __init__(self, what, B):
        self.fail_at = None           # number of executions of components until one raises
        self.wrong = None             # what is wrong with the outputs of the next execution
        self.kind, self.c = self.build(what, B)
        self.kept = []

    def part(self, kind, label, units):
        def fn(state, timestep):
            if self.fail_at is not None:
                self.fail_at -= 1
                if self.fail_at < 0:
                    self.fail_at = None
                    raise Broken()
            s = timestep.total_seconds() if timestep is not None else 1
            out = {'diagnostics': {'d' + label: state['q'] - state['r']}}
            if kind in ('tendency', 'implicit'):
                out['tendencies'] = {'q': state['q'] * 2 + state['r']}
                if label == '1':
                    out['tendencies']['p'] = state['r'] * 3
                slot = 'tendencies'
            elif kind == 'stepper':
                out['new_state'] = {'q': state['q'] + state['r'] * s, 'p': state['r'] * 3}
                slot = 'new_state'
            else:
                slot = 'diagnostics'
            wrong, self.wrong = self.wrong, None
            if wrong == 'output missing':
                out[slot].popitem()
            elif wrong == 'output extra':
                out[slot]['another'] = state['q'] + 0
            elif wrong == 'output shape':
                out[slot]['p'] = np.concatenate([out[slot]['p'], out[slot]['p']])
            return out
        t = {'q': {'dims': ['x'], 'units': units + ' s^-1'}}
        if label == '1':
            t['p'] = {'dims': ['z'], 'units': 'm s^-1'}
        o = {'q': {'dims': ['x'], 'units': 'm'}, 'p': {'dims': ['z'], 'units': 'm'}}
        return make_component(kind, {'q': {'dims': ['x'], 'units': units}, 'r': {'dims': ['x'], 'units': 'm'}}, fn,
                              diagnostics={'d' + label: {'dims': ['x'], 'units': 'm'}},
                              tendencies=t if kind in ('tendency', 'implicit') else {},
                              outputs=o if kind == 'stepper' else {})

    def build(self, what, B):
        self.executions = 1
        if what in KINDS:
            c = self.part(what, '1', 'm')
            return what, c
        if what == 'tid':
            kind = 'tendency'
            c = self.part(kind, '1', 'm')
            c = type(c)(tendencies_in_diagnostics=True)
            return kind, c
        if what == 'scale':
            return 'tendency', sympl.ScalingWrapper(self.part('tendency', '1', 'km'), input_scale_factors={'q': 2.},
                                                    tendency_scale_factors={'p': 3.}, diagnostic_scale_factors={'d1': 5.})
        if what == 'freq':
            return 'implicit', sympl.UpdateFrequencyWrapper(self.part('implicit', '1', 'm'), B['interval'])
        if what == 'freq_stepper':
            return 'stepper', sympl.UpdateFrequencyWrapper(
                sympl.AdamsBashforth(self.part('tendency', '1', 'm'), order=2), B['interval'])
        if what == 'diff':
            return 'implicit', sympl.TimeDifferencingWrapper(self.part('stepper', '1', 'm'))
        if what == 'sum':
            self.executions = 2
            return 'implicit', sympl.ImplicitTendencyComponentComposite(
                self.part('tendency', '1', 'km'), self.part('implicit', '2', 'm'))
        if what == 'diagnostics':
            self.executions = 2
            return 'diagnostic', sympl.DiagnosticComponentComposite(
                self.part('diagnostic', '1', 'km'), self.part('diagnostic', '2', 'm'))
        ps = self.part('tendency', '1', 'km'), self.part('tendency', '2', 'm')
        self.executions = 2
        if what == 'ab':
            return 'stepper', sympl.AdamsBashforth(*ps, order=3)
        if what == 'ab_freq':
            return 'stepper', sympl.AdamsBashforth(ps[0], sympl.UpdateFrequencyWrapper(ps[1], B['interval']), order=2)
        if what in ('rk2', 'rk3'):
            n = int(what[2])
            self.executions = 2 * n
            return 'stepper', sympl.SSPRungeKutta(*ps, stages=n)
        if what == 'leapfrog':
            return 'stepper', sympl.Leapfrog(*ps, asselin_strength=0.25, alpha=0.5)
        raise ValueError(what)

    def state(self, t, v):
        return {'time': t, 'q': da(np.array(v['q']), ['x'], 'm'), 'r': da(np.array(v['r']), ['x'], 'km'),
                'p': da(np.array(v['p']), ['z'], 'm'), 'rest': da(np.array(v['r']), ['x'], 'kg')}

    def call(self, state, dtv):
        return call_component(self.kind, self.c, state, dtv)


WHAT = KINDS + ['tid', 'scale', 'freq', 'freq_stepper', 'diff', 'sum', 'diagnostics', 'ab', 'ab_freq', 'rk2', 'rk3',
                'leapfrog']
ONE_STEP = ('ab', 'ab_freq', 'rk2', 'rk3', 'leapfrog', 'freq_stepper')


def faults(what, k):
    out = ['none', 'missing input', 'bad units', 'raise', 'output missing', 'output extra']
    if what in ONE_STEP + ('diff',):
        out.append('missing stepped')         # an output that is not an input of any component
    if what in ('ab', 'ab_freq', 'rk2', 'rk3', 'leapfrog'):
        out.append('output shape')
    if k and what in ('ab', 'ab_freq', 'leapfrog'):
        out.append('timestep')                # fixed by the first call
    return out


def same_quantities(ctx, a, b, label):
    ctx.check(set(a) == set(b), '%s: quantities %s, expected %s' % (label, sorted(a), sorted(b)))
    for k in sorted(set(a) & set(b)):
        if k == 'time':
            ctx.check(a[k] == b[k], label + ': time')
            continue
        ctx.same(a[k].values, b[k].values, '%s: %s' % (label, k))
        ctx.check(a[k].dims == b[k].dims and a[k].attrs == b[k].attrs, '%s: labels of %s' % (label, k))


def trace(ctx, B):
    what = ctx.choose('object', B['what'])
    bounds = {'interval': ctx.timedelta('interval', SEC, DAY)} if 'freq' in what else {}
    w, ref = World(what, bounds), World(what, bounds)
    cached = 'freq' in what
    dtv = ctx.timedelta('dt', MS, 60 * SEC) if what != 'diff' else 2 * SEC
    t = ctx.date('t')
    v = {k: ctx.array(k, (2,)) for k in ('q', 'r', 'p')}
    left = B['faults']
    states = [w.state(t, v)], [ref.state(t, v)]
    outs = [], []
    for k in range(B['calls']):
        state, rstate = states[0][-1], states[1][-1]
        fault = ctx.choose('fault before call %d' % k, faults(what, k) if left else ['none'])
        if fault != 'none':
            left -= 1
            s, step = state, dtv
            if fault == 'missing input':
                s = {n: x for n, x in state.items() if n != 'r'}
            elif fault == 'missing stepped':
                s = {n: x for n, x in state.items() if n != 'p'}
            elif fault == 'bad units':
                s = dict(state, r=da(np.array(state['r'].values), ['x'], 'kg'))
            elif fault == 'raise':
                w.fail_at = ctx.choice('execution', w.executions)
            elif fault == 'timestep':
                step = dtv + MS
            else:
                w.wrong = fault
            later_stage = fault == 'raise' and what in ('rk2', 'rk3') and w.fail_at > 1
            if k == 0 and not later_stage and ctx.flag('with another timestep'):
                step = dtv + MS
            snap, entries = snapshot(s), dict(s)
            r, e = ctx.attempt(lambda: w.call(s, step), Exception)
            w.fail_at = w.wrong = None
            if not (cached and k):
                ctx.check(e is not None, '%s: no exception' % fault)
            if e is None:
                ctx.reach('cached')           # answered from the cache: nothing has failed
                if what == 'ab_freq':         # ... and a step has been taken
                    return
            else:
                ctx.reach('failed')
            check_unmodified(ctx, snap, s, 'state of the failed call')
            ctx.check(all(s[n] is x for n, x in entries.items()), 'entries of the state of the failed call')
        if left < B['faults']:
            ctx.reach('call after failure')
        out, want = w.call(state, dtv), ref.call(rstate, dtv)
        outs[0].append(out)
        outs[1].append(want)
        for j, (o, x) in enumerate(zip(*outs)):
            for p in x:
                same_quantities(ctx, o[p], x[p], 'call %d: %s of call %d' % (k, p, j))
        for j, (o, x) in enumerate(zip(*states)):
            same_quantities(ctx, o, x, 'call %d: state %d' % (k, j))
        t = t + dtv
        new = []
        for s, o in ((state, out), (rstate, want)):
            s = dict(s)
            s.update(o['new_state'])
            s['time'] = t
            if w.kind != 'stepper':
                s['q'] = da(s['q'].values * 3 + 1, ['x'], 'm')
            new.append(s)
        states[0].append(new[0])
        states[1].append(new[1])


HARNESSES = [
    Harness('trace', trace, dict(what=WHAT, calls=3, faults=1), dict(what=WHAT, calls=4, faults=2),
            reach=['failed', 'cached', 'call after failure']),
]
ASSUMPTIONS = ['one failing call per history (thorough: two); timesteps of up to a minute',
               'the failing component does not itself modify what it is given']
