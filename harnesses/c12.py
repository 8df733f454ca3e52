"""C12 UpdateFrequencyWrapper."""
from .common import *
from . import shapes
from . import histories
from . import large


class Boom(Exception):
    pass


def frequency(ctx, B):
    kind = ctx.choose('kind', B['kinds'])
    give_dt = True if kind in ('implicit', 'stepper') else ctx.flag('timestep given')
    meddle = ctx.choice('what the caller does with results', B['meddle'])
    fail_at = ctx.choice('call at which the component raises (0: none)', B['fail'])
    interval = ctx.timedelta('interval', 0 * DAY, 10 * DAY)
    dtv = ctx.timedelta('dt', MS, MAXDT)
    runs, seen_dt = [], []
    state_now = [None]

    def fn(state, timestep):
        if fail_at and calls[0] == fail_at:
            raise Boom()
        k = len(runs)
        runs.append(k)
        seen_dt.append(timestep)
        slot = {'tendency': 'tendencies', 'implicit': 'tendencies', 'diagnostic': 'diagnostics',
                'stepper': 'new_state'}[kind]
        out = {slot: {'q': state['q'] * 2 + k}}
        out.setdefault('diagnostics', {})['d'] = state['q'] - k
        return out
    qu = 'K s^-1' if kind in ('tendency', 'implicit') else 'K'
    props = {'q': {'dims': ['x'], 'units': qu}}
    calls = [0]
    dp = {'d': {'dims': ['x'], 'units': 'K'}}
    if kind == 'diagnostic':
        dp.update(props)
    comp = make_component(kind, {'q': {'dims': ['x'], 'units': 'K'}}, fn, diagnostics=dp,
                          tendencies=props if kind in ('tendency', 'implicit') else {},
                          outputs=props if kind == 'stepper' else {})
    w = sympl.UpdateFrequencyWrapper(comp, interval)
    ctx.check(w.input_properties == comp.input_properties, 'properties of the wrapped component')
    last = None
    want = None
    state = None
    for k in range(B['calls']):
        calls[0] = k + 1
        t = ctx.date('t%d' % k)
        q = ctx.array('q%d' % k, (2,))
        state = {'time': t, 'q': da(q, 'x', 'K', note='n')}
        snap = snapshot(state)
        due = True if last is None else (t >= last + interval)
        before = len(runs)
        raised = False
        try:
            r = w(state, dtv) if give_dt else w(state)
        except Boom:
            raised = True
        check_unmodified(ctx, snap, state, 'state of call %d' % (k + 1))
        executed = raised or len(runs) > before
        ctx.check(len(runs) - before <= 1, 'executed more than once in call %d' % (k + 1))
        ctx.check(ctx.iff(executed, due), 'call %d executes exactly when due' % (k + 1))
        if raised:
            ctx.check(fail_at == k + 1, 'error of an earlier call raised')
            ctx.reach('raised')
            continue
        if fail_at == k + 1:
            ctx.check(ctx.lnot(due), 'error of the component is not hidden')
        if executed:
            last = t
            j = len(runs) - 1
            want = {'q': np.array(q) * 2 + j, 'd': np.array(q) - j}
            if kind in ('implicit', 'stepper'):
                ctx.check(seen_dt[-1] is dtv or seen_dt[-1] == dtv, 'timestep passed on')
            ctx.reach('executed%d' % k)
        else:
            ctx.reach('cached%d' % k)
        if kind == 'diagnostic':
            got, parts = dict(r), [r]
        else:
            got = {'q': r[0]['q'], 'd': r[1]['d']} if kind != 'stepper' else {'q': r[1]['q'], 'd': r[0]['d']}
            parts = list(r)
        for n in ('q', 'd'):
            ctx.same(got[n], want[n], 'output %s of call %d' % (n, k + 1))
            ctx.check(tuple(got[n].dims) == ('x',) and got[n].attrs.get('units') == (qu if n == 'q' else 'K'),
                      'dims and units of %s of call %d' % (n, k + 1))
        if meddle == 1:
            for p in parts:
                for n in p:
                    if hasattr(p[n], 'values'):
                        p[n].values[...] = 7.
                        p[n].attrs['units'] = 'mK'
        elif meddle == 2:
            for p in parts:
                p.clear()
    ctx.reach('done')


HARNESSES = [
    Harness('frequency', frequency, dict(kinds=KINDS, meddle=3, fail=1, calls=4),
            dict(kinds=KINDS, meddle=3, fail=1, calls=6),
            reach=['done', 'cached1', 'executed3', 'cached3']),
    Harness('failing', frequency, dict(kinds=KINDS, meddle=1, fail=4, calls=3),
            dict(kinds=KINDS, meddle=1, fail=5, calls=5), reach=['done', 'raised']),
    large.FREQUENCY,
]
HARNESSES.append(histories.FREQUENCY)
ASSUMPTIONS = ['state times are any dates within 400 days of each other, in any order; interval 0..10 days']
HARNESSES.append(shapes.FREQUENCY)
