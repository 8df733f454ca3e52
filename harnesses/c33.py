"""C33 printing: str and repr of every object, at any point of its life."""
from .common import *

Q = {'q': {'dims': ['x'], 'units': 'm'}, 'r': {'dims': ['x'], 'units': 'm'}}


def part(kind, label):
    """a component of the kind with one output and one diagnostic of its own"""
    def fn(state, timestep):
        out = {'diagnostics': {'d' + label: state['q'] - state['r']}}
        if kind in ('tendency', 'implicit'):
            out['tendencies'] = {'q': state['q'] * 2 + state['r']}
        elif kind == 'stepper':
            out['new_state'] = {'q': state['q'] + state['r']}
        return out
    name = {'tendency': 'Aa', 'implicit': 'Bb', 'diagnostic': 'Cc', 'stepper': 'Dd'}[kind] + label
    return make_component(kind, {k: dict(v) for k, v in Q.items()}, fn,
                          diagnostics={'d' + label: {'dims': ['x'], 'units': 'm'}},
                          tendencies={'q': {'units': 'm s^-1'}} if kind in ('tendency', 'implicit') else {},
                          outputs={'q': {'units': 'm'}} if kind == 'stepper' else {}, class_name=name)


class Watcher(sympl.Monitor):
    def __init__(self):
        self.stored = []

    def store(self, state):
        self.stored.append(dict(state))


def build(what):
    """-> (object, members, kind of call)"""
    if what in KINDS:
        return part(what, '1'), [], what
    if what in ('freq', 'scale'):
        p = part('tendency', '1')
        return (sympl.UpdateFrequencyWrapper(p, DAY) if what == 'freq' else
                sympl.ScalingWrapper(p, input_scale_factors={'q': 2.})), [], 'tendency'
    if what == 'diff':
        return sympl.TimeDifferencingWrapper(part('stepper', '1')), [], 'implicit'
    if what == 'monitors':
        ms = [Watcher(), Watcher()]
        return sympl.MonitorComposite(*ms), ms, 'monitor'
    if what == 'monitor':
        return Watcher(), [], 'monitor'
    cls = {'tendencies': (sympl.TendencyComponentComposite, 'tendency'),
           'implicits': (sympl.ImplicitTendencyComponentComposite, 'implicit'),
           'diagnostics': (sympl.DiagnosticComponentComposite, 'diagnostic'),
           'nested': (sympl.TendencyComponentComposite, 'tendency')}
    if what in cls:
        c, kind = cls[what]
        ms = [part(kind, '1'), part(kind, '2')]
        return (c(c(ms[0]), ms[1]) if what == 'nested' else c(*ms)), ms, kind
    ms = [part('tendency', '1'), part('tendency', '2')]
    if what == 'ab':
        return sympl.AdamsBashforth(*ms, order=3), ms, 'stepper'
    if what == 'rk':
        return sympl.SSPRungeKutta(*ms, stages=2), ms, 'stepper'
    return sympl.Leapfrog(*ms), ms, 'stepper'


def own(state):
    # Leapfrog filters the arrays it is given in place
    return {k: da(np.array(v.values), v.dims, 'm') if hasattr(v, 'dims') else v for k, v in state.items()}


WHAT = KINDS + ['freq', 'scale', 'diff', 'monitor', 'monitors', 'tendencies', 'implicits', 'diagnostics', 'nested',
                'ab', 'rk', 'leapfrog']


def use(what, kind, c, state, dtv):
    if kind == 'monitor':
        c.store(state)
        return {}
    return call_component(kind, c, state, dtv)


def printing(ctx, B):
    what = ctx.choose('object', WHAT)
    c, members, kind = build(what)
    twin, _, _ = build(what)
    related = ctx.choose('reference', ['none', 'to itself', 'members to the whole'] if members else
                         ['none', 'to itself'])
    if what in ('freq', 'scale'):
        ctx.assume(related == 'none')       # assigning to these assigns to the wrapped object
    if related == 'to itself':
        c.companion = c
    elif related == 'members to the whole':
        for m in members:
            m.companion = c
    dtv = 2 * SEC
    t = ctx.date('t')
    n = 0

    def text(f):
        txt = f(c)
        ctx.check(isinstance(txt, str) and type(c).__name__ in txt, '%s names the class' % f.__name__)
        for m in members:
            ctx.check(type(m).__name__ in txt, '%s mentions the members' % f.__name__)
        if f is str and what in KINDS:
            for name in ('q', 'r', 'd1'):
                ctx.check("'%s'" % name in txt, 'str names the quantity %s' % name)
        ctx.reach(f.__name__)
    for i in range(B['steps']):
        op = ctx.choose('step %d' % i, ['use', 'print', 'fail'] if i < B['steps'] - 1 else ['use'])
        if op == 'print':
            for f in ((repr, str) if ctx.flag('repr first') else (str, repr)):
                text(f)
            continue
        state = {'time': t + n * dtv}
        for k in ('q', 'r', 'z'):
            state[k] = da(ctx.array('%s%d' % (k, i), (2,)), ['x'], 'm')
        if op == 'fail':
            if kind == 'monitor':
                continue
            del state['r']
            for o in (c, twin):
                ctx.attempt(lambda: use(what, kind, o, own(state), dtv), Exception)
            ctx.reach('failed')
            continue
        n += 1
        got, want = (use(what, kind, o, own(state), dtv) for o in (c, twin))
        for p in want:
            ctx.check(set(got[p]) == set(want[p]), '%s after printing: %s' % (p, sorted(got[p])))
            for k in want[p]:
                if k == 'time':
                    ctx.check(got[p][k] == want[p][k], 'time after printing')
                elif k in got[p]:
                    ctx.same(got[p][k].values, want[p][k].values, '%s after printing' % k)
                    ctx.check(got[p][k].attrs == want[p][k].attrs, 'attributes of %s' % k)
        if what == 'monitor':
            ctx.check(len(c.stored) == n, 'stored states')
    if what not in ('freq', 'scale'):
        for f in (repr, str):
            text(f)
    else:
        ctx.check(isinstance(repr(c), str) and isinstance(str(c), str), 'printable')


HARNESSES = [
    Harness('printing', printing, dict(steps=3), dict(steps=5), reach=['repr', 'str', 'failed']),
]
ASSUMPTIONS = ['wrappers (ScalingWrapper, UpdateFrequencyWrapper) only need to be printable: they have no text of their own']
