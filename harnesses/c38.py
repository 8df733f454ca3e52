"""C38 Copies of components, wrappers and steppers behave like the original, and independently of it."""
import copy
import pickle
from .common import *

QX = {'dims': ['x'], 'units': 'm'}


class Tend(sympl.TendencyComponent):
    """has memory of its own: the number of calls, and what it was given last"""
    input_properties = {'q': {'dims': ['x'], 'units': 'm'}}
    tendency_properties = {'q': {'dims': ['x'], 'units': 'm s^-1'}}
    diagnostic_properties = {'n': {'dims': [], 'units': ''}, 'last': {'dims': ['x'], 'units': 'm'}}

    def __init__(self, **kwargs):
        super(Tend, self).__init__(**kwargs)
        self.calls, self.memory = 0, {'list': []}

    def array_call(self, state):
        self.calls += 1
        last = self.memory['list'][-1] if self.memory['list'] else state['q'] * 0
        self.memory['list'].append(np.array(state['q']))
        return {'q': state['q'] * 2 - last}, {'n': np.array(float(self.calls)), 'last': last}


class Impl(sympl.ImplicitTendencyComponent):
    input_properties = Tend.input_properties
    tendency_properties = Tend.tendency_properties
    diagnostic_properties = Tend.diagnostic_properties
    __init__ = None

    def array_call(self, state, timestep):
        return Tend.array_call(self, state)


def _init(cls):
    def __init__(self, **kwargs):
        super(cls, self).__init__(**kwargs)
        self.calls, self.memory = 0, {'list': []}
    cls.__init__ = __init__


_init(Impl)


class Step(sympl.Stepper):
    input_properties = Tend.input_properties
    output_properties = Tend.input_properties
    diagnostic_properties = Tend.diagnostic_properties

    def array_call(self, state, timestep):
        t, d = Tend.array_call(self, state)
        return d, t


_init(Step)


class Diag(sympl.DiagnosticComponent):
    input_properties = Tend.input_properties
    diagnostic_properties = Tend.diagnostic_properties

    def array_call(self, state):
        return Tend.array_call(self, state)[1]


_init(Diag)


class Tracing(sympl.TendencyComponent):
    input_properties = {'q': {'dims': ['x'], 'units': 'm'}}
    tendency_properties = {'q': {'dims': ['x'], 'units': 'm s^-1'}}
    diagnostic_properties = {}
    uses_tracers = True
    tracer_dims = ('tracer', 'x')

    def array_call(self, state):
        return {'q': state['q'] * 3, 'tracers': state['tracers'] * 2}, {}


# how the object is made, and how it is called
def make(which, ctx, shared):
    """objects are made with the same (symbolic) parameters each time"""
    def par(label, new):
        if shared.get('numbers'):     # can be pickled
            return {'interval': DAY / 24, 'factor': 2.5, 'constant': np.array([1., 2.])}[label]
        if label not in shared:
            shared[label] = new()
        return shared[label]
    if which == 'tendency':
        return Tend(tendencies_in_diagnostics=True, name='n')
    if which == 'implicit':
        return Impl()
    if which == 'stepper':
        return Step(tendencies_in_diagnostics=True, name='n')
    if which == 'diagnostic':
        return Diag()
    if which == 'tracers':
        return Tracing()
    if which.startswith('AdamsBashforth'):
        return sympl.AdamsBashforth(Tend(), order=int(which[-1]))
    if which == 'Leapfrog':
        return sympl.Leapfrog(Tend(), asselin_strength=0.25, alpha=0.5)
    if which.startswith('SSPRungeKutta'):
        return sympl.SSPRungeKutta(Tend(), stages=int(which[-1]))
    if which == 'composite':
        return sympl.TendencyComponentComposite(Tend())
    if which == 'implicit composite':
        return sympl.ImplicitTendencyComponentComposite(Impl())
    if which == 'diagnostic composite':
        return sympl.DiagnosticComponentComposite(Diag())
    if which.startswith('UpdateFrequencyWrapper'):
        inner = {'tendency': Tend, 'stepper': Step}[which.split()[1]]()
        return sympl.UpdateFrequencyWrapper(inner, par('interval', lambda: ctx.timedelta('interval', 0 * US, DAY)))
    if which.startswith('ScalingWrapper'):
        f = par('factor', lambda: ctx.real('factor', -4, 4))
        if which.endswith('stepper'):
            return sympl.ScalingWrapper(Step(), output_scale_factors={'q': f})
        return sympl.ScalingWrapper(Tend(), tendency_scale_factors={'q': f})
    if which == 'TimeDifferencingWrapper':
        return sympl.TimeDifferencingWrapper(Step())
    if which == 'nested':
        f = par('factor', lambda: ctx.real('factor', -4, 4))
        w = sympl.ScalingWrapper(Tend(), tendency_scale_factors={'q': f})
        return sympl.UpdateFrequencyWrapper(w, par('interval', lambda: ctx.timedelta('interval', 0 * US, DAY)))
    if which == 'stepper of wrapper':
        w = sympl.UpdateFrequencyWrapper(Tend(), par('interval', lambda: ctx.timedelta('interval', 0 * US, DAY)))
        return sympl.AdamsBashforth(w, order=2)
    if which == 'relaxation':
        return sympl.RelaxationTendencyComponent('q', 'm', tendencies_in_diagnostics=True, name='n')
    if which == 'constant':
        v = par('constant', lambda: ctx.array('constant', (2,)))
        return sympl.ConstantTendencyComponent({'q': da(np.array(v), ['x'], 'm s^-1')})
    raise KeyError(which)


STEPPING = ('stepper', 'AdamsBashforth', 'Leapfrog', 'SSPRungeKutta', 'implicit', 'implicit composite',
            'TimeDifferencingWrapper', 'stepper of wrapper')


def call(which, obj, state, dt):
    steps = which in STEPPING or any(which.startswith(s) for s in STEPPING[1:4]) or which.endswith(' stepper')
    r = obj(state, dt) if steps else obj(state)
    return r if isinstance(r, tuple) else (r,)


def compare(ctx, got, want, label):
    ctx.check(len(got) == len(want), label)
    for i, (g, w) in enumerate(zip(got, want)):
        ctx.check(set(g) == set(w), '%s: names in part %d' % (label, i))
        for n in set(g) & set(w):
            if not hasattr(w[n], 'dims'):
                ctx.check(g[n] == w[n], '%s: %s' % (label, n))
                continue
            ctx.check(tuple(g[n].dims) == tuple(w[n].dims) and dict(g[n].attrs) == dict(w[n].attrs),
                      '%s: label of %s' % (label, n))
            ctx.close(g[n].values, w[n].values, '%s: %s' % (label, n), tol=1e-6)


def copies(ctx, B):
    which = ctx.choose('object', B['objects'])
    before = ctx.choose('calls before it is copied', B['before'])
    how = ctx.choose('copied by', ['deepcopy', 'pickle'] if before == 0 else ['deepcopy'])
    if which == 'tracers':
        sympl.register_tracer('A', 'kg')
    shared = {'numbers': how == 'pickle'}
    original = make(which, ctx, shared)
    ref = {'original': make(which, ctx, shared), 'copy': make(which, ctx, shared)}
    dt = ctx.timedelta('dt', SEC, DAY)
    times = []

    def state(k):
        s = {'time': ctx.date('t%d' % k), 'q': ctx.array('q%d' % k, (2,)), 'A': ctx.array('A%d' % k, (2,)),
             'e': ctx.array('e%d' % k, (2,)), 'o': ctx.array('o%d' % k, (2,))}
        if times:      # each at most a week after the one before
            ctx.assume((s['time'] >= times[-1]) & (s['time'] <= times[-1] + 7 * DAY) if ctx.symbolic else
                       times[-1] <= s['time'] <= times[-1] + 7 * DAY)
        times.append(s['time'])

        def build():
            b = {'time': s['time'], 'q': DataArray(np.array(s['q']), dims=['x'], attrs={'units': 'm'}),
                 'o': DataArray(np.array(s['o']), dims=['x'], attrs={'units': 's'})}
            if which == 'tracers':
                b['A'] = DataArray(np.array(s['A']), dims=['x'], attrs={'units': 'kg'})
            if which == 'relaxation':
                b['equilibrium_q'] = DataArray(np.array(s['e']), dims=['x'], attrs={'units': 'm'})
                b['q_relaxation_timescale'] = DataArray(np.full(2, 2.), dims=['x'], attrs={'units': 's'})
            return b
        return build
    k = 0
    for _ in range(before):
        st = state(k)
        k += 1
        r = call(which, original, st(), dt)
        for x in ref.values():
            compare(ctx, r, call(which, x, st(), dt), 'call before the copy')
    try:
        second = copy.deepcopy(original) if how == 'deepcopy' else pickle.loads(pickle.dumps(original))
    except RecursionError as e:
        ctx.check(False, 'copying %s: RecursionError' % which)
        return
    ctx.check(type(second) is type(original), 'kind of the copy')
    for base in (sympl.TendencyComponent, sympl.ImplicitTendencyComponent, sympl.Stepper, sympl.DiagnosticComponent):
        ctx.check(isinstance(second, base) == isinstance(original, base), 'the copy is a %s' % base.__name__)
    for p in ('input_properties', 'output_properties', 'tendency_properties', 'diagnostic_properties'):
        ctx.check(getattr(second, p, None) == getattr(original, p, None), '%s of the copy' % p)
    real = {'original': original, 'copy': second}
    for i in range(B['after']):
        who = ctx.choose('called %d' % i, ['original', 'copy'])
        st = state(k)
        k += 1
        a, b = st(), st()
        got, want = call(which, real[who], a, dt), call(which, ref[who], b, dt)
        compare(ctx, got, want, 'call of the %s' % who)
        compare(ctx, (a,), (b,), 'state handed to the %s' % who)
    ctx.reach('done')


OBJECTS = ['tendency', 'implicit', 'stepper', 'diagnostic', 'tracers', 'AdamsBashforth 3', 'Leapfrog', 'SSPRungeKutta 3',
           'composite', 'implicit composite', 'diagnostic composite', 'UpdateFrequencyWrapper tendency',
           'UpdateFrequencyWrapper stepper', 'ScalingWrapper tendency', 'ScalingWrapper stepper',
           'TimeDifferencingWrapper', 'nested', 'stepper of wrapper', 'relaxation', 'constant']
HARNESSES = [
    Harness('copies', copies, dict(objects=OBJECTS, before=[0, 1, 2], after=2),
            dict(objects=OBJECTS + ['AdamsBashforth 4', 'SSPRungeKutta 2'], before=[0, 1, 2, 3], after=3),
            reach=['done'],
            note='differential: two further objects are fed with the calls of the original and of the copy'),
]
ASSUMPTIONS = ['shallow copies (copy.copy) share what the object has stored, and are not considered']
