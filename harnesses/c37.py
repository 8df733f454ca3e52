"""C37 objects of one model do not influence each other."""
from .common import *

P = {'dims': ['x'], 'units': 'm'}
T = {'dims': ['x'], 'units': 'm s^-1'}


class Parts(object):
    """classes written by a user, and instances of them; `shared`: one instance serves every assembly"""
    def __init__(self, shared):
        self.shared = shared
        self.made = {}

        class Tend(sympl.TendencyComponent):
            input_properties = {'q': {'dims': ['x'], 'units': 'km'}, 'r': dict(P)}
            tendency_properties = {'q': {'units': 'm s^-1'}}
            diagnostic_properties = {'d': dict(P)}

            def array_call(self, state):
                q = state['q'] * 1000
                return {'q': q * 2 + state['r']}, {'d': q - state['r']}

        class Other(sympl.ImplicitTendencyComponent):
            input_properties = {'r': dict(P)}
            tendency_properties = {'q': dict(T), 'r': dict(T)}
            diagnostic_properties = {'e': dict(P)}

            def array_call(self, state, timestep):
                return {'q': state['r'] * 3, 'r': state['r'] * timestep.total_seconds()}, {'e': state['r'] * 7}

        class Step(sympl.Stepper):
            input_properties = {'q': dict(P), 'r': dict(P)}
            output_properties = {'q': dict(P)}
            diagnostic_properties = {'h': dict(P)}

            def array_call(self, state, timestep):
                return {'h': state['q'] * 5}, {'q': state['q'] + state['r'] * timestep.total_seconds()}

        class Diag(sympl.DiagnosticComponent):
            input_properties = {'q': dict(P)}
            diagnostic_properties = {'g': dict(P)}

            def array_call(self, state):
                return {'g': state['q'] * 11}

        class Packed(sympl.TendencyComponent):
            input_properties = {'q': dict(P)}
            tendency_properties = {'q': dict(T)}
            diagnostic_properties = {}
            uses_tracers = True
            tracer_dims = ('tracer', 'x')

            def array_call(self, state):
                return {'q': state['q'] * 2, 'tracers': state['tracers'] * 3}, {}
        self.classes = dict(Tend=Tend, Other=Other, Step=Step, Diag=Diag, Packed=Packed)
        self.constant = {'q': DataArray(np.array([2., 4.]), dims=['x'], attrs={'units': 'm s^-1'})}

    def new(self, cls, **kw):
        return self.classes[cls](**kw)

    def get(self, name):
        if not self.shared:
            return self.new(name)
        return self.made.setdefault(name, self.new(name))


def make(parts, what, second, interval):
    """the first or the second assembly of this sort: the same parts, other settings"""
    g = parts.get
    if what == 'tendency':
        return parts.new('Tend', **({} if second else dict(tendencies_in_diagnostics=True)))
    if what == 'implicit':
        return parts.new('Other', **(dict(name='One') if second else dict(tendencies_in_diagnostics=True, name='Two')))
    if what == 'stepper':
        return parts.new('Step', **({} if second else dict(tendencies_in_diagnostics=True, name='Two')))
    if what == 'tracers':
        return parts.new('Packed')
    if what == 'freq':
        return sympl.UpdateFrequencyWrapper(g('Tend'), interval * 2 if second else interval)
    if what == 'scale':
        return sympl.ScalingWrapper(g('Tend'), input_scale_factors={'q': 3.} if second else {'r': 2.},
                                    tendency_scale_factors={'q': 0.5}, diagnostic_scale_factors=None if second else {'d': 4.})
    if what == 'diff':
        return sympl.TimeDifferencingWrapper(g('Step'))
    if what == 'composite':
        return sympl.ImplicitTendencyComponentComposite(*([g('Other'), g('Tend')] if second else [g('Tend')]))
    if what == 'diagnostics':
        return sympl.DiagnosticComponentComposite(g('Diag'))
    if what == 'constant':
        c = sympl.ConstantTendencyComponent(parts.constant, **(dict(tendencies_in_diagnostics=True) if second else {}))
        return sympl.AdamsBashforth(c, g('Tend'), order=1) if second else c
    if what == 'relaxation':
        return sympl.RelaxationTendencyComponent(*(('r', 'm') if second else ('q', 'km')))
    if what == 'AB':
        return sympl.AdamsBashforth(g('Tend'), g('Other'), order=3 if second else 2)
    if what == 'AB tid':
        return sympl.AdamsBashforth(g('Tend'), **(dict(order=2) if second else dict(order=2, tendencies_in_diagnostics=True)))
    if what == 'AB of composite':
        return sympl.AdamsBashforth(sympl.ImplicitTendencyComponentComposite(g('Other'), g('Tend')), order=2)
    if what == 'RK':
        return sympl.SSPRungeKutta(g('Tend'), g('Other'), stages=3 if second else 2)
    if what == 'Leapfrog':
        return sympl.Leapfrog(g('Tend'), g('Other'), asselin_strength=0.5 if second else 0.25)
    if what == 'AB freq':
        return sympl.AdamsBashforth(sympl.UpdateFrequencyWrapper(g('Tend'), interval), order=2)


def same_result(ctx, got, want, label):
    if isinstance(got, dict):
        got, want = (got,), (want,)
    ctx.check(len(got) == len(want), label + ': number of results')
    for i, (g, w) in enumerate(zip(got, want)):
        ctx.check(set(g) == set(w), '%s: result %d holds %s, expected %s' % (label, i, sorted(g), sorted(w)))
        for n in set(g) & set(w):
            if n == 'time':
                ctx.check(g[n] == w[n], label + ': time')
                continue
            ctx.check(g[n].dims == w[n].dims and g[n].attrs.get('units') == w[n].attrs.get('units'), '%s: dims and units of %s' % (label, n))
            if g[n].dims == w[n].dims:
                ctx.same(g[n].values, w[n].values, '%s: %s' % (label, n))


def properties(c):
    return [{k: dict(v, dims=tuple(v['dims']) if 'dims' in v else None) for k, v in getattr(c, a).items()}
            for a in ('input_properties', 'tendency_properties', 'diagnostic_properties', 'output_properties') if hasattr(c, a)]


def independent(ctx, B):
    whats = [ctx.choose('first', B['first']), ctx.choose('second', B['second'])]
    if whats[1] is None:
        whats[1] = whats[0]
    shared = ctx.flag('members shared')
    sched = [ctx.choice('object of call %d' % k, 2) for k in range(B['calls'])]
    created_late = ctx.flag('second created after the first call')
    interval = ctx.timedelta('interval', 0 * DAY, DAY) if any('freq' in w for w in whats) else None
    if 'tracers' in whats:
        sympl.register_tracer('r', 'm')
    dts = [2 * SEC, SEC / 2]
    times = [ctx.date('t%d' % k) for k in range(B['calls'])] if interval is not None else [dt.datetime(2000, 1, 1)] * B['calls']
    vals = [{n: ctx.array('%s%d' % (n, k), (2,)) for n in 'qr'} for k in range(B['calls'])]

    def state(k):
        st = {'time': times[k], 'q': da(np.array(vals[k]['q']), 'x', 'km'), 'r': da(np.array(vals[k]['r']), 'x', 'm')}
        for n, u in (('q', 'km'), ('r', 'm')):
            st['equilibrium_' + n] = da(np.array([1., 2.]), 'x', u)
            st[n + '_relaxation_timescale'] = da(np.array([2., 4.]), 'x', 's')
        return st

    def call(c, i, st):
        steps = isinstance(c, sympl.Stepper) or isinstance(c, sympl.ImplicitTendencyComponent)
        return c(st, dts[i]) if steps else c(st)
    # each alone
    alone, props = {}, {}
    for i in (0, 1):
        parts = Parts(False)
        c = make(parts, whats[i], bool(i), interval)
        for k, j in enumerate(sched):
            if i == j:
                st = state(k)
                alone[k] = (call(c, i, st), st)
        props[i] = properties(c)
    # together
    parts = Parts(shared)
    objs = {0: make(parts, whats[0], False, interval)}
    if not created_late:
        objs[1] = make(parts, whats[1], True, interval)
    kept = []
    for k, j in enumerate(sched):
        if j not in objs:
            objs[j] = make(parts, whats[j], bool(j), interval)
        st = state(k)
        r = call(objs[j], j, st)
        same_result(ctx, r, alone[k][0], 'call %d (object %d)' % (k, j))
        same_result(ctx, {n: v for n, v in st.items()}, alone[k][1], 'call %d: state given' % k)
        kept.append((r, k))
    for r, k in kept:
        same_result(ctx, r, alone[k][0], 'result of call %d at the end' % k)
    for i in objs:
        ctx.check(properties(objs[i]) == props[i], 'properties of object %d' % i)
    ctx.reach(whats[0])


ALL = ['tendency', 'implicit', 'stepper', 'tracers', 'freq', 'scale', 'diff', 'composite', 'diagnostics', 'constant',
       'relaxation', 'AB', 'AB tid', 'AB of composite', 'RK', 'Leapfrog', 'AB freq']
def dictionaries(ctx, B):
    """dictionaries given to an object may be changed afterwards, to create the next one from them"""
    kind = ctx.choose('kind', KINDS)
    slot = {'diagnostic': 'diagnostics', 'stepper': 'new_state'}.get(kind, 'tendencies')
    u = 'm s^-1' if slot == 'tendencies' else 'm'
    arg = {'diagnostics': 'diagnostic', 'new_state': 'output', 'tendencies': 'tendency'}[slot] + '_scale_factors'
    out = {'p': {'dims': ['x'], 'units': u}, 'o': {'dims': ['x'], 'units': u}}
    comp = make_component(kind, {'q': dict(P), 'r': dict(P)},
                          lambda s, t: {slot: {'p': s['q'] * 2 + s['r'], 'o': s['r'] * 3}}, **slot_props(slot, out))
    fi, fo = {}, {}
    ws = []
    for k in range(B['objects']):
        how = ctx.choose('next %d' % k, ['another factor', 'another name', 'cleared'])
        if how != 'another factor':
            fi.clear()
            fo.clear()
        if how != 'cleared':
            a, b = ctx.real('a%d' % k, -4, 4), ctx.real('b%d' % k, -4, 4)
            fi['q' if how == 'another factor' else 'r'] = a
            fo['p' if how == 'another factor' else 'o'] = b
        ws.append((sympl.ScalingWrapper(comp, **{'input_scale_factors': fi, arg: fo}), dict(fi), dict(fo)))
    q, r = ctx.array('q', (2,)), ctx.array('r', (2,))
    state = {'time': ctx.date('t'), 'q': da(q, 'x', 'm'), 'r': da(r, 'x', 'm')}
    snap = snapshot(state)
    for k, (w, i, o) in enumerate(ws):
        res = call_component(kind, w, state, SEC)[slot]
        qq, rr = q * i.get('q', 1), r * i.get('r', 1)
        ctx.close(res['p'].values, (qq * 2 + rr) * o.get('p', 1), 'p of object %d' % k, tol=1e-6)
        ctx.close(res['o'].values, rr * 3 * o.get('o', 1), 'o of object %d' % k, tol=1e-6)
    check_unmodified(ctx, snap, state, 'state', identity=True)
    ctx.reach('done')


HARNESSES = [
    Harness('same', independent, dict(first=ALL, second=[None], calls=4), dict(first=ALL, second=[None], calls=6), reach=ALL),
    Harness('mixed', independent, dict(first=ALL, second=['tendency', 'AB', 'composite'], calls=2),
            dict(first=ALL, second=ALL, calls=3), reach=ALL),
]
HARNESSES.append(Harness('dictionaries', dictionaries, dict(objects=2), dict(objects=3), reach=['done']))
ASSUMPTIONS = ['timesteps 2 s and 0.5 s; update intervals 0 to 2 days; members that keep no history are shared, others are not',
               'the results of a run are compared with those of each object alone, from fresh classes']
