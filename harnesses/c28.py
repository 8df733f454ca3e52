"""C28 components work through the active state backend."""
from .common import *
from .c01 import perms, expected_input
from .c02 import expected_dims_ok

L = {'x': 2, 'y': 3, 'z': 2, 'v': 2}
FACTOR = {('km', 'm'): F(1000), ('m', 'm'): F(1), ('Pa', 'Pa'): F(1), ('kg', 'kg'): F(1), ('g', 'kg'): F(1, 1000)}


class Box(object):
    """a container with nothing in common with a DataArray"""
    __slots__ = ('content', 'axes', 'label')

    def __init__(self, content, axes, label):
        self.content, self.axes, self.label = content, tuple(axes), label


BoxBase = Box


class OddBox(Box):
    """a container whose attributes look like those of a DataArray, but mean something else"""
    dims = ('v', 'y', 'x')
    shape = (5, 1)
    ndim = 1
    attrs = {'units': 's'}
    units = 'hPa'
    values = data = 'nothing'
    __slots__ = ()

    def __array__(self, *args, **kwargs):
        return np.zeros((1,))

    def __len__(self):
        return 0


class Boxes(sympl.StateBackend):
    def __init__(self, exact, refuse=None, container=Box):
        self.container = container
        self.exact, self.refuse = exact, refuse
        self.got, self.made, self.odd = [], [], []

    def known(self, box):
        if not isinstance(box, Box):
            self.odd.append(type(box))
            return False
        return True

    def get_array(self, state_value, name, target_units, target_dims, dim_lengths):
        self.known(state_value)
        if name == self.refuse:
            raise sympl.InvalidStateError('refused ' + name)
        self.got.append((name, state_value, target_units, list(target_dims)))
        f = FACTOR[(state_value.label, target_units)]
        f = f if self.exact else float(f)
        have = [d for d in target_dims if d in state_value.axes]
        a = np.transpose(state_value.content, [state_value.axes.index(d) for d in have])
        shape = [dim_lengths.get(d, 1) for d in target_dims]
        a = a.reshape([dim_lengths[d] if d in have else 1 for d in target_dims])
        out = np.array(np.broadcast_to(a, shape))
        out[...] = out * f
        return out

    def create_quantity(self, data, name, units, dims, reference_state=None):
        b = self.container(data, dims, units)
        self.made.append((name, b, reference_state))
        return b

    def get_dims(self, state_value):
        self.known(state_value)
        return state_value.axes

    def get_shape(self, state_value):
        self.known(state_value)
        return np.shape(state_value.content)

    def get_container_type(self):
        return Box


def custom(ctx, B):
    kind = ctx.choose('kind', KINDS)
    specs = ctx.choose('specs', B['specs'])
    tracers = kind != 'diagnostic' and bool(ctx.choice('tracers', B['tracers']))
    tid = kind != 'diagnostic' and bool(ctx.choice('tendencies in diagnostics', 2))
    alias = bool(ctx.choice('alias', 2))
    early = ctx.flag('component created before the backend is set')
    # which of the two containers is tied to the other choice, to halve the number of paths
    Box = OddBox if early else BoxBase
    refuse = ctx.choose('backend refuses', [None, 'r'] if B['refuse'] else [None])
    inputs, raw, state, lengths, wild = {}, {}, {}, {}, set()
    for n, spec, u in zip(('q', 'r'), specs, (('km', 'm'), ('Pa', 'Pa'))):
        have = [d for d in spec if d != '*']
        if have and ctx.flag('%s lacks %s' % (n, have[-1])):
            have.pop()
        if '*' in spec:
            have += ['z', 'v'][:ctx.choice('%s wildcard dims' % n, 3)]
        have = ctx.choose('%s order' % n, [have, have[::-1]] if len(have) > 1 else [have])
        v = ctx.array(n, tuple(L[d] for d in have))
        if not have:
            v = np.asarray(ctx.real(n))
        inputs[n] = {'dims': list(spec), 'units': u[1]}
        state[n] = Box(v, have, u[0])
        raw[n] = (np.array(v), have, spec, FACTOR[u])
        lengths.update({d: L[d] for d in have})
        wild |= set(have) - set(spec)
    named = {d for s in specs for d in s}
    ctx.assume(not (named & wild))
    if alias:
        inputs['q']['alias'] = 'Q'
    state['secret'] = object()               # not declared: nobody's business
    state['time'] = ctx.date('t')
    if tracers:
        sympl.register_tracer('A', 'kg')
        state['A'] = Box(ctx.array('A', (2,)), ('x',), 'g')
    seen, ret = [], {}

    def fn(s, t):
        seen.append(s)
        q = s['Q' if alias else 'q']
        ret['q'] = ctx.array('nq', np.shape(q)) if np.shape(q) else np.asarray(ctx.real('nq'))
        ret['d'] = ctx.array('nd', np.shape(s['r'])) if np.shape(s['r']) else np.asarray(ctx.real('nd'))
        main = {'Q' if alias else 'q': np.array(ret['q'])}
        if tracers:
            ret['A'] = ctx.array('nA', np.shape(s['tracers']))
            main['tracers'] = np.array(ret['A'])
        d = {'D': np.array(ret['d'])}
        return {'new_state' if kind == 'stepper' else 'tendencies': main, 'diagnostics': d}
    props = {'diagnostics': {'d': {'dims': inputs['r']['dims'], 'units': 'W', 'alias': 'D'}}}
    qu = 'm' if kind == 'stepper' else 'm s^-1'
    if kind == 'stepper':
        props['outputs'] = {'q': {'units': 'm'}}
    elif kind == 'diagnostic':
        pass
    else:
        props['tendencies'] = {'q': {'units': 'm s^-1'}}
    if kind == 'diagnostic':
        fn_used = lambda s, t: {'diagnostics': fn(s, t)['diagnostics']}
    else:
        fn_used = fn
    kw = {}
    if tid:
        kw['tendencies_in_diagnostics'] = True
    if tracers:
        kw['class_attrs'] = {'uses_tracers': True, 'tracer_dims': ('tracer', 'x')}
    make = lambda: make_component(kind, inputs, fn_used, class_name='Thing', **dict(props, **kw))
    default = sympl.get_backend()
    backend = Boxes(ctx.symbolic, refuse, Box)
    dtv = ctx.timedelta('dt', MS, MAXDT)
    before = {n: (b, np.array(b.content), b.axes, b.label) for n, b in state.items() if isinstance(b, Box)}
    entries = dict(state)
    try:
        if early:
            comp = make()
        sympl.set_backend(backend)
        ctx.check(sympl.get_backend() is backend, 'active backend')
        if not early:
            comp = make()
        if refuse:
            ctx.expect_exc(lambda: call_component(kind, comp, state, dtv), sympl.InvalidStateError, 'refusal of the backend')
            ctx.check(not seen, 'array_call ran although the backend refused a quantity')
            ctx.reach('refused')
            return
        out = call_component(kind, comp, state, dtv)
    finally:
        sympl.set_backend(default)
    ctx.check(not backend.odd, 'backend was given %s' % backend.odd)
    ctx.check(set(state) == set(entries) and all(state[k] is entries[k] for k in entries), 'entries of the state')
    for n, (b, v, axes, label) in before.items():
        ctx.same(b.content, v, '%s in the state' % n)
        ctx.check(b.axes == axes and b.label == label, 'labels of %s in the state' % n)
    got = seen[0]
    ctx.check(set(got) == {'Q' if alias else 'q', 'r', 'time'} | ({'tracers'} if tracers else set()), 'received names')
    good = False
    for w in perms(sorted(wild)):
        c = True
        for n in ('q', 'r'):
            v, have, spec, f = raw[n]
            exp = expected_input(ctx, spec, w, np.asarray(v, dtype=object), have, lengths,
                                 f if ctx.symbolic else float(f), 0)
            c = ctx.land(c, ctx.near(got['Q' if alias and n == 'q' else n], exp, tol=1e-7))
        good = ctx.lor(good, c)
    ctx.check(good, 'arrays received')
    main = out['new_state'] if kind == 'stepper' else out['tendencies']
    want = {} if kind == 'diagnostic' else {'q': ('main', inputs['q']['dims'], qu, ret['q'])}
    want['d'] = ('diagnostics', inputs['r']['dims'], 'W', ret['d'])
    if tracers:
        want['A'] = ('main', ['x'], 'kg' if kind == 'stepper' else 'kg s^-1', None)
    made = {n: b for n, b, ref in backend.made}
    for n, (slot, spec, u, v) in want.items():
        box = (main if slot == 'main' else out['diagnostics']).get(n)
        ctx.check(isinstance(box, Box) and made.get(n) is box, '%s is what the backend made of it' % n)
        if not isinstance(box, Box):
            return
        ctx.check(' '.join(box.label.split()) == u, 'units of %s: %r' % (n, box.label))
        if v is None:
            ctx.check(box.axes == ('x',), 'dims of tracer')
            ctx.same(box.content, ret['A'][0], 'tracer')
            continue
        ctx.check(expected_dims_ok(box.axes, spec, wild), 'dims of %s: %s' % (n, box.axes))
        ctx.same(np.reshape(box.content, np.shape(v)), v, 'values of %s' % n)
        ctx.check(list(np.shape(box.content)) == [lengths.get(d, 1) for d in box.axes], 'shape of %s' % n)
    names = {n for n in out['diagnostics'] if '_tendency_from_' in n}
    ctx.check(names == ({'q_tendency_from_Thing'} if tid else set()) or (tracers and tid), 'tendency diagnostics %s' % names)
    if tid:
        box = out['diagnostics']['q_tendency_from_Thing']
        ctx.check(isinstance(box, Box), 'tendency diagnostic made by the backend')
        ctx.check(expected_dims_ok(box.axes, inputs['q']['dims'], wild), 'dims of the tendency diagnostic')
        if kind != 'stepper':
            ctx.same(np.reshape(box.content, np.shape(ret['q'])), ret['q'], 'tendency diagnostic')
    ctx.check(all(ref is state for n, b, ref in backend.made), 'reference state given to the backend')
    ctx.check(sympl.get_backend() is default, 'default backend again')
    ctx.reach('done')


def switching(ctx, B):
    """set_backend takes backends only; the default one works again after another was used"""
    bad = ctx.choose('value', [None, object(), Boxes, 'xarray', dict(), sympl.DataArray])
    default = sympl.get_backend()
    try:
        ctx.expect_exc(lambda: sympl.set_backend(bad), TypeError, 'set_backend(%r)' % (bad,))
        ctx.check(sympl.get_backend() is default, 'backend after a rejected one')
        n = ctx.choice('switches', 3)
        for i in range(n):
            b = Boxes(ctx.symbolic)
            sympl.set_backend(b)
            ctx.check(sympl.get_backend() is b, 'active backend')
        ctx.expect_exc(lambda: sympl.set_backend(bad), TypeError, 'set_backend(%r)' % (bad,))
        if n:
            ctx.check(sympl.get_backend() is b, 'backend after a rejected one')
    finally:
        sympl.set_backend(default)
    kind = ctx.choose('kind', KINDS)
    v = ctx.array('q', (2,))
    slot = dict((k, s) for k, s in SLOTS)[kind]
    comp = make_component(kind, {'q': {'dims': ['x'], 'units': 'm'}}, lambda s, t: {slot: {'o': s['q'] * 2}},
                          **slot_props(slot, {'o': {'dims': ['x'], 'units': 'Pa'}}))
    r = call_component(kind, comp, {'q': da(v, ['x'], 'm'), 'time': ctx.date('t')}, MS)[slot]['o']
    ctx.check(isinstance(r, DataArray) and r.dims == ('x',) and r.attrs['units'] == 'Pa', 'default container')
    ctx.same(r.values, v * 2, 'values')
    ctx.reach('done')


class Amount(Box):
    """a container which can be added and converted, and has nothing else in common with a DataArray"""
    __slots__ = ('attrs', 'exact')

    def __init__(self, content, axes, label, exact):
        Box.__init__(self, content, axes, label)
        self.attrs, self.exact = {'units': label}, exact

    def copy(self):
        return Amount(np.array(self.content), self.axes, self.label, self.exact)

    def to_units(self, units):
        f = FACTOR2[' '.join(self.label.split())] / FACTOR2[' '.join(units.split())]
        return Amount(self.content * (f if self.exact else float(f)), self.axes, units, self.exact)

    def __iadd__(self, other):
        self.content = self.content + other.content
        return self

    def __add__(self, other):
        return Amount(self.content + other.content, self.axes, self.label, self.exact)


FACTOR2 = {'m s^-1': F(1), 'km s^-1': F(1000), 'cm s^-1': F(1, 100)}


class Amounts(Boxes):
    def create_quantity(self, data, name, units, dims, reference_state=None):
        b = Amount(data, dims, units, self.exact)
        self.made.append((name, b, reference_state))
        return b

    def get_container_type(self):
        return Amount


def adding(ctx, B):
    """composites add what the backend made of the tendencies of their members, in common units"""
    implicit = ctx.flag('implicit')
    n = ctx.choose('members', B['members'])
    units = [ctx.choose('units %d' % i, B['units']) for i in range(n)]
    vals = [ctx.array('t%d' % i, (2,)) for i in range(n)]
    given = []
    comps = []
    for i in range(n):
        def run(s, t, i=i):
            a = np.array(vals[i])
            given.append(a)
            return {'tendencies': {'q': a}, 'diagnostics': {'d%d' % i: np.array(s['r'])}}
        comps.append(make_component('implicit' if implicit and i == n - 1 else 'tendency', {'r': {'dims': ['x'], 'units': 'm'}}, run,
                                    tendencies={'q': {'dims': ['x'], 'units': units[i]}},
                                    diagnostics={'d%d' % i: {'dims': ['x'], 'units': 'm'}}))
    default = sympl.get_backend()
    backend = Amounts(ctx.symbolic)
    r = ctx.array('r', (2,))
    try:
        sympl.set_backend(backend)
        c = (sympl.ImplicitTendencyComponentComposite if implicit else sympl.TendencyComponentComposite)(*comps)
        state = {'time': ctx.date('t'), 'r': Amount(np.array(r), ('x',), 'm', ctx.symbolic)}
        for k in range(2):
            out, diag = c(state, MS) if implicit else c(state)
            q = out['q']
            ctx.check(isinstance(q, Amount), 'the sum is a quantity of the backend')
            if not isinstance(q, Amount):
                return
            f = [FACTOR2[u] / FACTOR2[' '.join(q.label.split())] for u in units]
            want = sum(v * (x if ctx.symbolic else float(x)) for v, x in zip(vals, f))
            ctx.close(q.content, want, 'sum of the tendencies, call %d' % k, tol=1e-9)
            ctx.check(q.attrs == {'units': q.label}, 'units of the sum')
            for i in range(n):
                ctx.same(diag['d%d' % i].content, r, 'diagnostic %d' % i)
            ctx.same(state['r'].content, r, 'state')
    finally:
        sympl.set_backend(default)
    ctx.check(not backend.odd, 'backend was given %s' % backend.odd)
    ctx.reach('implicit' if implicit else 'tendency')


HARNESSES = [
    Harness('custom', custom, dict(specs=[(['x'], ['x', 'y']), (['*'], ['x', '*']), (['y', '*', 'x'], ['*', 'y'])],
                                   tracers=1, refuse=0),
            dict(specs=[(['x'], ['x', 'y']), (['*'], ['x', '*']), (['y', '*', 'x'], ['*', 'y']), ([], ['*'])],
                 tracers=2, refuse=0), reach=['done']),
    Harness('custom_tracers', custom, dict(specs=[(['x'], ['y', 'x'])], tracers=2, refuse=1), reach=['done', 'refused']),
    Harness('adding', adding, dict(members=[2, 3], units=['m s^-1', 'km s^-1']),
            dict(members=[2, 3, 4], units=['m s^-1', 'km s^-1', 'cm s^-1']), reach=['implicit', 'tendency']),
    Harness('switching', switching, dict(), reach=['done']),
]
ASSUMPTIONS = ['the custom backend of the harness obeys the interface (containers with nothing in common with DataArray)',
               'time steppers, scaling and monitors, which compute with quantities, are outside: '
               'the documentation describes the backend for component calls']
