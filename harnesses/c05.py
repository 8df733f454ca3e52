"""C05 malformed property dictionaries are rejected at construction, well-formed ones accepted."""
from .common import *
from . import histories
from . import large
from symx.terms import SymUnsupported

UNITS = ['m', 'km', 'kg', None]


def tendency_units(u):
    return {'m': 'm s^-1', 'km': 'km day^-1', 'kg': 'kg s^-1', None: None}[u]


def outputs(ctx, B):
    kind, slot = ctx.choose('slot', B['slots'])
    ni = ctx.choice('inputs', B['max_in'] + 1)
    no = 1 + ctx.choice('outputs', B['max_out'])
    pool = ['n%d' % i for i in range(ni + 2 * no + 1)]
    ins = [ctx.name('i%d' % i, pool) for i in range(ni)]
    outs = [ctx.name('o%d' % i, pool) for i in range(no)]
    ctx.assume(ctx.distinct(ins))
    ctx.assume(ctx.distinct(outs))
    inputs = {n: {'dims': ['x'], 'units': 'm'} for n in ins}
    props, raw = {}, []
    bad = False
    aliased = []
    for j, o in enumerate(outs):
        p = {}
        u = ctx.choose('units%d' % j, B['units'])
        if u is None:
            bad = True
        else:
            p['units'] = tendency_units(u) if slot == 'tendencies' else u
        is_in = ctx.isin(o, ins)
        if ctx.flag('dims%d' % j):
            p['dims'] = ['x']
        else:
            bad = ctx.lor(bad, ctx.lnot(is_in))
        if u == 'kg':
            bad = ctx.lor(bad, is_in)
        if ctx.flag('alias%d' % j):
            p['alias'] = ctx.name('a%d' % j, pool)
            aliased.append((o, p['alias']))
            raw.append(p['alias'])
        else:
            raw.append(o)
        props[o] = p
    for o, a in aliased:
        # alias equal to the full name of another quantity which is itself renamed: not considered
        for o2, a2 in aliased:
            if o2 is not o:
                ctx.assume(ctx.lor(a != o2, a2 == o2, a == a2))
    bad = ctx.lor(bad, ctx.lnot(ctx.distinct(raw)))
    r, e = ctx.attempt(lambda: make_component(kind, inputs, lambda s, t: {}, **slot_props(slot, props)),
                       sympl.InvalidPropertyDictError)
    if e is None:
        ctx.reach('accepted')
        ctx.check(ctx.lnot(bad), 'malformed %s properties accepted: %s' % (slot, sorted(
            sorted(p) for p in props.values())))
    else:
        ctx.reach('rejected')
        ctx.check(bad, 'well-formed %s properties rejected: %s' % (slot, e))


def inputs(ctx, B):
    kind = ctx.choose('kind', B['kinds'])
    n = 1 + ctx.choice('inputs', B['max_in'])
    pool = ['n%d' % i for i in range(2 * n + 1)]
    ins = [ctx.name('i%d' % i, pool) for i in range(n)]
    ctx.assume(ctx.distinct(ins))
    props, raw, bad, aliased = {}, [], False, []
    for j, o in enumerate(ins):
        p = {}
        if ctx.flag('units%d' % j):
            p['units'] = 'm'
        else:
            bad = True
        if ctx.flag('dims%d' % j):
            p['dims'] = ['*']
        else:
            bad = True
        if ctx.flag('alias%d' % j):
            p['alias'] = ctx.name('a%d' % j, pool)
            raw.append(p['alias'])
            aliased.append((o, p['alias']))
        else:
            raw.append(o)
        props[o] = p
    for o, a in aliased:
        for o2, a2 in aliased:
            if o2 is not o:
                ctx.assume(ctx.lor(a != o2, a2 == o2, a == a2))
    bad = ctx.lor(bad, ctx.lnot(ctx.distinct(raw)))
    r, e = ctx.attempt(lambda: make_component(kind, props, lambda s, t: {}),
                       sympl.InvalidPropertyDictError)
    if e is None:
        ctx.reach('accepted')
        ctx.check(ctx.lnot(bad), 'malformed input properties accepted')
    else:
        ctx.reach('rejected')
        ctx.check(bad, 'well-formed input properties rejected: %s' % e)


UPAIRS = [('m', 'm'), ('m', 'km'), ('m', 'kg'), ('degK', 'degC'), ('degK', 'm'), ('', 'm'),
          ('', 'percent'), ('kg/kg', 'g kg^-1'), ('Pa', 'hPa'), ('Pa', 'kg'), ('m s^-1', 'm'),
          ('m', 'm s^-1'), ('W m^-2', 'kg s^-3'), ('s', 'day'), ('', 'kg/kg')]
COMPAT = {('m', 'm'), ('m', 'km'), ('degK', 'degC'), ('', 'percent'), ('kg/kg', 'g kg^-1'),
          ('Pa', 'hPa'), ('W m^-2', 'kg s^-3'), ('s', 'day'), ('', 'kg/kg')}


def units(ctx, B):
    """compatibility of units of an output with the input of the same name"""
    kind, slot = ctx.choose('slot', SLOTS)
    u1, u2 = ctx.choose('units', UPAIRS)
    if ctx.flag('swap'):
        u1, u2 = u2, u1
        ok = (u2, u1) in COMPAT
    else:
        ok = (u1, u2) in COMPAT
    if slot == 'tendencies':
        ctx.assume('degC' not in (u1, u2))
        per = ctx.choose('per', ['s^-1', 'day^-1', ''])
        if per == '':
            # a tendency given in the units of the quantity itself is only right by accident
            ok = (u1, u2) == ('m', 'm s^-1')
        u2 = (u2 + ' ' + per).strip() if u2 != '' or per else u2
    name = ctx.choose('position', [0, 1])
    ins = {'q': {'dims': ['x'], 'units': u1}, 'other': {'dims': ['x'], 'units': 'kg'}}
    props = {'q': {'dims': ['x'], 'units': u2}, 'z': {'dims': ['x'], 'units': 'A'}}
    if name:
        ins = {k: ins[k] for k in reversed(list(ins))}
        props = {k: props[k] for k in reversed(list(props))}
    r, e = ctx.attempt(lambda: make_component(kind, ins, lambda s, t: {}, **slot_props(slot, props)),
                       sympl.InvalidPropertyDictError)
    ctx.reach('ok' if ok else 'bad')
    ctx.check((e is None) == ok, 'units %r for input in %r: %s' % (
        u2, u1, 'accepted' if e is None else 'rejected'))


def not_dict(ctx, B):
    """property attributes of the wrong type"""
    kind = ctx.choose('kind', KINDS)
    attrs = {'tendency': ['input_properties', 'tendency_properties', 'diagnostic_properties'],
             'implicit': ['input_properties', 'tendency_properties', 'diagnostic_properties'],
             'diagnostic': ['input_properties', 'diagnostic_properties'],
             'stepper': ['input_properties', 'output_properties', 'diagnostic_properties']}[kind]
    attr = ctx.choose('attr', attrs + ['none'])
    val = ctx.choose('value', [[], (), None, 'q', {'q'}, 3])
    base = {'tendency': sympl.TendencyComponent, 'implicit': sympl.ImplicitTendencyComponent,
            'diagnostic': sympl.DiagnosticComponent, 'stepper': sympl.Stepper}[kind]
    ns = {a: {} for a in attrs}
    ns['array_call'] = lambda self, *a: None
    if attr != 'none':
        ns[attr] = val
    cls = type('C', (base,), ns)
    r, e = ctx.attempt(lambda: cls(), sympl.InvalidPropertyDictError)
    ctx.reach('ok' if attr == 'none' else 'bad')
    ctx.check((e is None) == (attr == 'none'), '%s = %r: %s' % (
        attr, val, 'accepted' if e is None else 'rejected'))


SEVERAL = ['m', 'm s', 'ms', 'km']       # m ~ km; 'm s' and 'ms' only look alike


def compatible(a, b):
    return a == b or {a, b} == {'m', 'km'}


def several(ctx, B):
    """any one of several quantities may be the one with incompatible units; which output is which input is symbolic"""
    kind, slot = ctx.choose('slot', B['slots'])
    n, m = B['n_in'], 1 + ctx.choice('outputs', B['n_out'])
    pool = ['q%d' % i for i in range(n + m)]
    ins = [ctx.name('i%d' % i, pool) for i in range(n)]
    outs = [ctx.name('o%d' % i, pool) for i in range(m)]
    ctx.assume(ctx.distinct(ins))
    ctx.assume(ctx.distinct(outs))
    iu = [ctx.choose('iu%d' % i, B['units']) for i in range(n)]
    ou = [ctx.choose('ou%d' % i, B['units']) for i in range(m)]
    inputs = {o: {'dims': ['x'], 'units': u} for o, u in zip(ins, iu)}
    props = {o: {'dims': ['x'], 'units': u + (' s^-1' if slot == 'tendencies' else '')} for o, u in zip(outs, ou)}
    bad = False
    for i, u in zip(ins, iu):
        for o, v in zip(outs, ou):
            if not compatible(u, v):
                bad = ctx.lor(bad, i == o)
    r, e = ctx.attempt(lambda: make_component(kind, inputs, lambda s, t: {}, **slot_props(slot, props)),
                       sympl.InvalidPropertyDictError)
    if e is None:
        ctx.reach('accepted')
        ctx.check(ctx.lnot(bad), 'inputs in %r, outputs in %r: incompatible units accepted' % (iu, ou))
    else:
        ctx.reach('rejected')
        ctx.check(bad, 'inputs in %r, outputs in %r: compatible units rejected' % (iu, ou))


BASES = {'tendency': sympl.TendencyComponent, 'implicit': sympl.ImplicitTendencyComponent,
         'diagnostic': sympl.DiagnosticComponent, 'stepper': sympl.Stepper}


def construction(ctx, B):
    """classes written in different styles: the dictionaries may be class attributes, properties, inherited or set on
    the object before the base class is initialized; a constructor that forgets the base class is noticed at the call"""
    kind, slot = ctx.choose('slot', SLOTS)
    style = ctx.choose('style', ['class', 'property', 'inherited', 'object'])
    forgets = ctx.flag('constructor forgets the base class')
    attrs = {'tendency': ['input_properties', 'tendency_properties', 'diagnostic_properties'],
             'implicit': ['input_properties', 'tendency_properties', 'diagnostic_properties'],
             'diagnostic': ['input_properties', 'diagnostic_properties'],
             'stepper': ['input_properties', 'output_properties', 'diagnostic_properties']}[kind]
    attr = {'tendencies': 'tendency_properties', 'diagnostics': 'diagnostic_properties',
            'new_state': 'output_properties'}[slot]
    fault = ctx.choose('fault', [None, 'units', 'dims', 'input units', 'input dims', 'not a dict',
                                 'incompatible', 'alias'])
    u = {'tendencies': 'm s^-1'}.get(slot, 'm')
    props = {a: {} for a in attrs}
    props['input_properties'] = {'q': {'dims': ['x'], 'units': 'm'}, 'p': {'dims': ['x'], 'units': 'm'}}
    props[attr] = {'q': {'dims': ['x'], 'units': u}, 'z': {'dims': ['x'], 'units': 'kg'}}
    if fault == 'units':
        del props[attr]['z']['units']
    elif fault == 'dims':
        del props[attr]['z']['dims']
    elif fault == 'input units':
        del props['input_properties']['q']['units']
    elif fault == 'input dims':
        del props['input_properties']['p']['dims']
    elif fault == 'not a dict':
        props[attr] = list(props[attr].items())
    elif fault == 'incompatible':
        props[attr]['q']['units'] = 'kg'
    elif fault == 'alias':
        props[attr]['z']['alias'] = 'q'
    ran = []
    arr = {k: ctx.array('v_' + k, (2,)) for k in 'qz'}
    parts = {'tendency': ['tendencies', 'diagnostics'], 'implicit': ['tendencies', 'diagnostics'],
             'diagnostic': ['diagnostics'], 'stepper': ['diagnostics', 'new_state']}[kind]

    def array_call(self, *args):
        ran.append(1)
        out = [{k: np.array(v) for k, v in arr.items()} if p == slot else {} for p in parts]
        return out[0] if kind == 'diagnostic' else tuple(out)
    ns = {'array_call': array_call}
    base = BASES[kind]
    if style in ('class', 'inherited'):
        ns.update(props)
    elif style == 'property':
        ns.update({a: property(lambda self, a=a: props[a]) for a in attrs})
    else:
        ns.update({a: None for a in attrs})

    def init(self, *args, **kwargs):
        if style == 'object':
            for a in attrs:
                setattr(self, a, props[a])
        if not forgets:
            super(cls, self).__init__(*args, **kwargs)
    cls = type('A', (base,), ns)
    if style == 'inherited':
        cls = type('B', (cls,), {'__init__': init})
    else:
        cls.__init__ = init
    c, e = ctx.attempt(lambda: cls(), sympl.InvalidPropertyDictError)
    if forgets:
        ctx.check(e is None, 'nothing checked before the base class is initialized')
    else:
        ctx.check((e is None) == (fault is None), '%s: %s' % (fault, 'accepted' if e is None else 'rejected: %s' % e))
    if e is not None:
        ctx.reach('rejected')
        return
    state = {'time': ctx.date('t'), 'q': da(ctx.array('q', (2,)), 'x', 'm'), 'p': da(ctx.array('p', (2,)), 'x', 'm')}
    snap = snapshot(state)
    dtv = ctx.timedelta('dt', MS, MAXDT)
    if forgets:
        ctx.reach('forgets')
        r, e = ctx.attempt(lambda: call_component(kind, c, state, dtv), RuntimeError)
        ctx.check(isinstance(e, RuntimeError), 'an uninitialized component can be called')
        ctx.check(not ran, 'array_call of an uninitialized component ran')
        check_unmodified(ctx, snap, state, 'state')
        return
    out = call_component(kind, c, state, dtv)
    ctx.reach('called')
    for k, v in arr.items():
        ctx.same(out[slot][k], v, 'value of %s' % k)


def base_init(ctx, B):
    """time steppers whose constructor forgets the base class: noticed when they are called, before they step"""
    scheme = ctx.choose('scheme', ['own', 'ab', 'leapfrog', 'rk'])
    base = {'own': sympl.TendencyStepper, 'ab': sympl.AdamsBashforth, 'leapfrog': sympl.Leapfrog,
            'rk': sympl.SSPRungeKutta}[scheme]
    forgets = ctx.flag('constructor forgets the base class')
    ran = []
    q, T = ctx.array('q', (2,)), ctx.array('T', (2,))

    class C(sympl.TendencyComponent):
        input_properties = {'q': {'dims': ['x'], 'units': 'm'}}
        tendency_properties = {'q': {'dims': ['x'], 'units': 'm s^-1'}}
        diagnostic_properties = {}

        def array_call(self, state):
            ran.append(1)
            return {'q': np.array(T)}, {}

    class S(base):
        def __init__(self, *args, **kwargs):
            self.made = True
            if not forgets:
                super(S, self).__init__(*args, **kwargs)

        if scheme == 'own':
            def _call(self, state, timestep):
                ran.append(2)
                return {}, dict(state)
    st = S(C())
    state = {'time': ctx.date('t'), 'q': da(q, 'x', 'm')}
    snap = snapshot(state)
    dtv = ctx.timedelta('dt', MS, MAXDT)
    try:
        st(state, dtv)
    except Exception as e:
        if isinstance(e, SymUnsupported):
            raise
        ctx.check(forgets, 'an initialized stepper raised %r' % (e,))
        ctx.check(not ran, 'an uninitialized stepper ran')
        check_unmodified(ctx, snap, state, 'state')
        ctx.reach('refused')
        return
    ctx.check(not forgets, 'an uninitialized stepper can be called')
    ctx.reach('called')


def tracers(ctx, B):
    """a component using tracers has to say where the tracer dimension is"""
    kind = ctx.choose('kind', ['tendency', 'implicit', 'stepper'])
    uses = ctx.flag('uses tracers')
    dims = ctx.choose('tracer_dims', [None, ('tracer', 'x'), ('x', 'tracer'), ['tracer', '*'], ('tracer',), ('x',),
                                      ('x', '*'), ()])
    exists = ctx.choose('tracer', ['registered before', 'registered after', 'none'])
    own = ctx.flag('an output of the same name')
    late = exists == 'registered after'
    if exists == 'registered before':
        sympl.register_tracer('A', 'm')
    outs = {'z': {'dims': ['x'], 'units': 'm'}}
    if own:
        outs['A'] = {'dims': ['x'], 'units': 'm'}
    slot = {'stepper': 'new_state'}.get(kind, 'tendencies')
    attrs = {'uses_tracers': uses}
    if dims is not None:
        attrs['tracer_dims'] = dims
    make = lambda: make_component(kind, {'q': {'dims': ['x'], 'units': 'm'}}, lambda s, t: {}, class_attrs=attrs,
                                  **slot_props(slot, outs))
    c, e = ctx.attempt(make, (ValueError, sympl.InvalidPropertyDictError))
    bad_dims = uses and (dims is None or 'tracer' not in dims)
    clash = uses and own and exists == 'registered before'
    if not (bad_dims or clash):
        ctx.check(e is None, 'tracer_dims %s rejected: %s' % (dims, e))
    elif not clash:
        ctx.check(isinstance(e, ValueError), 'tracer_dims %s accepted' % (dims,))
    else:
        ctx.check(e is not None, 'output with the name of a tracer accepted')
    ctx.reach('accepted' if e is None else 'rejected')
    if e is None and late:
        r, e = ctx.attempt(lambda: sympl.register_tracer('A', 'm'), (ValueError, sympl.InvalidPropertyDictError))
        ctx.check((e is not None) == (uses and own), 'tracer registered later with the name of an output: %s' % e)
        ctx.reach('later')


HARNESSES = [
    Harness('outputs', outputs, dict(slots=SLOTS[:1] + SLOTS[4:6], max_in=1, max_out=2, units=UNITS),
            dict(slots=SLOTS, max_in=2, max_out=2, units=UNITS), reach=['accepted', 'rejected'],
            note='names and aliases symbolic'),
    Harness('outputs_other', outputs, dict(slots=SLOTS[1:4] + SLOTS[6:], max_in=1, max_out=2, units=['m', 'kg']),
            reach=['accepted', 'rejected'],
            note='names and aliases symbolic'),
    Harness('inputs', inputs, dict(kinds=KINDS, max_in=2), dict(kinds=KINDS, max_in=3),
            reach=['accepted', 'rejected'], note='names and aliases symbolic'),
    Harness('units', units, {}, reach=['ok', 'bad']),
    Harness('base_init', base_init, {}, reach=['refused', 'called']),
    Harness('several', several, dict(slots=SLOTS, n_in=2, n_out=2, units=SEVERAL[1:3]),
            dict(slots=SLOTS, n_in=2, n_out=2, units=SEVERAL), reach=['accepted', 'rejected'],
            note='names symbolic'),
    Harness('construction', construction, {}, reach=['rejected', 'forgets', 'called'],
            note='styles of writing a component class'),
    Harness('tracers', tracers, {}, reach=['accepted', 'rejected', 'later']),
    Harness('not_dict', not_dict, {}, reach=['ok', 'bad']),
    large.DECLARED,
]
HARNESSES.append(histories.REPORTED)
ASSUMPTIONS = ['an alias equal to the name of another quantity that is itself aliased is not considered',
               'unit strings from a fixed list']
