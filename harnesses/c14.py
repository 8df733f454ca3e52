"""C14 tendencies in diagnostics, time differencing."""
import copy
from .common import *
from . import shapes
from . import large
from . import numtypes
from symx.terms import SymUnsupported

TUNITS = {'s': SEC, 'hr': 3600 * SEC, 'day': DAY}


def per_seconds(ctx, dtv):
    """seconds in dtv (symbolic)"""
    return dtv.total_seconds()


def units_ok(got, want):
    if got is None:
        return False
    if ' '.join(got.split()) == ' '.join(want.split()):
        return True
    return same_units(got, want)


def fsc(ctx, x):
    return x if ctx.symbolic else float(x)


# base unit of the state -> (factor, offset) to the component's units
CONV = {('m', 'm'): (F(1), F(0)), ('km', 'm'): (F(1000), F(0)), ('', ''): (F(1), F(0)),
        ('percent', ''): (F(1, 100), F(0)), ('degC', 'K'): (F(1), F(27315, 100))}


def diff_wrapper(ctx, B):
    su, ou = ctx.choose('state and output units', B['units'])
    alias = bool(ctx.choice('alias', 2))
    swap = bool(ctx.choice('state dims transposed', 2))
    extra_in_new = ctx.choice('stepper kind', 2)     # 1: the wrapped stepper is a TendencyStepper
    dtv = ctx.timedelta('dt', MS, MAXDT)
    q, r = ctx.array('q', (2, 2)), ctx.array('r', (2,))
    state = {'time': ctx.date('t'), 'q': da(q, ['x', 'y'], su), 'r': da(r, ['x'], 's'),
             'other': da(ctx.array('o', (1,)), 'z', 'kg')}
    if swap:
        state['q'] = da(np.array(q).T, ['y', 'x'], su)
    N = ctx.array('new', (2, 2))
    M = ctx.array('newr', (2,))
    fac, off = CONV[su, ou]
    q0 = np.array(q) * fsc(ctx, fac) + fsc(ctx, off)
    if extra_in_new:
        if su == 'degC':
            ctx.assume(False)
        tu = ou + ' s^-1'
        comp = tendency_component({'q': {'dims': ['x', 'y'], 'units': ou}, 'r': {'dims': ['x'], 'units': 's'}},
                                  {'q': {'units': tu}}, {'d': {'dims': ['x'], 'units': 'K'}},
                                  lambda s: ({'q': N}, {'d': M}))
        w = sympl.TimeDifferencingWrapper(sympl.AdamsBashforth(comp, order=1))
        wantq, names = N, {'q'}
    else:
        aq = 'QQ' if alias else 'q'
        inp = {'q': {'dims': ['x', 'y'], 'units': ou}, 'r': {'dims': ['x'], 'units': 's'}}
        if alias:
            inp['q']['alias'] = 'QQ'
        step = stepper_component(inp, {'q': {'dims': ['x', 'y'], 'units': ou}, 'r': {'dims': ['x'], 'units': 'min'}},
                                 {'d': {'dims': ['x'], 'units': 'K'}},
                                 lambda s, t: ({'d': M}, {aq: s[aq] + N, 'r': M}))
        w = sympl.TimeDifferencingWrapper(step)
        wantq, names = N / dtv.total_seconds(), {'q', 'r'}
    ctx.check(set(w.tendency_properties) == names, 'advertised tendencies')
    if not extra_in_new:
        ctx.check(w.input_properties == step.input_properties, 'advertised inputs')
        ctx.check(w.diagnostic_properties == step.diagnostic_properties, 'advertised diagnostics')
        step.special = ctx.real('attribute')
        ctx.same(w.special, step.special, 'other attributes are those of the wrapped stepper')
        r_, e_ = ctx.attempt(lambda: sympl.TimeDifferencingWrapper(step, tendencies_in_diagnostics=True), TypeError)
        ctx.check(e_ is not None, 'options which are not implemented are rejected')
    for k in range(B['calls']):
        snap = snapshot(state)
        tend, diag = w(state, dtv)
        check_unmodified(ctx, snap, state, 'input state')
        ctx.check(set(tend) == names, 'set of tendencies')
        ctx.check(set(diag) == {'d'}, 'set of diagnostics')
        ctx.close(diag['d'], M, 'diagnostic')
        t = tend['q']
        ctx.check(set(t.dims) == {'x', 'y'}, 'dims')
        ctx.check(units_ok(t.attrs.get('units'), w.tendency_properties['q']['units']), 'units of q: %s' % t.attrs)
        if not extra_in_new:
            ctx.check(units_ok(w.tendency_properties['q']['units'], (ou + ' s^-1').strip()), 'advertised units')
        # 1e-5: the documented formula differences two rounded values and divides by at least one second
        ctx.close(t.transpose('x', 'y'), wantq, 'tendency of q', tol=1e-5)
        if 'r' in names:
            ctx.check(units_ok(tend['r'].attrs.get('units'), 'min s^-1'), 'units of r')
            ctx.close(tend['r'], (M - np.array(r) * fsc(ctx, F(1, 60))) / dtv.total_seconds(), 'tendency of r', tol=1e-5)
    ctx.reach('done')


def stepper_tid(ctx, B):
    """Stepper with tendencies_in_diagnostics"""
    tname = ctx.choose('time unit', B['tunits'])
    su, ou = ctx.choose('units', B['units'])
    alias = ctx.choose('alias', ['none', 'input', 'output', 'both'])
    undeclared = bool(ctx.choice('output which is no input', 2))
    named = bool(ctx.choice('name given', B['named']))
    dims = ctx.choose('dims', B['dims'])
    full = ['x', 'y'] if '*' in dims else dims
    dtv = ctx.timedelta('dt', MS, MAXDT)
    inp = {} if undeclared else {'q': {'dims': list(dims), 'units': ou}}
    inp['r'] = {'dims': list(dims), 'units': 's'}
    out = {'q': {'dims': list(dims), 'units': ou}, 'r': {'dims': list(dims), 'units': 's'}}
    if alias in ('input', 'both') and not undeclared:
        inp['q']['alias'] = 'QQ'
    if alias in ('output', 'both'):
        out['q']['alias'] = 'QQ'
    aq = out['q'].get('alias', inp.get('q', {}).get('alias', 'q'))
    N, M = ctx.array('N', (2, 2)), ctx.array('M', (2, 2))

    def fn(s, t):
        shp = s['r'].shape
        return {'d': s['r'][:]}, {aq: N.reshape(shp), 'r': s['r'] + M.reshape(shp)}
    kw = {'tendencies_in_diagnostics': True}
    if named:
        kw['name'] = 'scheme'
    step = stepper_component(inp, out, {'d': {'dims': list(dims), 'units': 's'}}, fn,
                             class_attrs={'time_unit_name': tname, 'time_unit_timedelta': TUNITS[tname]}, **kw)
    q, r = ctx.array('q', (2, 2)), ctx.array('r', (2, 2))
    state = {'time': ctx.date('t'), 'q': da(q, ['x', 'y'], su), 'r': da(np.array(r).T, ['y', 'x'], 's')}
    if '*' in dims:
        state['r'] = da(r, ['x', 'y'], 's')
    nm = 'scheme' if named else 'Step'
    ctx.check(step.name == nm, 'name')
    fac, off = CONV[su, ou]
    tus = fsc(ctx, F(TUNITS[tname].total_seconds()))
    for k in range(B['calls']):
        snap = snapshot(state)
        diag, new = step(state, dtv)
        check_unmodified(ctx, snap, state, 'state')
        ctx.check(set(diag) == {'d', 'q_tendency_from_' + nm, 'r_tendency_from_' + nm}, 'diagnostics %s' % set(diag))
        ctx.check(set(diag) == set(step.diagnostic_properties), 'advertised diagnostics')
        for n, want in (('q', (N - (np.array(q) * fsc(ctx, fac) + fsc(ctx, off))) / dtv.total_seconds() * tus),
                        ('r', M / dtv.total_seconds() * tus)):
            key = '%s_tendency_from_%s' % (n, nm)
            t = diag[key]
            u = t.attrs.get('units')
            ctx.check(units_ok(u, step.diagnostic_properties[key]['units']), 'label is what is advertised')
            ctx.check(units_ok(u, ('%s %s^-1' % (out[n]['units'], tname)).strip()), 'units %s of %s' % (u, key))
            ctx.check(tuple(t.dims) == tuple(full), 'dims of %s' % key)
            ctx.close(t, want, 'value of %s' % key, tol=1e-4)
    ctx.reach('done')


def tendency_tid(ctx, B):
    """TendencyComponent, ImplicitTendencyComponent, alone or in a composite"""
    kind = ctx.choose('kind', ['tendency', 'implicit'])
    comp = bool(ctx.choice('in a composite', 2))
    alias = bool(ctx.choice('alias', 2))
    tu = ctx.choose('tendency units', ['m s^-1', 'km hr^-1'])
    n = 2 if comp else 1
    vals = []
    members = []
    for i in range(n):
        A, R = ctx.array('A%d' % i, (2,)), ctx.array('R%d' % i, (2, 2))
        vals.append((A, R))
        inp = {'q': {'dims': ['x'], 'units': 'm'}, 'r': {'dims': ['x', 'y'], 'units': 's'}}
        if alias:
            inp['q']['alias'] = 'QQ'

        def fn(state, timestep, A=A, R=R):
            return {'tendencies': {'QQ' if alias else 'q': A, 'r': R}, 'diagnostics': {}}
        members.append(make_component(kind, inp, fn, tendencies={'q': {'units': tu}, 'r': {'units': ''}},
                                      tendencies_in_diagnostics=True, name='c%d' % i))
    if comp:
        cls = sympl.TendencyComponentComposite if kind == 'tendency' else sympl.ImplicitTendencyComponentComposite
        target = cls(*members)
    else:
        target = members[0]
    state = {'time': ctx.date('t'), 'q': da(ctx.array('q', (2,)), 'x', 'km'),
             'r': da(ctx.array('r', (2, 2)), 'yx', 's')}
    dtv = ctx.timedelta('dt', MS, MAXDT)
    for k in range(2):
        r = call_component(kind, target, state, dtv)
        want = {'%s_tendency_from_c%d' % (a, i) for i in range(n) for a in 'qr'}
        ctx.check(set(r['diagnostics']) == want == set(target.diagnostic_properties), 'diagnostics')
        for i, (A, R) in enumerate(vals):
            for nme, v, u, dims in (('q', A, tu, ('x',)), ('r', R, '', ('x', 'y'))):
                key = '%s_tendency_from_c%d' % (nme, i)
                t = r['diagnostics'][key]
                ctx.check(tuple(t.dims) == dims, 'dims of ' + key)
                ctx.check(t.attrs.get('units') == u, 'units of ' + key)
                ctx.check(target.diagnostic_properties[key]['units'] == u
                          and tuple(target.diagnostic_properties[key]['dims']) == dims, 'advertised ' + key)
                ctx.close(t, v, key)
        ctx.close(r['tendencies']['q'], sum(v[0] for v in vals), 'tendency q')
        ctx.close(r['tendencies']['r'], sum(v[1] for v in vals), 'tendency r')
    ctx.reach('done')


def tstepper_tid(ctx, B):
    """time steppers with tendencies_in_diagnostics"""
    name = ctx.choose('stepper', B['steppers'])
    su, cu = ctx.choose('units', B['units'])
    tname = ctx.choose('time unit', B['tunits'])
    dims = ctx.choose('dims', [['x', 'y'], ['*']])
    is_input = bool(ctx.choice('quantity is an input', 2))
    dtv = ctx.timedelta('dt', MS, MAXDT)
    cnt = [0]
    rate = {'m': 'm s^-1', '': 's^-1'}[cu]
    inp = {'r': {'dims': ['x'], 'units': 's'}}
    if is_input:
        inp['q'] = {'dims': list(dims), 'units': cu}
    elif '*' in dims:
        inp['p'] = {'dims': ['*'], 'units': 'K'}

    def fn(s):
        v = ctx.array('T%d' % cnt[0], (2, 2))
        cnt[0] += 1
        return {'q': v.reshape(s['q'].shape if is_input else (s['p'].shape if '*' in dims else (2, 2)))}, {}
    comp = tendency_component(inp, {'q': {'dims': list(dims), 'units': rate}}, {}, fn)
    base = sympl.AdamsBashforth if name[0] == 'a' else sympl.SSPRungeKutta
    cls = type('Scheme', (base,), {'time_unit_name': tname, 'time_unit_timedelta': TUNITS[tname]})
    kw = {'order': int(name[2])} if name[0] == 'a' else {'stages': int(name[2])}
    st = cls(comp, tendencies_in_diagnostics=True, name='s', **kw)
    q = ctx.array('q', (2, 2))
    state = {'time': ctx.date('t'), 'q': da(q, ['x', 'y'], su), 'r': da(ctx.array('r', (2,)), 'x', 's'),
             'p': da(ctx.array('p', (2, 2)), ['x', 'y'], 'K')}
    f = fsc(ctx, CONV[su, cu][0])
    tus = fsc(ctx, F(TUNITS[tname].total_seconds()))
    for k in range(B['calls']):
        old = np.array(state['q'].values)
        diag, new = st(state, dtv)
        ctx.check(set(diag) == {'q_tendency_from_s'} == set(st.diagnostic_properties), 'diagnostics')
        t = diag['q_tendency_from_s']
        ctx.check(set(t.dims) == {'x', 'y'}, 'dims')
        u = t.attrs.get('units')
        r = _ureg_convertible(u, st.diagnostic_properties['q_tendency_from_s']['units'])
        ctx.check(r, 'label %s convertible to the advertised units' % u)
        if not r:
            return
        # to m s^-1 (or s^-1), whatever the label
        g = fsc(ctx, unit_factor(u, rate))
        ctx.close(t.transpose('x', 'y').values * g,
                  (np.array(new['q'].values) - old) * f / dtv.total_seconds(), 'rate of change', tol=1e-4)
        state = dict(state)
        state['q'] = new['q']
    ctx.reach('done')


def clash(ctx, B):
    """time steppers around components that report a diagnostic of the name that the stepper would use"""
    cls = ctx.choose('stepper', [sympl.AdamsBashforth, sympl.Leapfrog, sympl.SSPRungeKutta])
    source = ctx.choose('reported', ['by its own diagnostics', 'by tendencies_in_diagnostics'])
    cname = ctx.choose('name of the component', ['s', 'c'])
    sname = ctx.choose('name of the stepper', ['s', 'n'])
    declared = 'q_tendency_from_%s' % cname
    own = ctx.array('own', (2,))
    T = ctx.array('T', (2,))
    mine = source == 'by its own diagnostics'

    class C(sympl.TendencyComponent):
        input_properties = {'q': {'dims': ['x'], 'units': 'm'}}
        tendency_properties = {'q': {'dims': ['x'], 'units': 'm s^-1'}}
        diagnostic_properties = {declared: {'dims': ['x'], 'units': 'm s^-1'}} if mine else {}

        def array_call(self, state):
            return {'q': np.array(T)}, ({declared: np.array(own)} if mine else {})
    comp = C(name=cname, tendencies_in_diagnostics=not mine)
    dtv = ctx.timedelta('dt', MS, MAXDT)
    state = {'time': ctx.date('t'), 'q': da(ctx.array('q', (2,)), 'x', 'm')}
    snap = snapshot(state)

    def run():
        st = cls(comp, name=sname, tendencies_in_diagnostics=True)
        return st(state, dtv)
    try:
        diag, new = run()
    except Exception as e:
        if isinstance(e, SymUnsupported):
            raise
        ctx.check(cname == sname, 'a stepper without a name clash raised %r' % (e,))
        check_unmodified(ctx, snap, state, 'state')
        ctx.reach('refused')
        return
    want = own if mine else T
    ctx.check(set(diag) == {declared, 'q_tendency_from_' + sname}, 'diagnostics %s' % sorted(diag))
    if declared in diag:
        ctx.close(diag[declared].values, want, 'the diagnostic of the component')
    ctx.reach('both')


def _ureg_convertible(a, b):
    r = _ureg()
    return a is not None and r.parse_units(a or 'dimensionless').dimensionality == \
        r.parse_units(b or 'dimensionless').dimensionality


from .common import _ureg  # noqa


def independence(ctx, B):
    """instances with and without tendencies_in_diagnostics of one class, or sharing dictionaries"""
    kind = ctx.choose('kind', ['tendency', 'implicit', 'stepper'])
    share = ctx.choose('shared with', ['same class', 'subclass', 'other class'])
    order = ctx.choose('created first', ['enabled', 'plain'])
    inp = {'q': {'dims': ['x'], 'units': 'm'}}
    if kind == 'stepper' and bool(ctx.choice('output is no input', 2)):
        inp = {}
    inp['r'] = {'dims': ['x'], 'units': 's'}
    main = {'q': {'dims': ['x'], 'units': 'm s^-1' if kind != 'stepper' else 'm'}}
    diags = {'d': {'dims': ['x'], 'units': 'K'}}
    A, D = ctx.array('A', (2,)), ctx.array('D', (2,))
    base = {'tendency': sympl.TendencyComponent, 'implicit': sympl.ImplicitTendencyComponent,
            'stepper': sympl.Stepper}[kind]
    pn = 'output_properties' if kind == 'stepper' else 'tendency_properties'
    if kind == 'tendency':
        def array_call(self, state):
            return {'q': A}, {'d': D}
    elif kind == 'implicit':
        def array_call(self, state, timestep):
            return {'q': A}, {'d': D}
    else:
        def array_call(self, state, timestep):
            return {'d': D}, {'q': A}
    ns = {'array_call': array_call}
    dicts = {'input_properties': inp, pn: main, 'diagnostic_properties': diags}
    ns.update(dicts)
    C1 = type('C', (base,), dict(ns))
    C2 = {'same class': C1, 'subclass': type('C2', (C1,), {}),
          'other class': type('C3', (base,), dict(ns))}[share]
    before = copy.deepcopy(dicts)
    made = {}
    for which in (['enabled', 'plain'] if order == 'enabled' else ['plain', 'enabled']):
        made[which] = C1(tendencies_in_diagnostics=True, name='x') if which == 'enabled' else C2()
    ctx.check(dicts == before, 'property dictionaries of the class unchanged')
    other = C1(tendencies_in_diagnostics=True, name='y')
    state = {'time': ctx.date('t'), 'r': da(ctx.array('r', (2,)), 'x', 's'), 'q': da(ctx.array('q', (2,)), 'x', 'm')}
    small = {k: v for k, v in state.items() if k in ('time', 'r') or k in inp}
    dtv = ctx.timedelta('dt', MS, MAXDT)
    for rnd in range(2):
        for obj, names, s in ((made['plain'], {'d'}, small),
                              (made['enabled'], {'d', 'q_tendency_from_x'}, state),
                              (other, {'d', 'q_tendency_from_y'}, state),
                              (C2(), {'d'}, small)):
            r = call_component(kind, obj, s, dtv)
            ctx.check(set(r['diagnostics']) == names, 'diagnostics %s' % sorted(r['diagnostics']))
            ctx.check(set(obj.diagnostic_properties) == names, 'advertised %s' % sorted(obj.diagnostic_properties))
            ctx.close(r['diagnostics']['d'], D, 'd')
    ctx.check(dicts == before, 'property dictionaries of the class unchanged after calls')
    ctx.reach('done')


U = [('m', 'm'), ('km', 'm'), ('', ''), ('percent', ''), ('degC', 'K')]
HARNESSES = [
    Harness('time_differencing', diff_wrapper, dict(units=U, calls=2), dict(units=list(CONV), calls=3), reach=['done']),
    Harness('stepper', stepper_tid,
            dict(tunits=['s', 'hr'], units=[('km', 'm'), ('', '')], named=1, dims=[['x', 'y'], ['*'], ['y', 'x']][:2], calls=2),
            dict(tunits=list(TUNITS), units=list(CONV), named=2, dims=[['x', 'y'], ['*']], calls=3), reach=['done']),
    Harness('tendency', tendency_tid, dict(), reach=['done']),
    Harness('time_stepper', tstepper_tid,
            dict(steppers=['ab1', 'ab3', 'rk2', 'rk3'], units=[('km', 'm'), ('', '')], tunits=['s', 'hr'], calls=2),
            dict(steppers=['ab1', 'ab2', 'ab3', 'ab4', 'rk2', 'rk3'], units=U[:4], tunits=list(TUNITS), calls=4),
            reach=['done']),
    Harness('clash', clash, dict(), reach=['refused', 'both']),
    Harness('independence', independence, dict(), reach=['done']),
    numtypes.RATES,
    large.TIDS,
]
ASSUMPTIONS = ['property dictionaries assigned by the user to an instance are extended in place, which tests rely on; '
               'those of classes must not be',
               'tendencies_in_diagnostics of Leapfrog is not covered (the filtered state is not the input state)',
               'components that work in offset units such as degC (for which sympl raises) are not covered',
               'a time stepper may label the diagnostic in any units convertible to the advertised ones']
HARNESSES.append(shapes.RATES)
