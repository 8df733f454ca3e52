"""C13 ScalingWrapper."""
from .common import *
from . import shapes
from . import histories
from . import large
from . import numtypes

# kind -> {argument: names that may be scaled}
ARGS = {'tendency': ['input', 'tendency', 'diagnostic'], 'implicit': ['input', 'tendency', 'diagnostic'],
        'diagnostic': ['input', 'diagnostic'], 'stepper': ['input', 'output', 'diagnostic']}
NAMES = {'input': ['a', 'b'], 'tendency': ['a', 'b'], 'output': ['a', 'b'], 'diagnostic': ['d', 'e']}


def build(ctx, kind, seen, passthrough=False, alias=False):
    units = {'a': 'K', 'b': 'm'}
    inputs = {n: {'dims': ['x'] if n == 'a' else ['y', 'x'], 'units': units[n]} for n in 'ab'}
    if alias:
        inputs['a']['alias'] = 'AA'
    tend = {n: {'dims': inputs[n]['dims'], 'units': units[n] + ' s^-1'} for n in 'ab'}
    outs = {n: {'dims': inputs[n]['dims'], 'units': units[n]} for n in 'ab'}
    diags = {'d': {'dims': ['x'], 'units': 'kg'}, 'e': {'dims': ['y', 'x'], 'units': 's'}}
    ka = 'AA' if alias else 'a'

    def fn(state, timestep):
        k = len(seen)
        seen.append({'a': np.array(state[ka]), 'b': np.array(state['b']), 'timestep': timestep,
                     'keys': set(state)})
        main = {ka: state[ka] if passthrough else state[ka] * 3 + k, 'b': state['b'] - 1}
        slot = 'new_state' if kind == 'stepper' else 'tendencies'
        r = {'diagnostics': {'d': state[ka] if passthrough else state[ka] + 5, 'e': state['b'] * 2}}
        if kind != 'diagnostic':
            r[slot] = main
        return r
    return make_component(kind, inputs, fn, diagnostics=diags,
                          tendencies=tend if kind in ('tendency', 'implicit') else {},
                          outputs=outs if kind == 'stepper' else {})


def scaling(ctx, B):
    kind = ctx.choose('kind', KINDS)
    seen = []
    passthrough = ctx.choice('component returns its input', B['pass'])
    alias = bool(ctx.choice('alias', B['alias']))
    comp = build(ctx, kind, seen, passthrough, alias)
    kw, fac = {}, {}
    for arg in ARGS[kind]:
        mode = ctx.choice('factors of %s' % arg, B['modes'])     # 0 none, 1 first, 2 second, 3 both
        names = [n for i, n in enumerate(NAMES[arg]) if mode & (1 << i)]
        fac[arg] = {n: ctx.real('f_%s_%s' % (arg, n), lo=-4, hi=4) for n in names}
        if mode:
            kw[arg + '_scale_factors'] = dict(fac[arg])
    nest = ctx.choose('nesting', B.get('nest', ['no']))
    zero = 0 * DAY
    if nest == 'inside':
        w = sympl.ScalingWrapper(sympl.UpdateFrequencyWrapper(comp, zero), **kw)
    elif nest == 'outside':
        w = sympl.UpdateFrequencyWrapper(sympl.ScalingWrapper(comp, **kw), zero)
    elif nest == 'twice':       # inputs are scaled by the inner wrapper, everything else by the outer
        inner = {k: kw.pop(k) for k in list(kw) if k == 'input_scale_factors'}
        w = sympl.ScalingWrapper(sympl.ScalingWrapper(comp, **inner), **kw)
    else:
        w = sympl.ScalingWrapper(comp, **kw)
    for p in ('input_properties', 'diagnostic_properties'):
        ctx.check(getattr(w, p) == getattr(comp, p), 'properties')
    su = ctx.choose('state units', B['units'])
    scale = {'K': F(1), 'mK': F(1, 1000)}[su]
    sc = scale if ctx.symbolic else float(scale)
    a, b = ctx.array('a', (2,)), ctx.array('b', (2, 1))
    state = {'time': ctx.date('t'), 'a': da(a, 'x', su, note='n'), 'b': da(b, ['x', 'y'], 'm'),
             'other': da(ctx.array('o', (1,)), 'z', 'kg')}
    a0, b0 = np.array(a) * sc, np.array(b).T
    if kind != 'diagnostic' and kind != 'tendency':
        dtv = ctx.timedelta('dt', MS, MAXDT)
    else:
        dtv = ctx.choose('timestep', [None, SEC])
    hist = []
    one = F(1) if ctx.symbolic else 1.

    def f(arg, n):
        return fac[arg].get(n, one)
    for k in range(B['calls']):
        snap = snapshot(state)
        if dtv is None:
            r = w(state)
        else:
            r = w(state, dtv)
        check_unmodified(ctx, snap, state, 'state after call %d' % (k + 1), identity=True)
        for s, o in hist:
            check_unmodified(ctx, s, o, 'results of an earlier call')
        ctx.check(len(seen) == k + 1, 'component executed once per call')
        ia, ib = a0 * f('input', 'a'), b0 * f('input', 'b')
        ctx.close(seen[k]['a'], ia, 'input a of call %d' % (k + 1), tol=1e-6)
        ctx.close(seen[k]['b'], ib, 'input b of call %d' % (k + 1), tol=1e-6)
        if kind in ('implicit', 'stepper'):
            ctx.check(seen[k]['timestep'] is dtv or seen[k]['timestep'] == dtv, 'timestep passed on')
        out = ia if passthrough else ia * 3 + k
        want = {'diagnostics': {'d': ((ia if passthrough else ia + 5) * f('diagnostic', 'd'), 'kg', ('x',)),
                                'e': (ib * 2 * f('diagnostic', 'e'), 's', ('y', 'x'))}}
        if kind == 'diagnostic':
            got = {'diagnostics': r}
        elif kind == 'stepper':
            got = {'diagnostics': r[0], 'main': r[1]}
            want['main'] = {'a': (out * f('output', 'a'), 'K', ('x',)),
                            'b': ((ib - 1) * f('output', 'b'), 'm', ('y', 'x'))}
        else:
            got = {'diagnostics': r[1], 'main': r[0]}
            want['main'] = {'a': (out * f('tendency', 'a'), 'K s^-1', ('x',)),
                            'b': ((ib - 1) * f('tendency', 'b'), 'm s^-1', ('y', 'x'))}
        for part in want:
            ctx.check(set(got[part]) - {'time'} == set(want[part]), 'set of %s' % part)
            for n, (v, u, dims) in want[part].items():
                g = got[part][n]
                ctx.check(g.attrs.get('units') is not None and same_units(g.attrs['units'], u), 'units of %s' % n)
                ctx.check(tuple(g.dims) == dims, 'dims of %s' % n)
                ctx.close(g, v, '%s %s of call %d' % (part, n, k + 1), tol=1e-6)
            hist.append((snapshot(got[part]), got[part]))
    ctx.reach('done')


def same_name(ctx, B):
    """one quantity in several dictionaries: the factors of each are its own"""
    kind = ctx.choose('kind', KINDS)
    props = {'q': {'dims': ['x'], 'units': 'm'}}
    t = {'q': {'dims': ['x'], 'units': 'm s^-1'}}
    diag = kind != 'diagnostic' or ctx.flag('input is a diagnostic')

    def fn(state, timestep):
        r = {'diagnostics': {'q': state['q'] + 1} if diag else {}}
        if kind != 'diagnostic':
            r['new_state' if kind == 'stepper' else 'tendencies'] = {'q': state['q'] * 2}
        return r
    comp = make_component(kind, props, fn, diagnostics=props if diag else {},
                          tendencies=t if kind in ('tendency', 'implicit') else {}, outputs=props if kind == 'stepper' else {})
    one = F(1) if ctx.symbolic else 1.
    f = {}
    for arg in ARGS[kind]:
        if (arg != 'diagnostic' or diag) and ctx.flag('factor for %s' % arg):
            f[arg] = ctx.real('f_' + arg, -4, 4)
    w = sympl.ScalingWrapper(comp, **{a + '_scale_factors': {'q': x} for a, x in f.items()})
    v = ctx.array('q', (2,))
    state = {'time': ctx.date('t'), 'q': da(np.array(v), ['x'], 'm')}
    r = w(state, SEC) if kind in ('implicit', 'stepper') else w(state)
    q = v * f.get('input', one)
    if kind == 'diagnostic':
        d, m = r, None
    else:
        d, m = r if kind == 'stepper' else r[::-1]
        ctx.close(m['q'].values, q * 2 * f.get('output' if kind == 'stepper' else 'tendency', one), 'output or tendency', tol=1e-6)
    ctx.check(set(d) - {'time'} == ({'q'} if diag else set()), 'diagnostics')
    if diag:
        ctx.close(d['q'].values, (q + 1) * f.get('diagnostic', one), 'diagnostic', tol=1e-6)
    ctx.same(state['q'].values, v, 'state')
    ctx.reach('done')


def rejection(ctx, B):
    kind = ctx.choose('kind', KINDS)
    arg = ctx.choose('argument', ['input', 'tendency', 'output', 'diagnostic'])
    comp = build(ctx, kind, [])
    names = [ctx.choose('name', ['a', 'b', 'd', 'e', 'zz'])]
    second = ctx.choose('second name', [None, 'a', 'd', 'zz'])
    if second is not None and second not in names:
        names.append(second)
    facs = {n: ctx.real('f' + n, 0, 2) for n in names}
    valid_arg = arg in ARGS[kind]
    ok = valid_arg and all(n in NAMES[arg] for n in names)
    try:
        sympl.ScalingWrapper(comp, **{arg + '_scale_factors': facs})
        raised = None
    except (ValueError, TypeError) as e:
        raised = type(e)
    if ok:
        ctx.check(raised is None, 'valid factors accepted')
    elif valid_arg:
        ctx.check(raised is ValueError, 'factor for an undeclared quantity rejected with ValueError')
        ctx.reach('rejected')
    else:
        ctx.check(raised is not None, 'factors for a dictionary the component has not are rejected')
    if kind in ('implicit', 'stepper'):
        w = sympl.ScalingWrapper(build(ctx, kind, []))
        st = {'time': ctx.date('t'), 'a': da(ctx.array('a', (1,)), 'x', 'K'),
              'b': da(ctx.array('b', (1, 1)), 'yx', 'm')}
        ctx.expect_exc(lambda: w(st), TypeError, 'missing timestep')
    ctx.expect_exc(lambda: sympl.ScalingWrapper(object()), TypeError, 'not a component')
    ctx.reach('done')


HARNESSES = [
    Harness('scaling', scaling, dict(modes=2, units=['K', 'mK'], calls=2, **{'pass': 2, 'alias': 1}),
            dict(modes=4, units=['K', 'mK'], calls=3, **{'pass': 2, 'alias': 2}), reach=['done']),
    Harness('both_factors', scaling, dict(modes=4, units=['K'], calls=2, **{'pass': 1, 'alias': 2}),
            dict(modes=4, units=['mK'], calls=4, **{'pass': 1, 'alias': 2}), reach=['done']),
    Harness('nested', scaling, dict(modes=2, units=['K'], calls=2, nest=['inside', 'outside', 'twice'],
                                    **{'pass': 1, 'alias': 1}), reach=['done'],
            note='together with UpdateFrequencyWrapper (interval 0) or another ScalingWrapper'),
    Harness('same_name', same_name, dict(), reach=['done']),
    Harness('rejection', rejection, dict(), reach=['done', 'rejected']),
    numtypes.SCALING,
    large.SCALING,
]
HARNESSES.append(histories.SCALED)
ASSUMPTIONS = ['components that use tracers, and quantities in offset units such as degC, are not scaled here']
HARNESSES.append(shapes.SCALING)
