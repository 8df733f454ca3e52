"""C36 a component which uses tracers, inside composites, wrappers and steppers, does what the same
component does which lists every tracer as a quantity of its own."""
from .common import *

REG = {'A': 'kg', 'B': 'm', 'C': ''}
STATE_UNITS = {'A': 'g', 'B': 'km', 'C': 'percent'}
DIMS = ['x', 'y']
SHAPE = {'x': 2, 'y': 1}


def work(tr, q, k, slot, seconds):
    """the physics: acts on each tracer alone (tr: list of arrays with dims x, y)"""
    out = [t * (2 + k) + q for t in tr]
    if slot == 'new_state':
        out = [o * seconds for o in out]
    return out


def make_pair(ctx, kind, k, names, tdims, prepend, scribble, units=REG):
    """the component with packed tracers, and the one without"""
    stepper = kind == 'stepper'
    slot = 'new_state' if stepper else 'tendencies'
    per = '' if stepper else ' s^-1'
    q_in = {'q': {'dims': DIMS, 'units': 'Pa'}}
    q_out = {'q': {'dims': DIMS, 'units': 'Pa' + per}}
    dp = {'d%d' % k: {'dims': DIMS, 'units': 'K'}}
    ti = tdims.index('tracer')
    qd = [d for d in tdims if d != 'tracer']
    perm = [qd.index(d) for d in DIMS]

    def results(q, seconds):
        f = seconds if stepper else 1
        return q * 3 * f, q - k

    def packed(state, timestep):
        s = timestep.total_seconds() if timestep is not None else 1
        arr, q = state['tracers'], state['q']
        tr = [np.transpose(np.take(arr, i, axis=ti), perm) for i in range(arr.shape[ti])] if arr.size else []
        outs = work(tr, q, k, slot, s)
        res = np.array(arr)
        for i, o in enumerate(outs):
            idx = [slice(None)] * len(tdims)
            idx[ti] = i
            res[tuple(idx)] = np.transpose(o, np.argsort(perm))
        nq, d = results(q, s)
        return {slot: {'tracers': res, 'q': nq}, 'diagnostics': {'d%d' % k: d}}

    def plain(state, timestep):
        s = timestep.total_seconds() if timestep is not None else 1
        q = state['q']
        outs = work([state[n] for n in names], q, k, slot, s)
        nq, d = results(q, s)
        return {slot: dict(zip(names, outs), q=nq), 'diagnostics': {'d%d' % k: d}}
    attrs = {'uses_tracers': True, 'tracer_dims': tuple(tdims)}
    if prepend:
        attrs['prepend_tracers'] = [(n, units[n]) for n in prepend]
    key = 'outputs' if stepper else 'tendencies'
    one = make_component(kind, q_in, packed, diagnostics=dp, class_attrs=attrs, class_name='K%d' % k, **{key: q_out})
    ins, outs = dict(q_in), dict(q_out)
    for n in names:
        ins[n] = {'dims': DIMS, 'units': units[n]}
        outs[n] = {'dims': DIMS, 'units': (units[n] + per).strip()}
    two = make_component(kind, ins, plain, diagnostics=dp, class_name='K%d' % k, **{key: outs})
    return one, two


def compare_dict(ctx, got, want, label, own=()):
    # tendencies of tracers are not among the diagnostics (section 3 of DESIGN.md)
    want = {n: v for n, v in want.items() if not any(n == t + '_tendency_from_N' and t not in own for t in REG)}
    ctx.check(set(got) == set(want), '%s: %s, expected %s' % (label, sorted(got), sorted(want)))
    for n in set(got) & set(want):
        if n == 'time':
            ctx.check(got[n] == want[n], label + ': time')
            continue
        g, w = got[n], want[n]
        ctx.check(set(g.dims) == set(w.dims), '%s: dims of %s: %s, expected %s' % (label, n, g.dims, w.dims))
        if set(g.dims) != set(w.dims):
            continue
        ok = compat(g.attrs['units'], w.attrs['units'])
        ctx.check(ok, '%s: units of %s: %s, expected %s' % (label, n, g.attrs['units'], w.attrs['units']))
        if ok:
            f = unit_factor(g.attrs['units'], w.attrs['units'])
            gv = np.transpose(np.asarray(g.values, dtype=object), [g.dims.index(d) for d in w.dims]) * f
            ctx.close(gv, w.values, '%s: %s' % (label, n), tol=1e-3)


def compat(a, b):
    from .common import _ureg, _clean
    r = _ureg()
    return r.parse_units(_clean(a)).dimensionality == r.parse_units(_clean(b)).dimensionality


def assemble(what, kind, comps, kw):
    if what == 'composite':
        cls = {'tendency': sympl.TendencyComponentComposite, 'implicit': sympl.ImplicitTendencyComponentComposite}[kind]
        return cls(*comps)
    if what == 'AB1':
        return sympl.AdamsBashforth(*comps, order=1, name='N', **kw)
    if what == 'AB2':
        return sympl.AdamsBashforth(*comps, order=2, name='N', **kw)
    if what == 'Leapfrog':
        return sympl.Leapfrog(*comps, asselin_strength=0.25, name='N', **kw)
    if what == 'RK2':
        return sympl.SSPRungeKutta(*comps, stages=2, name='N', **kw)
    if what == 'RK3':
        return sympl.SSPRungeKutta(*comps, stages=3, name='N', **kw)
    if what == 'diff':
        return sympl.TimeDifferencingWrapper(comps[0], **kw)
    if what == 'freq':
        return sympl.UpdateFrequencyWrapper(comps[0], 2 * SEC)
    if what == 'scale':
        return sympl.ScalingWrapper(comps[0], input_scale_factors={'q': 3.}, diagnostic_scale_factors={n: 0.5 for n in comps[0].diagnostic_properties},
                                    **{'output_scale_factors' if kind == 'stepper' else 'tendency_scale_factors': {'q': -2.}})
    if what == 'scaled AB':
        return sympl.AdamsBashforth(*[assemble('scale', kind, [c], {}) if c.diagnostic_properties else c for c in comps], order=1, name='N', **kw)
    if what == 'diff AB':
        return sympl.TimeDifferencingWrapper(assemble('AB1', kind, comps, {}))
    if what == 'composite AB2':
        return sympl.AdamsBashforth(assemble('composite', kind, comps, {}), order=2, name='N', **kw)
    if what == 'AB diff':
        return sympl.AdamsBashforth(*[sympl.TimeDifferencingWrapper(c) for c in comps], order=1, name='N', **kw)


def tracers(ctx, B):
    what, kind = ctx.choose('assembly', B['assemblies'])
    reg = ctx.choose('registered', B['reg'])
    pre = ctx.choose('prepended', B['pre'])
    tdims = ctx.choose('tracer dims', B['tdims'])
    n_comps = 1 if what in ('diff', 'freq', 'scale') else 2 if what == 'AB diff' else ctx.choose('members', [1, 2, -2])
    late = ctx.flag('registered after assembling')
    # the component states its own units for the tracers it prepends, which are not those registered
    units = dict(REG, **{n: STATE_UNITS[n] for n in pre}) if pre and ctx.flag('prepended in other units') else REG
    names = list(pre) + [n for n in reg if n not in pre]
    if not late:
        for n in reg:
            sympl.register_tracer(n, REG[n])
    kw = {}
    if what not in ('freq', 'composite', 'diff', 'scale', 'diff AB') and not late and ctx.flag('tendencies in diagnostics'):
        kw['tendencies_in_diagnostics'] = True
    pairs, own = [], []
    # members may prepend different tracers
    by = ctx.choose('prepended by', ['all', 'the first', 'the last']) if pre and n_comps == 2 else 'all'
    other = n_comps == 2 and by == 'all' and ctx.flag('members with other tracer dims')
    for k in range(abs(n_comps)):
        if n_comps == -2 and k == 0:
            # a member without tracers which lists one of them itself, in other units
            n = names[0] if names else 'q'
            u = STATE_UNITS[n] if names else 'kPa'
            own.append(n)

            def run_own(state, timestep, n=n):
                return {'tendencies': {n: state[n] * 5}, 'diagnostics': {}}

            def mk(n=n, u=u):
                return make_component('tendency', {n: {'dims': DIMS, 'units': u}}, run_own,
                                      tendencies={n: {'dims': DIMS, 'units': u + ' hr^-1'}}, class_name='Own')
            pairs.append((mk(), mk()))
        else:
            mine = by == 'all' or by == ('the last' if k else 'the first')
            pairs.append(make_pair(ctx, kind, k, names if mine else list(reg), tdims[::-1] if other and k else tdims, pre if mine else (), False,
                                   units if mine else REG))
    one = assemble(what, kind, [p[0] for p in pairs], kw)
    two = assemble(what, kind, [p[1] for p in pairs], kw)
    if late:
        for n in reg:
            sympl.register_tracer(n, REG[n])
    if what not in ('diff', 'freq', 'scale', 'diff AB'):
        ip = one.input_properties
        for n in names + ['q']:
            ctx.check(n in ip, 'the assembly lists input %s' % n)
            if n in ip:
                ctx.check(set(ip[n]['dims']) == set(DIMS) and compat(ip[n]['units'], REG.get(n, 'Pa')), 'dims and units of %s' % n)
    dtv = ctx.choose('dt', B['dt'])
    t = ctx.date('t')
    uses_dt = what not in ('composite', 'freq', 'scale') or kind in ('implicit', 'stepper')
    ours, theirs = None, None
    for c in range(B['calls']):
        if ours is None or what not in ('AB2', 'composite AB2', 'Leapfrog'):
            vals = {n: ctx.array('%s_%d' % (n, c), tuple(SHAPE[d] for d in DIMS)) for n in names + ['q']}

            def fresh():
                st = {'time': t}
                for n, v in vals.items():
                    v = np.array(v)
                    st[n] = da(np.transpose(v), DIMS[::-1], STATE_UNITS[n]) if n == 'A' else \
                        da(v, DIMS, STATE_UNITS.get(n, 'Pa'))
                st['other'] = da(np.array([4.]), ['z'], 'm')
                return st
            ours, theirs = fresh(), fresh()
        snap = snapshot(ours)
        a = one(ours, dtv) if uses_dt else one(ours)
        b = two(theirs, dtv) if uses_dt else two(theirs)
        if what != 'Leapfrog':
            check_unmodified(ctx, snap, ours, 'state of call %d' % c)
        else:
            compare_dict(ctx, ours, theirs, 'call %d: filtered state' % c)
        ctx.check(len(a) == len(b), 'number of results')
        for i, (x, y) in enumerate(zip(a, b)):
            compare_dict(ctx, x, y, 'call %d: result %d' % (c, i), own)
        if what in ('AB2', 'composite AB2', 'Leapfrog'):
            ours, theirs = a[1], b[1]
            ours['time'] = theirs['time'] = t
    ctx.reach(what)
    if late:
        ctx.reach('late')


ALL = [('composite', 'tendency'), ('composite', 'implicit'), ('AB1', 'tendency'), ('AB2', 'tendency'), ('Leapfrog', 'tendency'),
       ('RK2', 'implicit'), ('RK3', 'tendency'), ('diff', 'stepper'), ('freq', 'tendency'), ('freq', 'implicit'), ('freq', 'stepper'),
       ('scale', 'tendency'), ('scale', 'implicit'), ('scale', 'stepper'), ('scaled AB', 'tendency'), ('diff AB', 'tendency'),
       ('composite AB2', 'tendency'), ('AB diff', 'stepper')]
HARNESSES = [
    Harness('tracers', tracers,
            dict(assemblies=ALL, reg=[('B', 'A')], pre=[(), ('C', 'B')], tdims=[('tracer', 'x', 'y'), ('y', 'tracer', 'x')],
                 dt=[2 * SEC], calls=2),
            dict(assemblies=ALL, reg=[('B', 'A'), ('C', 'B', 'A'), ()], pre=[(), ('C',), ('B', 'C')],
                 tdims=[('tracer', 'x', 'y'), ('y', 'tracer', 'x'), ('x', 'y', 'tracer')], dt=[2 * SEC, SEC / 4], calls=3),
            reach=['late'] + sorted({a for a, _ in ALL})),
]
ASSUMPTIONS = ['timestep 2 s or 0.25 s', 'tracers A, B, C with units kg, m and none, held by the state in g, km and percent']
