"""C06 composites return the unit-aware sum of the members' tendencies, and the union of diagnostics."""
from .common import *
from . import shapes
from . import large

TUNITS = ['m s^-1', 'km hr^-1', 'mm day^-1']
L = {'x': 2, 'y': 2}


def member(ctx, i, implicit, B, log):
    """one member component: (component, {quantity: (array, dims, units)}, diag name)"""
    tend, inputs, vals = {}, {}, {}
    for qn in B['quantities']:
        if not ctx.flag('m%d has %s' % (i, qn)):
            continue
        form = ctx.choose('m%d form' % i, B['forms'])
        dims = {'xy': ['x', 'y'], 'yx': ['y', 'x'], 'wild': ['*'], 'like input': ['x', 'y'],
                'wild x': ['*']}[form]
        u = ctx.choose('m%d units' % i, B['units'])
        rdims = {'wild': ['y', 'x'], 'wild x': ['x']}.get(form, dims)
        a = ctx.array('m%d_%s' % (i, qn), tuple(L[d] for d in rdims))
        tend[qn] = {'dims': dims, 'units': u}
        inputs['r' if form == 'wild x' else 'w'] = {'dims': dims if '*' in dims else ['x', 'y'],
                                                    'units': 'm'}
        if form == 'like input':
            inputs[qn] = {'dims': ['x', 'y'], 'units': 'm'}
            del tend[qn]['dims']
        vals[qn] = (a, rdims, u, form)
    d = 'diag%d' % i
    da_ = ctx.array('diag%d' % i, (2,))

    def fn(s, t=None):
        log.append((i, t))
        # a component may hand out arrays it keeps: the composite must not change them
        return {k: (v[0].reshape(-1) if '*' in tend[k].get('dims', []) else v[0])
                for k, v in vals.items()}, {d: da_}
    c = tendency_component(inputs, tend, {d: {'dims': ['x'], 'units': 'K'}}, fn, implicit=implicit,
                           class_name='M%d' % i)
    return c, vals, d, da_


def summed(ctx, B):
    n = ctx.choose('members', B['members'])
    cls = ctx.choose('class', B['classes'])
    log = []
    ms = []
    for i in range(n):
        imp = cls == 'implicit' and ctx.flag('m%d implicit' % i)
        ms.append(member(ctx, i, imp, B, log) + (imp,))
    # wildcard members with different expansions next to each other are combined by broadcasting
    comps = [m[0] for m in ms]
    C = {'tendency': sympl.TendencyComponentComposite,
         'implicit': sympl.ImplicitTendencyComponentComposite}[cls]
    if n == 3 and B.get('nested') and ctx.flag('nested'):
        comp = C(C(comps[0], comps[1]), comps[2])
        ctx.reach('nested')
    else:
        comp = C(*comps)
    state = {'time': ctx.date('t'), 'w': da(ctx.array('w', (2, 2)), ['y', 'x'], 'm'),
             'r': da(ctx.array('r', (2,)), ['x'], 'm')}
    for qn in B['quantities']:
        state[qn] = da(ctx.array(qn, (2, 2)), ['x', 'y'], 'km')
    snap = snapshot(state)
    originals = [[np.array(v[0]) for v in m[1].values()] for m in ms]
    dtv = ctx.timedelta('dt', MS, MAXDT)
    for rep in range(B['calls']):
        del log[:]
        t, d = comp(state, dtv) if cls == 'implicit' else comp(state)
        ctx.check([l[0] for l in log] == list(range(n)), 'every member called once, in order')
        for i, ts in log:
            if ms[i][4]:
                ctx.check(ts == dtv, 'timestep handed to implicit member')
        ctx.check(set(d) == {m[2] for m in ms}, 'union of diagnostics')
        for m in ms:
            if m[2] in d:
                ctx.same(d[m[2]], m[3], 'diagnostic value')
                ctx.check(same_units(d[m[2]].attrs.get('units', '?'), 'K'), 'diagnostic units')
        wantq = {q for m in ms for q in m[1]}
        ctx.check(set(t) == wantq, 'tendencies for every quantity')
        for q in wantq & set(t):
            parts = [m[1][q] for m in ms if q in m[1]]
            dims = sorted({x for p in parts for x in p[1]})
            ctx.check(sorted(t[q].dims) == dims, 'dims of sum of %s' % q)
            if sorted(t[q].dims) != dims:
                continue
            u = t[q].attrs.get('units', '')
            ctx.check(u != '', 'sum has units')
            if not u:
                continue
            f = unit_factor(u, 'm s^-1')
            for idx in np.ndindex(*[L[x] for x in dims]):
                pos = dict(zip(dims, idx))
                want = 0
                for a, rd, pu, form in parts:
                    want = want + a[tuple(pos[x] for x in rd)] * unit_factor(pu, 'm s^-1')
                got = t[q].values[tuple(pos[x] for x in t[q].dims)] * (f if ctx.symbolic else float(f))
                ctx.close(got, want, 'call %d: sum of tendencies of %s at %s' % (rep, q, pos), tol=1e-6)
            if len(parts) > 1:
                ctx.reach('sum')
                if len({p[2] for p in parts}) > 1:
                    ctx.reach('mixed units')
                if len({len(p[1]) for p in parts}) > 1:
                    ctx.reach('broadcast')
    check_unmodified(ctx, snap, state, 'input state')
    for m, o in zip(ms, originals):
        for v, x in zip(m[1].values(), o):
            ctx.same(v[0], x, 'array owned by a member was changed')


def own_state(ctx, B):
    """every member sees the state of the caller, whatever the other members diagnose"""
    cls = ctx.choose('class', ['tendency', 'implicit', 'diagnostic'])
    n = ctx.choose('members', B['members'])
    seen, comps, arrs = [], [], {}
    for i in range(n):
        reads = ctx.choose('m%d reads' % i, [j for j in range(n) if j != i])
        tends = cls != 'diagnostic' and ctx.flag('m%d has a tendency of what it reads' % i)
        arrs[i] = (ctx.array('diag%d' % i, (2,)), ctx.array('tend%d' % i, (2,)), 'd%d' % reads, tends)

        def fn(s, t=None, i=i):
            d, a, r, tends = arrs[i]
            seen.append((i, {k: np.array(v) for k, v in s.items() if k != 'time'}))
            t = {r: np.array(a)} if tends else {}
            d = {'d%d' % i: np.array(d)}
            return d if cls == 'diagnostic' else (t, d)
        r = arrs[i][2]
        ins = {r: {'dims': ['x'], 'units': 'm'}, 'w': {'dims': ['x'], 'units': 'm'}}
        ds = {'d%d' % i: {'dims': ['x'], 'units': 'm'}}
        if cls == 'diagnostic':
            comps.append(diagnostic_component(ins, ds, fn))
        else:
            comps.append(tendency_component(ins, {r: {'units': 'm s^-1'}} if tends else {}, ds, fn,
                                            implicit=cls == 'implicit' and i % 2 == 1))
    C = {'tendency': sympl.TendencyComponentComposite, 'implicit': sympl.ImplicitTendencyComponentComposite,
         'diagnostic': sympl.DiagnosticComponentComposite}[cls]
    comp = C(*comps)
    state = {'time': ctx.date('t'), 'w': da(ctx.array('w', (2,)), ['x'], 'm')}
    for i in range(n):
        state['d%d' % i] = da(ctx.array('old%d' % i, (2,)), ['x'], 'm')
    snap = snapshot(state)
    for rep in range(2):
        del seen[:]
        out = comp(state, MS) if cls == 'implicit' else comp(state)
        t, d = ({}, out) if cls == 'diagnostic' else out
        check_unmodified(ctx, snap, state, 'input state', identity=True)
        ctx.check([i for i, s in seen] == list(range(n)), 'each member called once')
        for i, s in seen:
            r = arrs[i][2]
            ctx.check(set(s) == {'w', r}, 'quantities seen by member %d' % i)
            for k in ('w', r):
                ctx.same(s[k], snap[k][0], 'member %d sees the %s of the caller' % (i, k))
        ctx.check(set(d) == {'d%d' % i for i in range(n)}, 'union of diagnostics')
        for i in range(n):
            ctx.same(d['d%d' % i], arrs[i][0], 'diagnostic of member %d' % i)
        want = {}
        for i in range(n):
            if arrs[i][3]:
                want.setdefault(arrs[i][2], []).append(arrs[i][1])
        ctx.check(set(t) == set(want), 'tendencies')
        for q, parts in want.items():
            if q in t:
                ctx.close(t[q].values, sum(parts[1:], parts[0]), 'tendency of %s' % q)
    ctx.reach('done')


def number_types(ctx, B):
    """members may return integers or single precision"""
    types = [ctx.choose('type of member %d' % i, [np.float64, np.int64, np.float32, np.int32, 'missing'])
             for i in range(ctx.choose('members', B['members']))]
    units = [ctx.choose('units of member %d' % i, TUNITS[:2]) for i in range(len(types))]
    arrs = [ctx.array('t%d' % i, (2,), dtype=t) for i, t in enumerate(types)]
    keep = [np.array(a) for a in arrs]
    C = [sympl.TendencyComponentComposite, sympl.ImplicitTendencyComponentComposite][ctx.choice('implicit', 2)]
    comp = C(*[tendency_component({}, {'q': {'dims': ['x'], 'units': u}}, {}, lambda s, t=None, a=a: ({'q': a}, {}))
               for a, u in zip(arrs, units)])
    state = {'time': ctx.date('t')}
    for rep in range(2):
        t = (comp(state) if C is sympl.TendencyComponentComposite else comp(state, MS))[0]
        f = unit_factor(t['q'].attrs['units'], 'm s^-1')
        want = 0
        for a, u in zip(keep, units):
            want = want + np.asarray(a, dtype=object) * unit_factor(u, 'm s^-1')
        ctx.close(np.asarray(t['q'].values, dtype=object) * (f if ctx.symbolic else float(f)), want,
                  'sum of %s' % [getattr(x, '__name__', x) for x in types], tol=1e-4)
        for a, k in zip(arrs, keep):
            ctx.same(a, k, 'array of a member')
    ctx.reach('done')


def shared_diagnostic(ctx, B):
    """diagnostics with a common name are refused (names symbolic)"""
    cls = ctx.choose('class', ['tendency', 'implicit', 'diagnostic'])
    n = ctx.choose('members', [2, 3])
    pool = ['d%d' % i for i in range(n * B['per'])]
    comps, sets = [], []
    for i in range(n):
        k = ctx.choice('count%d' % i, B['per'] + 1)
        names = [ctx.name('n%d_%d' % (i, j), pool) for j in range(k)]
        ctx.assume(ctx.distinct(names))
        props = {x: {'dims': ['x'], 'units': 'm'} for x in names}
        ins = {'q': {'dims': ['x'], 'units': 'm'}}
        if cls == 'diagnostic':
            comps.append(diagnostic_component(ins, props, lambda s: {}))
        else:
            comps.append(tendency_component(ins, {}, props, lambda s: ({}, {}),
                                            implicit=cls == 'implicit' and i == 1))
        sets.append(names)
    C = {'tendency': sympl.TendencyComponentComposite,
         'implicit': sympl.ImplicitTendencyComponentComposite,
         'diagnostic': sympl.DiagnosticComponentComposite}[cls]
    r, e = ctx.attempt(lambda: C(*comps), sympl.SharedKeyError)
    clash = ctx.lor(*[a == b for i in range(n) for j in range(i) for a in sets[i] for b in sets[j]])
    if e is None:
        ctx.reach('accepted')
        ctx.check(ctx.lnot(clash), 'two members with the same diagnostic accepted')
    else:
        ctx.reach('rejected')
        ctx.check(clash, 'distinct diagnostics rejected')


HARNESSES = [
    Harness('one_two', summed,
            dict(members=[1, 2], classes=['tendency', 'implicit'], quantities=['a'],
                 forms=['xy', 'yx', 'wild', 'like input', 'wild x'], units=TUNITS[:2], calls=2),
            dict(members=[1, 2], classes=['tendency', 'implicit'], quantities=['a', 'b'],
                 forms=['xy', 'yx', 'wild', 'wild x'], units=TUNITS[:2], calls=2),
            reach=['sum', 'mixed units', 'broadcast']),
    Harness('three', summed,
            dict(members=[3], classes=['tendency'], quantities=['a'],
                 forms=['xy', 'yx', 'wild x'], units=TUNITS[:2], calls=2, nested=True),
            dict(members=[3, 4], classes=['tendency', 'implicit'], quantities=['a'],
                 forms=['xy', 'wild', 'wild x'], units=TUNITS, calls=2, nested=True),
            reach=['sum', 'mixed units', 'broadcast', 'nested']),
    Harness('two_quantities', summed,
            dict(members=[2], classes=['implicit'], quantities=['a', 'b'],
                 forms=['yx'], units=TUNITS[:2], calls=1),
            dict(members=[3], classes=['implicit'], quantities=['a', 'b'],
                 forms=['xy', 'yx'], units=TUNITS[:2], calls=1), reach=['sum', 'mixed units']),
    Harness('own_state', own_state, dict(members=[2, 3]), dict(members=[2, 3, 4]), reach=['done'],
            note='members read the diagnostics of other members from the state of the caller'),
    Harness('number_types', number_types, dict(members=[2, 3]), reach=['done'],
            note='the number types matter in the concrete run of each path only'),
    Harness('shared_diagnostic', shared_diagnostic, dict(per=2), dict(per=2),
            reach=['accepted', 'rejected']),
    large.COMPOSITE,
]
ASSUMPTIONS = ['dimension lengths 2; unit conversions compared within 1e-6 for |tendencies|<=8']
HARNESSES.append(shapes.SUMS)
