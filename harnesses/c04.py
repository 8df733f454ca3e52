"""C04 array_call must return exactly the declared quantities."""
from .common import *
from . import histories
from . import large

ERR = None


def names_match(ctx, B):
    """declared and returned names are symbolic: every equality pattern is decided by the solver"""
    kind, slot = ctx.choose('slot', B['slots'])
    nd = ctx.choice('declared', B['max_declared'] + 1)
    nr = ctx.choice('returned', B['max_returned'] + 1)
    pool = ['n%d' % i for i in range(nd * 2 + nr + 1)]
    decl = [ctx.name('d%d' % i, pool) for i in range(nd)]
    ret = [ctx.name('r%d' % i, pool) for i in range(nr)]
    raw, props = [], {}
    full = []
    ctx.assume(ctx.distinct(decl))
    ctx.assume(ctx.distinct(ret))
    for i, d in enumerate(decl):
        p = {'dims': ['x'], 'units': 'm'}
        if ctx.choice('alias%d' % i, B.get('alias', 2)):
            p['alias'] = ctx.name('a%d' % i, pool)
            raw.append(p['alias'])
            full.append((d, p['alias']))
        else:
            raw.append(d)
        props[d] = p
    ctx.assume(ctx.distinct(raw))
    # returning an aliased quantity under its full name is outside the property, and so is an
    # alias that is the name of another (aliased) quantity
    for d, a in full:
        ctx.assume(ctx.land(*[ctx.lor(d == a, r != d) for r in ret]))
        ctx.assume(ctx.land(*[ctx.lor(d is o, a != o) for o in decl]))
    arrs = [ctx.array('v%d' % i, (2,)) for i in range(nr)]
    inputs = {'q': {'dims': ['x'], 'units': 'm'}}
    comp = make_component(kind, inputs, lambda s, t: {slot: {r: np.array(v) for r, v in zip(ret, arrs)}},
                          **slot_props(slot, props))
    state = {'time': ctx.date('t'), 'q': da(ctx.array('q', (2,)), 'x', 'm')}
    dtv = ctx.timedelta('dt', MS, MAXDT)
    out, e = ctx.attempt(lambda: call_component(kind, comp, state, dtv),
                         (sympl.ComponentMissingOutputError, sympl.ComponentExtraOutputError))
    missing = ctx.lor(*[ctx.lnot(ctx.isin(x, ret)) for x in raw])
    extra = ctx.lor(*[ctx.lnot(ctx.isin(x, raw)) for x in ret])
    if e is None:
        ctx.reach('accepted')
        ctx.check(ctx.lnot(missing), 'call returned although a declared %s quantity is missing' % slot)
        ctx.check(ctx.lnot(extra), 'call returned although an undeclared %s quantity is present' % slot)
        res = out[slot]
        ctx.check(len([k for k in res if k != 'time']) == nd, 'as many quantities as declared')
        for d, w in zip(decl, raw):
            for r, v in zip(ret, arrs):
                if w == r:
                    ctx.same(res[d], v, 'value of the quantity returned under its alias')
    elif isinstance(e, sympl.ComponentMissingOutputError):
        ctx.reach('missing')
        ctx.check(missing, 'missing-output error although all %s are present' % slot)
    else:
        ctx.reach('extra')
        ctx.check(extra, 'extra-output error although all %s are declared' % slot)


def both_dicts(ctx, B):
    """all returned dictionaries are checked, also with tendencies_in_diagnostics and aliases
    taken from the input properties"""
    kind = ctx.choose('kind', B['kinds'])
    tid = kind != 'diagnostic' and ctx.flag('tendencies_in_diagnostics')
    slots = {'tendency': ['tendencies', 'diagnostics'], 'implicit': ['tendencies', 'diagnostics'],
             'diagnostic': ['diagnostics'], 'stepper': ['new_state', 'diagnostics']}[kind]
    ialias = ctx.flag('input alias')
    inputs = {'q': {'dims': ['x'], 'units': 'm'}, 'p': {'dims': ['x'], 'units': 'm'}}
    if ialias:
        inputs['q']['alias'] = 'Q'
    props, ret, raws = {}, {}, {}
    bad_m = bad_e = False
    left = B['deviations']
    for s in slots:
        props[s], ret[s], raws[s] = {}, {}, {}
        pool = [('q', 'Q' if ialias else 'q'), ('z', 'Z')] if s != 'diagnostics' else \
            [('d', 'd'), ('e', 'E'), ('q', 'Q' if ialias else 'q')]
        for n, r in pool:
            # 0 ok, 1 missing, 2 not declared, 3 extra
            st = ctx.choice('%s %s' % (s, n), 4) if left else 0
            left -= st != 0
            if st in (0, 1):
                u = 'm s^-1' if s == 'tendencies' else 'm'
                props[s][n] = {'dims': ['x'], 'units': u}
                if r in ('Z', 'E'):
                    props[s][n]['alias'] = r
            if st in (0, 3):
                ret[s][r] = ctx.array('%s_%s' % (s, n), (2,))
                raws[s][n] = ret[s][r]
            bad_m |= st == 1
            bad_e |= st == 3
    kw = {}
    for s in slots:
        kw.update(slot_props(s, props[s]))
    called = []

    def fn(s, t):
        called.append(1)
        return {k: {a: np.array(v) for a, v in d.items()} for k, d in ret.items()}
    if tid:
        kw['tendencies_in_diagnostics'] = True
    comp = make_component(kind, inputs, fn, class_name='Thing', **kw)
    state = {'time': ctx.date('t'), 'q': da(ctx.array('q', (2,)), 'x', 'm'),
             'p': da(ctx.array('p', (2,)), 'x', 'm'), 'z': da(ctx.array('zz', (2,)), 'x', 'm')}
    dtv = ctx.timedelta('dt', MS, MAXDT)
    out, e = ctx.attempt(lambda: call_component(kind, comp, state, dtv),
                         (sympl.ComponentMissingOutputError, sympl.ComponentExtraOutputError))
    if bad_m or bad_e:
        ctx.reach('bad')
        ctx.check(e is not None, 'outputs %s accepted for declarations %s' % (
            {k: sorted(v) for k, v in ret.items()}, {k: sorted(v) for k, v in props.items()}))
    else:
        ctx.reach('good')
        ctx.check(e is None, 'matching outputs rejected: %s' % e)
        if e is None:
            for s in slots:
                extra = {k for k in out[s] if '_tendency_from_' in k} if tid else set()
                ctx.check(set(out[s]) - {'time'} - extra == set(props[s]), 'returned quantities')
                for n, v in raws[s].items():
                    ctx.same(out[s][n], v, '%s of %s' % (n, s))


def confusable(ctx, B):
    """names related as strings (prefixes, case, blanks, the _tendency_from_ form) are different names"""
    kind, slot = ctx.choose('slot', SLOTS)
    near_q = ['q_old', 'old_q', 'qq', '', 'Q', 'q ', 'q_tendency_from_Thing', 'time', 'tracers']
    kinds = ctx.choose('declared', [['q'], ['q', 'qq'], ['air_q'], []])
    props = {n: {'dims': ['x'], 'units': 'm'} for n in kinds}
    alias = bool(kinds) and ctx.flag('alias')
    if alias:
        props[kinds[0]]['alias'] = 'Q_a'
    raw = {n: props[n].get('alias', n) for n in kinds}
    lost = ctx.choose('missing', [None] + kinds)
    more = ctx.choose('undeclared', [None] + [n for n in near_q + ['Q_', 'Q_a2'] if n not in kinds])
    v = {n: ctx.array('v_' + n, (2,)) for n in raw}
    ret = {raw[n]: np.array(v[n]) for n in kinds if n != lost}
    if more is not None:
        ret[more] = ctx.array('more', (2,))
    inputs = {'w': {'dims': ['x'], 'units': 'm'}}
    kw = {}
    if kind != 'diagnostic' and ctx.flag('tendencies_in_diagnostics'):
        kw['tendencies_in_diagnostics'] = True
    comp = make_component(kind, inputs, lambda s, t: {slot: dict(ret)}, class_name='Other',
                          **dict(slot_props(slot, props), **kw)) if not (
        kw and kind == 'stepper' and slot == 'new_state') else make_component(
        kind, dict(inputs, **{n: {'dims': ['x'], 'units': 'm'} for n in kinds}), lambda s, t: {slot: dict(ret)},
        class_name='Other', **dict(slot_props(slot, props), **kw))
    state = {'time': ctx.date('t'), 'w': da(ctx.array('w', (2,)), 'x', 'm')}
    state.update({n: da(ctx.array('old_' + n, (2,)), 'x', 'm') for n in kinds})
    dtv = ctx.timedelta('dt', MS, MAXDT)
    out, e = ctx.attempt(lambda: call_component(kind, comp, state, dtv),
                         (sympl.ComponentMissingOutputError, sympl.ComponentExtraOutputError))
    if lost is None and more is None:
        ctx.reach('good')
        ctx.check(e is None, 'matching outputs rejected: %s' % e)
        if e is None:
            for n in kinds:
                ctx.same(out[slot][n], v[n], 'value of %s' % n)
        return
    ctx.reach('bad')
    want = []
    if lost is not None:
        want.append(sympl.ComponentMissingOutputError)
    if more is not None:
        want.append(sympl.ComponentExtraOutputError)
    ctx.check(isinstance(e, tuple(want)), 'returned %s for declared %s: %s' % (sorted(ret), raw, type(e).__name__))


def with_tracers(ctx, B):
    """A component that uses tracers must return them among the tendencies or the new state, and nowhere else."""
    kind = ctx.choose('kind', ['tendency', 'implicit', 'stepper'])
    main = 'new_state' if kind == 'stepper' else 'tendencies'
    uses = ctx.flag('uses tracers')
    n = ctx.choice('registered', 3)
    tid = ctx.flag('tendencies_in_diagnostics')
    inmain, indiag = ctx.flag('tracers returned'), ctx.flag('tracers among the diagnostics')
    q, d = ctx.flag('q returned'), ctx.flag('d returned')
    for i in range(n):
        sympl.register_tracer('t%d' % i, 'kg')
    arr = ctx.array('tr', (n, 2))
    v = ctx.array('v', (2,))

    def fn(state, timestep):
        r = {main: {}, 'diagnostics': {}}
        if inmain:
            r[main]['tracers'] = np.array(arr)
        if indiag:
            r['diagnostics']['tracers'] = np.array(arr)
        if q:
            r[main]['q'] = np.array(v)
        if d:
            r['diagnostics']['d'] = np.array(v)
        return r
    kw = {'class_attrs': {'uses_tracers': True, 'tracer_dims': ('tracer', 'x')}} if uses else {}
    if tid:
        kw['tendencies_in_diagnostics'] = True
    p = {'dims': ['x'], 'units': 'm' if kind == 'stepper' else 'm s^-1'}
    comp = make_component(kind, {'q': {'dims': ['x'], 'units': 'm'}}, fn,
                          **dict(kw, diagnostics={'d': {'dims': ['x'], 'units': 'm'}},
                                 **slot_props(main, {'q': p})))
    state = {'time': ctx.date('t'), 'q': da(ctx.array('q', (2,)), 'x', 'm')}
    for i in range(n):
        state['t%d' % i] = da(ctx.array('t%d' % i, (2,)), 'x', 'kg')
    dtv = ctx.timedelta('dt', MS, MAXDT)
    snap = snapshot(state)
    out, e = ctx.attempt(lambda: call_component(kind, comp, state, dtv),
                         (sympl.ComponentMissingOutputError, sympl.ComponentExtraOutputError))
    check_unmodified(ctx, snap, state, 'state')
    want = []
    if not q or not d or uses and not inmain:
        want.append(sympl.ComponentMissingOutputError)
    if indiag or inmain and not uses:
        want.append(sympl.ComponentExtraOutputError)
    if want:
        ctx.reach('bad')
        ctx.check(isinstance(e, tuple(want)), 'uses_tracers=%s, tracers returned: %s, in diagnostics: %s, q: %s, d: %s; got %s' % (
            uses, inmain, indiag, q, d, type(e).__name__))
        return
    ctx.reach('good')
    ctx.check(e is None, 'matching outputs rejected: %s' % e)
    if e is None:
        ctx.check(set(out[main]) - {'time'} == {'q'} | {'t%d' % i for i in range(n) if uses}, 'returned %s' % sorted(out[main]))
        for i in range(n if uses else 0):
            ctx.same(out[main]['t%d' % i], arr[i], 'tracer %d' % i)
        ctx.same(out[main]['q'], v, 'q')


def kept(ctx, B):
    """array_call may return dictionaries (and arrays) that the component keeps, or shares with others:
    every call returns exactly what is declared, and the dictionaries stay as they are."""
    kind = ctx.choose('kind', KINDS)
    main = {'stepper': 'new_state', 'diagnostic': 'diagnostics'}.get(kind, 'tendencies')
    uses = kind != 'diagnostic' and ctx.flag('uses tracers')
    alias = ctx.flag('alias')
    raw = 'Q' if alias else 'q'
    if uses:
        sympl.register_tracer('t', 'kg')
    v, arr, dv = ctx.array('v', (2,)), ctx.array('tr', (1, 2)), ctx.array('d', (2,))
    keep = {main: {raw: np.array(v)}}
    keep.setdefault('diagnostics', {})['d'] = np.array(dv)
    if uses:
        keep[main]['tracers'] = np.array(arr)
    names = {k: set(x) for k, x in keep.items()}
    p = {'dims': ['x'], 'units': 'm s^-1' if main == 'tendencies' else 'm'}
    dp = {'d': {'dims': ['x'], 'units': 'm'}}
    if main == 'diagnostics':
        dp['q'] = dict(p, **({'alias': 'Q'} if alias else {}))
    qin = {'dims': ['x'], 'units': 'm'}
    if alias:
        qin['alias'] = 'Q'

    def make(tid):
        kw = {'class_attrs': {'uses_tracers': True, 'tracer_dims': ('tracer', 'x')}} if uses else {}
        if tid:
            kw['tendencies_in_diagnostics'] = True
        if main != 'diagnostics':
            kw.update(slot_props(main, {'q': dict(p)}))
        return make_component(kind, {'q': dict(qin)}, lambda s, t: keep, class_name='Thing', diagnostics=dp, **kw)
    tids = [False, False] if kind == 'diagnostic' else [bool(ctx.flag('reports tendencies %d' % i)) for i in range(2)]
    comps = [make(tid) for tid in tids]
    state = {'time': ctx.date('t'), 'q': da(ctx.array('q', (2,)), 'x', 'm'), 't': da(ctx.array('t', (2,)), 'x', 'kg')}
    dtv = ctx.timedelta('dt', MS, MAXDT)
    for k in range(B['calls']):
        i = ctx.choice('called %d' % k, 2)
        out = call_component(kind, comps[i], state, dtv)
        tend = {k for k in out['diagnostics'] if '_tendency_from_' in k}
        ctx.check((len(tend) > 0) == tids[i], 'tendencies in the diagnostics: %s' % sorted(tend))
        ctx.check(set(out['diagnostics']) - tend - {'time'} == set(dp), 'diagnostics %s' % sorted(out['diagnostics']))
        if main != 'diagnostics':
            ctx.check(set(out[main]) - {'time'} == {'q'} | ({'t'} if uses else set()), 'returned %s' % sorted(out[main]))
        ctx.same(out[main]['q'], v, 'q')
        ctx.same(out['diagnostics']['d'], dv, 'd')
        if uses:
            ctx.same(out[main]['t'], arr[0], 'tracer')
        ctx.check({k: set(x) for k, x in keep.items()} == names, "the component's dictionaries")
        ctx.same(keep[main][raw], v, "the component's array")
    ctx.reach('done')


HARNESSES = [
    Harness('tracers', with_tracers, dict(), reach=['good', 'bad']),
    Harness('kept', kept, dict(calls=2), dict(calls=4), reach=['done'], note='dictionaries kept by components'),
    Harness('symbolic_names', names_match,
            dict(slots=SLOTS[:1] + SLOTS[4:6], max_declared=2, max_returned=2),
            dict(slots=SLOTS, max_declared=3, max_returned=3), reach=['accepted', 'missing', 'extra'],
            note='names and aliases are symbolic; equality patterns decided by the solver'),
    Harness('confusable_names', confusable, dict(), reach=['good', 'bad']),
    Harness('both_dicts', both_dicts, dict(kinds=KINDS, deviations=2),
            dict(kinds=KINDS, deviations=5), reach=['bad', 'good']),
    large.EXACT,
]
HARNESSES.append(histories.RETURNS)
ASSUMPTIONS = ['an aliased output returned under its full name is not considered']
