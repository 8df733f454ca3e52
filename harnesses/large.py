"""Larger configurations: many quantities, tracers, members, steps and elements, with few choices.

The other harnesses explore all small configurations; these have one large one each (all values
symbolic), for code that treats the tenth quantity, tracer or step unlike the first ones."""
from .common import *

LEN = {'w': 2, 'x': 3, 'y': 2, 'z': 4}
ORDERS = [('w', 'x', 'y', 'z'), ('z', 'y', 'x', 'w'), ('x', 'z', 'w', 'y'), ('y', 'w', 'z', 'x'),
          ('x', 'y'), ('y', 'x'), ('z',), ()]
UNIT = [('m', 'm', F(1)), ('km', 'm', F(1000)), ('K', 'K', F(1)), ('percent', '', F(1, 100)), ('hPa', 'Pa', F(100))]
N = 12


def f_(ctx, x):
    return x if ctx.symbolic else float(x)


def name(i):
    return 'quantity_%d' % i


def to_dims(values, frm, to):
    return np.transpose(values, [list(frm).index(d) for d in to]) if len(to) > 1 else np.array(values)


def inputs(ctx, B):
    """a component with twelve inputs of up to four dimensions, delivered in other orders and units in each of four calls"""
    kind = ctx.choose('kind', KINDS)
    wild = ctx.flag('wildcards')
    got = []

    def fn(state, timestep):
        got.append({k: np.array(v) for k, v in state.items() if k != 'time'})
        return {}
    props = {}
    for i in range(N):
        dims = ORDERS[i % len(ORDERS)]
        cu = UNIT[i % len(UNIT)][1]
        asked = list(reversed(dims)) if i % 3 else list(dims[1:] + dims[:1])
        props[name(i)] = {'dims': ['*'] if wild and i % 4 == 3 else asked, 'units': cu}
        if i % 5 == 4:
            props[name(i)]['alias'] = 'a%d' % i
    comp = make_component(kind, props, fn)
    for rnd in range(4):
        state, want = {'time': ctx.date('t%d' % rnd)}, {}
        for i in range(N):
            k = props[name(i)].get('alias', name(i))
            su, cu, fac = UNIT[i % len(UNIT)]
            if rnd % 2:          # the units of the component itself
                su, fac = cu, F(1)
            tag = '%s in call %d' % (name(i), rnd)
            if wild and i % 4 == 3:
                v = ctx.array(tag, (2, 4))
                turned = (i % 8 == 7) != (rnd == 2)
                dims = ('v', 'u') if turned else ('u', 'v')
                state[name(i)] = da(np.transpose(v) if turned else v, dims, su)
                want[k] = v * f_(ctx, fac)
                continue
            dims = ORDERS[i % len(ORDERS)]
            stored = dims[rnd % max(len(dims), 1):] + dims[:rnd % max(len(dims), 1)]
            v = ctx.array(tag, tuple(LEN[d] for d in stored)) if stored else np.array(ctx.real(tag))
            state[name(i)] = da(v, stored, su)
            want[k] = to_dims(v, stored, props[name(i)]['dims']) * f_(ctx, fac)
        snap = snapshot(state)
        del got[:]
        call_component(kind, comp, state, ctx.timedelta('dt%d' % rnd, MS, MAXDT))
        check_unmodified(ctx, snap, state, 'state', identity=True)
        ctx.check(len(got) == 1 and set(got[0]) == set(want), 'names')
        if len(got) != 1 or set(got[0]) != set(want):
            return
        ws = [p.get('alias', n) for n, p in props.items() if p['dims'] == ['*']]
        for k, w in want.items():
            if k in ws:
                continue
            ctx.check(np.shape(got[0][k]) == np.shape(w), 'shape of %s' % k)
            if np.shape(got[0][k]) == np.shape(w):
                ctx.close(got[0][k], w, '%s in call %d' % (k, rnd))
        if ws:
            ok = all(np.shape(got[0][k]) == (8,) for k in ws)
            ctx.check(ok, 'wildcard shapes')
            if ok:
                # one order for all of the wildcards: that of one of them
                both = [ctx.land(*[_equal(ctx, got[0][k], (np.transpose(want[k]) if t else want[k]).ravel()) for k in ws])
                        for t in (False, True)]
                ctx.check(ctx.lor(*both), 'wildcards in call %d' % rnd)
    ctx.reach('done')


def _equal(ctx, a, b):
    """all elements within 1e-7"""
    return ctx.land(*[ctx.land(x - y < 1e-7, y - x < 1e-7) for x, y in zip(np.ravel(a), np.ravel(b))])


def outputs(ctx, B):
    """twelve outputs in every dictionary a component can return"""
    kind, slot = ctx.choose('slot', SLOTS)
    nin = 4
    inp = {name(i): {'dims': list(ORDERS[i]), 'units': 'm'} for i in range(nin)}
    props, raw = {}, {}
    for i in range(N):
        dims = list(ORDERS[(i + 3) % len(ORDERS)])
        n = name(i)
        if i < nin:
            dims = list(ORDERS[i])
            props[n] = {'units': 'm s^-1' if slot == 'tendencies' else 'm'}      # dims of the input
        else:
            props[n] = {'dims': dims, 'units': UNIT[i % len(UNIT)][1]}
        if i % 5 == 4:
            props[n]['alias'] = 'a%d' % i
        raw[n] = (ctx.array('out%d' % i, tuple(LEN[d] for d in dims)) if dims else np.array(ctx.real('out%d' % i)), dims)

    def fn(state, timestep):
        return {slot: {props[n].get('alias', n): np.array(v) for n, (v, _) in raw.items()}}
    comp = make_component(kind, inp, fn, **slot_props(slot, props))
    state = {'time': ctx.date('t')}
    for i in range(nin):
        o = ORDERS[(i + 1) % 4]
        state[name(i)] = da(ctx.array('in%d' % i, tuple(LEN[d] for d in o)), o, 'm')
    r = call_component(kind, comp, state, ctx.timedelta('dt', MS, MAXDT))[slot]
    ctx.check(set(r) == set(props), 'names %s' % sorted(r))
    for n, (v, dims) in raw.items():
        if n not in r:
            continue
        ctx.check(sorted(r[n].dims) == sorted(dims), 'dims of %s' % n)
        ctx.check(same_units(r[n].attrs.get('units', '?'), props[n]['units']), 'units of %s' % n)
        if sorted(r[n].dims) == sorted(dims):
            ctx.same(r[n].values, to_dims(v, dims, r[n].dims), n)
    ctx.reach('done')


def faulty_state(ctx, B):
    """one of twelve inputs has a defect"""
    kind = ctx.choose('kind', KINDS)
    at = ctx.choose('position', list(range(N)))
    fault = ctx.choose('fault', ['absent', 'no units', 'units', 'dimension', 'length'])
    ran = []

    def fn(state, timestep):
        ran.append(1)
        return {}
    inp = {name(i): {'dims': ['x', 'y'], 'units': 'm'} for i in range(N)}
    comp = make_component(kind, inp, fn)
    state = {'time': ctx.date('t')}
    for i in range(N):
        bad = fault if i == at else None
        if bad == 'absent':
            continue
        dims = ('x', 'y', 'z') if bad == 'dimension' else ('x', 'y')
        shape = {'dimension': (2, 1, 2), 'length': (3, 1)}.get(bad, (2, 1))
        state[name(i)] = da(ctx.array(name(i), shape), dims, {'no units': None, 'units': 'kg'}.get(bad, 'm'))
    snap = snapshot(state)
    r, e = ctx.attempt(lambda: call_component(kind, comp, state, ctx.timedelta('dt', MS, MAXDT)), sympl.InvalidStateError)
    ctx.check(e is not None and not ran, '%s at %d of %d inputs' % (fault, at, N))
    check_unmodified(ctx, snap, state, 'state')
    ctx.reach('rejected')


def deviations(ctx, B):
    """one of twelve declared outputs is missing, or an undeclared one is returned"""
    kind, slot = ctx.choose('slot', SLOTS)
    at = ctx.choose('position', list(range(N)))
    dev = ctx.choose('deviation', [None, 'missing', 'extra', 'renamed'])
    u = 'm s^-1' if slot == 'tendencies' else 'm'
    props = {name(i): {'dims': ['x'], 'units': u} for i in range(N)}
    v = ctx.array('v', (2,))

    def fn(state, timestep):
        out = {n: np.array(v) for n in props}
        if dev in ('missing', 'renamed'):
            del out[name(at)]
        if dev in ('extra', 'renamed'):
            out[name(at + N)] = np.array(v)
        return {slot: out}
    comp = make_component(kind, {'q': {'dims': ['x'], 'units': 'm'}}, fn, **slot_props(slot, props))
    state = {'time': ctx.date('t'), 'q': da(ctx.array('q', (2,)), 'x', 'm')}
    from sympl import ComponentExtraOutputError, ComponentMissingOutputError
    r, e = ctx.attempt(lambda: call_component(kind, comp, state, ctx.timedelta('dt', MS, MAXDT)),
                       (ComponentExtraOutputError, ComponentMissingOutputError))
    if dev is None:
        ctx.check(e is None, 'exact outputs are accepted')
        ctx.check(r is not None and set(r[slot]) == set(props), 'names')
    else:
        ctx.check({'missing': isinstance(e, ComponentMissingOutputError), 'extra': isinstance(e, ComponentExtraOutputError),
                   'renamed': e is not None}[dev], '%s at %d: %r' % (dev, at, e))
    ctx.reach('done')


def malformed(ctx, B):
    """one of twelve declarations is malformed"""
    kind, slot = ctx.choose('slot', SLOTS)
    at = ctx.choose('position', list(range(N)))
    fault = ctx.choose('fault', [None, 'units', 'dims', 'incompatible', 'alias', 'input units', 'input dims', 'input alias'])
    u = 'm s^-1' if slot == 'tendencies' else 'm'
    inp = {name(i): {'dims': ['x'], 'units': 'm'} for i in range(N)}
    props = {name(i): {'dims': ['x'], 'units': u} for i in range(N)}
    props.update({name(i): {'dims': ['x'], 'units': u} for i in range(N, 2 * N)})
    other = name((at + 5) % N)
    if fault == 'units':
        del props[name(at)]['units']
    elif fault == 'dims':
        del props[name(at + N)]['dims']
    elif fault == 'incompatible':
        props[name(at)]['units'] = 'kg'
    elif fault == 'alias':
        props[name(at)]['alias'] = other
    elif fault == 'input units':
        del inp[name(at)]['units']
    elif fault == 'input dims':
        del inp[name(at)]['dims']
    elif fault == 'input alias':
        inp[name(at)]['alias'] = other
    c, e = ctx.attempt(lambda: make_component(kind, inp, lambda s, t: {}, **slot_props(slot, props)),
                       sympl.InvalidPropertyDictError)
    ctx.check((e is None) == (fault is None), '%s at %d: %s' % (fault, at, 'accepted' if e is None else e))
    ctx.reach('accepted' if e is None else 'rejected')


def tendencies(ctx, B):
    """a composite of seven members with three tendencies each, in different units and orders"""
    M = 7
    implicit = ctx.flag('implicit members')
    dims, shape = ('x', 'y', 'z'), (2, 3, 2)
    base = {'time': ctx.date('t')}
    for i in range(3):
        base[name(i)] = da(ctx.array(name(i), shape), dims, 'm')
    rates = [('m s^-1', F(1)), ('km s^-1', F(1000)), ('m hr^-1', F(1, 3600))]
    total, diag, members = {}, {}, []
    for k in range(M):
        own = [i for i in range(3) if (k + i) % 4]
        orders = {i: [dims, dims[::-1], ('y', 'z', 'x')][(k + i) % 3] for i in own}
        vals = {i: ctx.array('t%d_%d' % (k, i), tuple(shape[dims.index(d)] for d in orders[i])) for i in own}
        tp = {}
        for i in own:
            u, fac = rates[(k * 2 + i) % 3]
            tp[name(i)] = {'dims': list(orders[i]), 'units': u}
            total[i] = total.get(i, 0) + to_dims(vals[i], orders[i], dims) * f_(ctx, fac)
        d = ctx.array('d%d' % k, (2,))
        diag['d%d' % k] = d

        def fn(state, timestep=None, vals=vals, k=k, d=d):
            return {name(i): np.array(v) for i, v in vals.items()}, {'d%d' % k: np.array(d)}
        members.append(tendency_component({name(i): {'dims': list(orders[i]), 'units': 'm'} for i in own}, tp,
                                          {'d%d' % k: {'dims': ['x'], 'units': 'K'}}, fn, implicit=implicit and k % 2 == 1,
                                          class_name='Member%d' % k))
    cls = sympl.ImplicitTendencyComponentComposite if implicit else sympl.TendencyComponentComposite
    c = cls(*members)
    snap = snapshot(base)
    for rnd in range(2):
        t, d = c(base, ctx.timedelta('dt', MS, MAXDT)) if implicit else c(base)
        check_unmodified(ctx, snap, base, 'state')
        ctx.check(set(t) == {name(i) for i in total} and set(d) == set(diag), 'names')
        for i, w in total.items():
            if name(i) not in t:
                continue
            v = t[name(i)]
            fac = unit_factor(v.attrs.get('units', '?'), 'm s^-1')
            ctx.check(sorted(v.dims) == sorted(dims), 'dims of %s' % name(i))
            if sorted(v.dims) == sorted(dims):
                ctx.close(to_dims(v.values, v.dims, dims) * f_(ctx, fac), w, 'sum of %s' % name(i), tol=1e-4)
        for k, v in diag.items():
            if k in d:
                ctx.same(d[k].values, v, 'diagnostic %s' % k)
    ctx.reach('done')


def stepping(cls):
    """many steps with the same stepper; several quantities; every third state is changed by the user"""
    def harness(ctx, B):
        dtv = ctx.timedelta('dt', MS, 10 * SEC)
        s = dtv.total_seconds()
        kw = ctx.choose('scheme', {'AdamsBashforth': [{'order': i} for i in (1, 2, 3, 4)], 'Leapfrog': [{'asselin_strength': 0.25}],
                                   'SSPRungeKutta': [{'stages': 2}, {'stages': 3}]}[cls])
        n, evals = B['quantities'], []

        def fn(state):
            e = {i: ctx.array('f%d_%d' % (len(evals), i), (1,)) for i in range(n)}
            evals.append(({name(i): np.array(state[name(i)]) for i in range(n)}, e))
            return {name(i): np.array(v) for i, v in e.items()}, {'d': np.array(e[0])}
        comp = tendency_component({name(i): {'dims': ['x'], 'units': 'm'} for i in range(n)},
                                  {name(i): {'dims': ['x'], 'units': 'm s^-1'} for i in range(n)},
                                  {'d': {'dims': ['x'], 'units': 'm'}}, fn)
        stepper = getattr(sympl, cls)(comp, **kw)
        q = {i: ctx.array('q%d' % i, (1,)) for i in range(n)}
        t0 = ctx.date('t')
        hist, old, results = [], None, []
        for k in range(B['steps']):
            del evals[:]
            state = {'time': t0, 'other': da(np.array([1. * k]), 'x', 'K')}
            state.update({name(i): da(np.array(q[i]), 'x', 'm') for i in range(n)})
            diag, new = stepper(state, dtv)
            f = [e for _, e in evals]
            tag = 'step %d' % (k + 1)
            now = q
            if cls == 'AdamsBashforth':
                c = AB[min(kw['order'], len(hist) + 1)]
                hist.append(f[0])
                want = {i: q[i] + s * sum(f_(ctx, a) * h[i] for a, h in zip(c, reversed(hist))) for i in range(n)}
                ctx.check(len(f) == 1, 'evaluations in ' + tag)
            elif cls == 'SSPRungeKutta':
                st = kw['stages']
                ctx.check(len(f) == st, 'evaluations in ' + tag)
                y1 = {i: q[i] + f[0][i] * s for i in range(n)}
                if st == 2:
                    want = {i: q[i] * f_(ctx, F(1, 2)) + (y1[i] + f[1][i] * s) * f_(ctx, F(1, 2)) for i in range(n)}
                else:
                    y2 = {i: q[i] * f_(ctx, F(3, 4)) + (y1[i] + f[1][i] * s) * f_(ctx, F(1, 4)) for i in range(n)}
                    want = {i: q[i] * f_(ctx, F(1, 3)) + (y2[i] + f[2][i] * s) * f_(ctx, F(2, 3)) for i in range(n)}
            elif old is None:
                want = {i: q[i] + f[0][i] * s for i in range(n)}
            else:
                a = f_(ctx, F(1, 4)) * f_(ctx, F(1, 2))
                pre = {i: old[i] + f[0][i] * s * 2 for i in range(n)}
                d = {i: (old[i] - q[i] * 2 + pre[i]) * a for i in range(n)}
                now = {i: q[i] + d[i] * f_(ctx, F(1, 2)) for i in range(n)}
                want = {i: pre[i] - d[i] * f_(ctx, F(1, 2)) for i in range(n)}
            for i in range(n):
                ctx.close(new[name(i)].values, want[i], '%s, %s' % (name(i), tag), tol=1e-5)
            ctx.same(diag['d'].values, f[0][0], 'diagnostics of ' + tag)
            ctx.same(new['other'].values, np.array([1. * k]), 'other quantity, ' + tag)
            results.append((new, snapshot(new)))
            old = now
            # a short horizon keeps the terms small: the next state is arbitrary every third step
            q = {i: (ctx.array('again%d_%d' % (k, i), (1,)) if k % 3 == 2 or cls == 'Leapfrog' else np.array(new[name(i)].values))
                 for i in range(n)}
            if cls == 'Leapfrog' and len(results) > 1:
                pass
        for new, snap in results:
            check_unmodified(ctx, snap, new, 'earlier results')
        ctx.reach('done')
    return harness


AB = {1: [F(1)], 2: [F(3, 2), F(-1, 2)], 3: [F(23, 12), F(-16, 12), F(5, 12)],
      4: [F(55, 24), F(-59, 24), F(37, 24), F(-9, 24)]}


def frequency(ctx, B):
    """many calls at regular times"""
    kind = ctx.choose('kind', ['tendency', 'stepper'])
    interval = ctx.timedelta('interval', MS, 10 * DAY)
    step = ctx.timedelta('step', MS, 10 * DAY)
    ctx.assume(step * 4 >= interval)
    runs = []
    q0 = ctx.array('q', (2,))

    def fn(state, timestep):
        runs.append(1)
        return {'new_state' if kind == 'stepper' else 'tendencies': {'q': state['q'] * 2}}
    u = 'K' if kind == 'stepper' else 'K s^-1'
    comp = make_component(kind, {'q': {'dims': ['x'], 'units': 'K'}}, fn,
                          **{'outputs' if kind == 'stepper' else 'tendencies': {'q': {'dims': ['x'], 'units': u}}})
    w = sympl.UpdateFrequencyWrapper(comp, interval)
    t = ctx.date('t')
    last = None
    for k in range(B['calls']):
        v = q0 + k
        n = len(runs)
        r = w({'time': t, 'q': da(v, 'x', 'K')}, ctx.timedelta('dt', MS, MAXDT)) if kind == 'stepper' else \
            w({'time': t, 'q': da(v, 'x', 'K')})
        ran = len(runs) - n
        ctx.check(ran in (0, 1), 'executions')
        ctx.check(ctx.iff(ran > 0, True if last is None else t >= last + interval), 'call %d executes exactly when due' % (k + 1))
        if ran:
            last, held = t, v * 2
        ctx.same(r[1 if kind == 'stepper' else 0]['q'].values, held, 'result of call %d' % (k + 1))
        t = t + step
    ctx.reach('done')


def scaling(ctx, B):
    """twelve inputs and outputs, every second one scaled"""
    kind = ctx.choose('kind', KINDS)
    slots = [s for k, s in SLOTS if k == kind]
    fac = {i: ctx.real('factor%d' % i) for i in range(0, N, 2)}
    got = []
    raw = {s: {i: ctx.array('%s%d' % (s, i), (2,)) for i in range(N)} for s in slots}
    pre = {'tendencies': 't', 'diagnostics': 'd', 'new_state': 't'}

    def fn(state, timestep):
        got.append({k: np.array(v) for k, v in state.items() if k != 'time'})
        return {s: {pre[s] + name(i): np.array(v) for i, v in raw[s].items()} for s in slots}
    inp = {name(i): {'dims': ['x'], 'units': 'm'} for i in range(N)}
    kw = {}
    for s in slots:
        kw.update(slot_props(s, {pre[s] + name(i): {'dims': ['x'], 'units': 'K s^-1' if s == 'tendencies' else 'K'} for i in range(N)}))
    comp = make_component(kind, inp, fn, **kw)
    args = {'input_scale_factors': {name(i): v for i, v in fac.items()}}
    key = {'tendencies': 'tendency_scale_factors', 'diagnostics': 'diagnostic_scale_factors', 'new_state': 'output_scale_factors'}
    for s in slots:
        args[key[s]] = {pre[s] + name(i): v for i, v in fac.items()}
    w = sympl.ScalingWrapper(comp, **args)
    q = {i: ctx.array('q%d' % i, (2,)) for i in range(N)}
    state = {'time': ctx.date('t')}
    state.update({name(i): da(np.array(v), 'x', 'm') for i, v in q.items()})
    snap = snapshot(state)
    r = call_component(kind, w, state, ctx.timedelta('dt', MS, MAXDT))
    check_unmodified(ctx, snap, state, 'state')
    for i in range(N):
        k = fac.get(i, 1)
        ctx.close(got[0][name(i)], q[i] * k, 'input %d' % i)
        for s in slots:
            ctx.close(r[s][pre[s] + name(i)].values, raw[s][i] * k, '%s %d' % (s, i))
    ctx.reach('done')


def packing(ctx, B):
    """thirteen tracers"""
    kind = ctx.choose('kind', ['tendency', 'implicit', 'stepper'])
    tdims = ctx.choose('tracer dims', [['tracer', 'x', 'y'], ['x', 'tracer', 'y'], ['x', 'y', 'tracer']])
    npre = ctx.choose('prepended', [0, 3])
    order = [(5 * i) % 13 for i in range(13)]
    got, out = [], {}
    ti = tdims.index('tracer')
    qd = [d for d in tdims if d != 'tracer']

    def fn(state, timestep):
        got.append(np.array(state['tracers']))
        out[0] = ctx.array('out', state['tracers'].shape)
        return {'new_state' if kind == 'stepper' else 'tendencies': {'tracers': np.array(out[0])}}
    attrs = {'uses_tracers': True, 'tracer_dims': tuple(tdims)}
    if npre:
        attrs['prepend_tracers'] = [('t%d' % i, 'kg') for i in order[:npre]]
    late = ctx.flag('registered after the component is made')
    if late:
        comp = make_component(kind, {}, fn, class_attrs=attrs)
    for i in order[npre:]:
        sympl.register_tracer('t%d' % i, 'kg' if i % 2 else 'm')
    if not late:
        comp = make_component(kind, {}, fn, class_attrs=attrs)
    ctx.check([n for n, _ in sympl.get_tracer_unit_dict().items()] == ['t%d' % i for i in order[npre:]] or
              set(sympl.get_tracer_unit_dict()) == {'t%d' % i for i in order[npre:]}, 'registered names')
    ctx.check(list(sympl.get_tracer_names()) == ['t%d' % i for i in order[npre:]], 'order of registration')
    state, vals = {'time': ctx.date('t')}, {}
    for i in range(13):
        v = ctx.array('t%d' % i, (2, 2))
        u = 'kg' if i in order[:npre] or i % 2 else 'm'
        vals[i] = (np.array(v), u)
        state['t%d' % i] = da(np.transpose(v) if i % 3 == 1 else v, qd[::-1] if i % 3 == 1 else qd, u)
    r = call_component(kind, comp, state, ctx.timedelta('dt', MS, MAXDT))['new_state' if kind == 'stepper' else 'tendencies']
    a = got[0]
    shape = [2, 2]
    shape.insert(ti, 13)
    ctx.check(np.shape(a) == tuple(shape), 'shape %s' % (np.shape(a),))
    if np.shape(a) != tuple(shape):
        return
    ctx.check(set(r) == {'t%d' % i for i in range(13)}, 'names %s' % sorted(r))
    for row, i in enumerate(order):
        ctx.close(np.take(a, row, axis=ti), vals[i][0], 'row %d is t%d' % (row, i))
        v = r.get('t%d' % i)
        if v is None:
            continue
        w = vals[i][1] + ('' if kind == 'stepper' else ' s^-1')
        ctx.check(same_units(v.attrs.get('units', '?'), w), 'units of t%d' % i)
        ok = sorted(v.dims) == sorted(qd)
        ctx.check(ok, 'dims of t%d' % i)
        if ok:
            ctx.same(to_dims(v.values, v.dims, qd), np.take(out[0], row, axis=ti), 't%d is row %d' % (i, row))
    ctx.reach('done')


def members(ctx, B):
    """composites of nine diagnostic components, of nine monitors"""
    M, calls, stored = 9, [], []
    dup = ctx.choose('shared diagnostic of members', [None, (0, 8), (4, 5), (7, 8)])
    v = {k: ctx.array('v%d' % k, (2,)) for k in range(M)}
    comps = []
    for k in range(M):
        n = 'd%d' % (dup[0] if dup and k == dup[1] else k)

        def fn(state, k=k, n=n):
            calls.append(k)
            return {n: np.array(v[k])}
        comps.append(diagnostic_component({'q': {'dims': ['x'], 'units': 'm'}}, {n: {'dims': ['x'], 'units': 'K'}}, fn,
                                          class_name='Member%d' % k))
    state = {'time': ctx.date('t'), 'q': da(ctx.array('q', (2,)), 'x', 'm')}
    r, e = ctx.attempt(lambda: sympl.DiagnosticComponentComposite(*comps)(state), sympl.SharedKeyError)
    ctx.check((e is None) == (dup is None), 'shared diagnostics %s: %r' % (dup, e))
    if e is None and dup is None:
        ctx.check(set(r) == {'d%d' % k for k in range(M)} and sorted(calls) == list(range(M)), 'every member called once')
        for k in range(M):
            if 'd%d' % k in r:
                ctx.same(r['d%d' % k].values, v[k], 'd%d' % k)
    ctx.reach('done')
    from sympl import Monitor

    class Mon(Monitor):
        def __init__(self, k):
            self.k = k

        def store(self, state):
            stored.append((self.k, state))
    m = sympl.MonitorComposite(*[Mon(k) for k in range(M)])
    for _ in range(3):
        m.store(state)
    ctx.check([k for k, _ in stored] == list(range(M)) * 3 and all(s is state or s == state for _, s in stored), 'monitors')


def combining(ctx, B):
    """eight members with inputs in common"""
    M = 8
    bad = ctx.choose('incompatible', [None, 'units', 'dims'])
    at = ctx.choose('member', [0, 3, 7])
    comps = []
    for k in range(M):
        u = 'kg' if bad == 'units' and k == at else ['m', 'km', 'cm'][k % 3]
        d = ['y'] if bad == 'dims' and k == at else (['*'] if k % 3 == 1 else ['x'])
        comps.append(diagnostic_component({'q': {'dims': d, 'units': u}, name(k): {'dims': ['z'], 'units': 's'}},
                                          {'d%d' % k: {'dims': ['x'], 'units': 'K'}}, lambda s: {}, class_name='Member%d' % k))
    def build():
        return sympl.DiagnosticComponentComposite(*comps).input_properties
    p, e = ctx.attempt(build, sympl.InvalidPropertyDictError)
    ctx.check((e is None) == (bad is None), '%s at %d: %r' % (bad, at, e))
    if p is not None and bad is None:
        ctx.check(set(p) == {'q'} | {name(k) for k in range(M)}, 'inputs %s' % sorted(p))
        ctx.check('x' in p['q']['dims'] and set(p['q']['dims']) <= {'x', '*'}, 'dims %s' % (p['q']['dims'],))
        r = [unit_factor(p['q']['units'], 'm')]
        ctx.check(bool(r[0]), 'units of q')
        for k in range(M):
            if name(k) in p:
                ctx.check(list(p[name(k)]['dims']) == ['z'] and same_units(p[name(k)]['units'], 's'), name(k))
    ctx.reach('accepted' if e is None else 'rejected')


def registry(ctx, B):
    """thirteen tracers, one of them registered again with the same or other units"""
    at = ctx.choose('registered again', [0, 6, 12])
    how = ctx.choose('units', ['same', 'other'])
    order = [(5 * i) % 13 for i in range(13)]
    us = ['m', 'kg', 's', '']
    for i in order:
        sympl.register_tracer('t%d' % i, us[i % 4])
    i = order[at]
    _, e = ctx.attempt(lambda: sympl.register_tracer('t%d' % i, us[(i + (how == 'other')) % 4]), ValueError)
    ctx.check((e is None) == (how == 'same'), 'registered again: %r' % (e,))
    ctx.check(list(sympl.get_tracer_names()) == ['t%d' % i for i in order], 'names')
    ctx.check(dict(sympl.get_tracer_unit_dict()) == {'t%d' % i: us[i % 4] for i in order}, 'units')
    ctx.reach('done')


def tendency_diagnostics(ctx, B):
    """twelve tendencies in the diagnostics of a component or stepper"""
    kind = ctx.choose('kind', ['tendency', 'implicit', 'stepper'])
    v = {i: ctx.array('v%d' % i, (2,)) for i in range(N)}
    q = {i: ctx.array('q%d' % i, (2,)) for i in range(N)}
    slot = 'new_state' if kind == 'stepper' else 'tendencies'
    units = {i: ['m', 'K', 'kg', ''][i % 4] for i in range(N)}

    def fn(state, timestep):
        return {slot: {name(i): np.array(x) for i, x in v.items()}, 'diagnostics': {'d': np.array(v[0])}}
    per = '' if kind == 'stepper' else ' s^-1'
    comp = make_component(kind, {name(i): {'dims': ['x'], 'units': units[i]} for i in range(N)}, fn,
                          diagnostics={'d': {'dims': ['x'], 'units': 'K'}}, tendencies_in_diagnostics=True, name='c',
                          **slot_props(slot, {name(i): {'dims': ['x'], 'units': (units[i] + per).strip()} for i in range(N)}))
    state = {'time': ctx.date('t')}
    state.update({name(i): da(np.array(x), 'x', units[i]) for i, x in q.items()})
    dtv = ctx.timedelta('dt', MS, MAXDT)
    d = call_component(kind, comp, state, dtv)['diagnostics']
    ctx.check(set(d) == {'d'} | {name(i) + '_tendency_from_c' for i in range(N)} == set(comp.diagnostic_properties), 'names')
    for i in range(N):
        x = d.get(name(i) + '_tendency_from_c')
        if x is None:
            continue
        ctx.check(same_units(x.attrs.get('units', '?'), (units[i] + ' s^-1').strip()), 'units %d' % i)
        if kind == 'stepper':
            ctx.close(x.values, (v[i] - q[i]) / dtv.total_seconds(), 'rate %d' % i, tol=1e-4)
        else:
            ctx.same(x.values, v[i], 'tendency %d' % i)
    ctx.reach('done')


def file_state(ctx, k, t, n, full=True):
    st = {'time': t}
    for i in range(n):
        dims = ORDERS[i % len(ORDERS)]
        if len(dims) == 4 and not full:
            dims = dims[:2]
        v = ctx.array('v%d_%d' % (k, i), tuple(LEN[d] for d in dims)) if dims else np.array(ctx.real('v%d_%d' % (k, i)))
        st[name(i)] = da(v, dims, UNIT[i % len(UNIT)][0])
    return st


def history(ctx, B):
    """a long history of stored states, six quantities of up to two dimensions"""
    import os
    from symx import ncproxy
    from . import c18
    path = os.path.join(ncproxy.scratch(), 'out.nc')
    every = ctx.choose('write', ['on store', 'after each 10', 'at the end'])
    kind = ctx.choose('time', ['datetime', 'timedelta', 'noleap'])
    mon = sympl.NetCDFMonitor(path, time_units='minutes', write_on_store=every == 'on store')
    rows, pending = [], []
    for k in range(B['stores']):
        slot = k if every == 'on store' else k // 10 * 10 + (k % 10 * 3) % 10      # within a batch in any order
        t = c18.sim_time(ctx, kind, 'minutes', slot * 7)
        st = file_state(ctx, k, t, 6, full=False)
        pending.append((t, c18.content_of(st)))
        mon.store(st)
        if every == 'after each 10' and k % 10 == 9:
            mon.write()
        if every == 'on store' or every == 'after each 10' and k % 10 == 9:
            rows += c18.expected_rows(pending)
            pending = []
    mon.write()
    rows += c18.expected_rows(pending)
    c18.check_rows(ctx, path, rows, 'at the end')
    ctx.reach('done')


def restart(ctx, B):
    """sixteen quantities of up to four dimensions, stored again and again"""
    import os
    from symx import ncproxy
    from . import c19
    path = os.path.join(ncproxy.scratch(), 'restart.nc')
    mon = sympl.RestartMonitor(path)
    kind = ctx.choose('time', ['datetime', 'timedelta', '360_day'])
    for k in range(B['stores']):
        t = c19.make_time(c19.TIMES[kind])
        if k:
            t = t + k * DAY
        st = file_state(ctx, k, t, 16)
        snap = snapshot(st)
        mon.store(st)
        check_unmodified(ctx, snap, st, 'the state stored')
    c19.compare(ctx, sympl.RestartMonitor(path).load(), snap, 'loaded')
    ctx.reach('done')


def aliases(ctx, B):
    """twelve quantities with aliases in the four dictionaries of five components"""
    kinds = ['input', 'output', 'diagnostic', 'tendency']

    class Thing(object):
        pass
    comps = [Thing() for _ in range(5)]
    shift = ctx.choose('shift', [0, 1, 2, 3])
    for i in range(N):
        d = comps[i % 5].__dict__.setdefault(kinds[(i + shift) % 4] + '_properties', {})
        d[name(i)] = {'dims': ['x'], 'units': 'm'}
        if i % 3:
            d[name(i)]['alias'] = 'a%d' % i
    got = sympl.get_component_aliases(*comps)
    ctx.check(dict(got) == {name(i): 'a%d' % i for i in range(N) if i % 3}, 'aliases %s' % (sorted(got.items()),))
    ctx.reach('done')


def round_trip(ctx, B):
    """extraction and restoration of twelve quantities"""
    props, state, want, scaled = {}, {'time': ctx.date('t')}, {}, ctx.flag('processed')
    for i in range(N):
        stored = ORDERS[i % len(ORDERS)]
        su, cu, fac = UNIT[i % len(UNIT)]
        asked = list(reversed(stored)) if i % 3 else list(stored[1:] + stored[:1])
        props[name(i)] = {'dims': asked, 'units': cu}
        if i % 5 == 4:
            props[name(i)]['alias'] = 'a%d' % i
        v = ctx.array(name(i), tuple(LEN[d] for d in stored)) if stored else np.array(ctx.real(name(i)))
        state[name(i)] = da(v, stored, su)
        want[name(i)] = (v * f_(ctx, fac), stored)
    snap = snapshot(state)
    raw = sympl.get_numpy_arrays_with_properties(state, props)
    ctx.check(set(raw) == {p.get('alias', n) for n, p in props.items()}, 'raw names')
    for n, (v, stored) in want.items():
        k = props[n].get('alias', n)
        if k in raw:
            ctx.close(raw[k], to_dims(v, stored, props[n]['dims']), 'raw %s' % n)
    if scaled:
        raw = {k: v * 3 - 1 for k, v in raw.items()}
    out = sympl.restore_data_arrays_with_properties(raw, props, state, props)
    check_unmodified(ctx, snap, state, 'state')
    ctx.check(set(out) == set(props), 'names')
    for n, (v, stored) in want.items():
        if n not in out:
            continue
        ok = sorted(out[n].dims) == sorted(stored)
        ctx.check(ok and same_units(out[n].attrs.get('units', '?'), props[n]['units']), 'dims and units of %s' % n)
        if ok:
            ctx.close(to_dims(out[n].values, out[n].dims, stored), v * 3 - 1 if scaled else v, n)
    ctx.reach('done')


def constants(ctx, B):
    """prescribed components of twelve quantities, called several times"""
    cls = ctx.choose('class', [sympl.ConstantTendencyComponent, sympl.ConstantDiagnosticComponent])
    vals = {name(i): ctx.array('c%d' % i, (3, 2)) for i in range(N)}
    given = {n: da(np.array(v), ('x', 'y'), 'K s^-1') for n, v in vals.items()}
    diags = {'d' + n: da(np.array(v) * 2, ('x', 'y'), 'm') for n, v in vals.items()}
    comp = cls(given, diags) if cls is sympl.ConstantTendencyComponent else cls(given)
    for k in range(4):
        r = comp({'time': ctx.date('t%d' % k)})
        t, d = r if cls is sympl.ConstantTendencyComponent else (r, None)
        ctx.check(set(t) == set(vals) and (d is None or set(d) == set(diags)), 'names')
        for n, v in vals.items():
            if n in t:
                ctx.same(t[n].values, v, n)
                ctx.check(tuple(t[n].dims) == ('x', 'y') and same_units(t[n].attrs['units'], 'K s^-1'), 'dims and units')
                t[n].values[...] = k
            if d is not None and 'd' + n in d:
                ctx.same(d['d' + n].values, v * 2, 'diagnostic ' + n)
    ctx.reach('done')


TIDS = Harness('large', tendency_diagnostics, {}, reach=['done'], note='12 quantities')
HISTORY = Harness('large', history, dict(stores=24), dict(stores=120), reach=['done'], note='6 quantities')
RESTART = Harness('large', restart, dict(stores=2), dict(stores=6), reach=['done'], note='16 quantities')
ALIASES = Harness('large', aliases, {}, reach=['done'], note='12 quantities')
ROUND_TRIP = Harness('large', round_trip, {}, reach=['done'], note='12 quantities, up to 4 dimensions')
CONSTANTS = Harness('large', constants, {}, reach=['done'], note='12 quantities')
INPUTS = Harness('large', inputs, {}, reach=['done'], note='12 inputs, up to 4 dimensions')
OUTPUTS = Harness('large', outputs, {}, reach=['done'], note='12 outputs, up to 4 dimensions')
STATES = Harness('large', faulty_state, {}, reach=['rejected'], note='12 inputs')
EXACT = Harness('large', deviations, {}, reach=['done'], note='12 outputs')
DECLARED = Harness('large', malformed, {}, reach=['accepted', 'rejected'], note='12 inputs, 24 outputs')
COMPOSITE = Harness('large', tendencies, {}, reach=['done'], note='7 members, 3 dimensions')
AB_STEPS = Harness('large', stepping('AdamsBashforth'), dict(steps=14, quantities=2), dict(steps=30, quantities=6), reach=['done'])
RK_STEPS = Harness('large', stepping('SSPRungeKutta'), dict(steps=12, quantities=2), dict(steps=24, quantities=6), reach=['done'])
LEAP_STEPS = Harness('large', stepping('Leapfrog'), dict(steps=12, quantities=2), dict(steps=24, quantities=6), reach=['done'])
FREQUENCY = Harness('large', frequency, dict(calls=14), dict(calls=30), reach=['done'])
SCALING = Harness('large', scaling, {}, reach=['done'], note='12 inputs and outputs')
PACKING = Harness('large', packing, {}, reach=['done'], note='13 tracers')
MEMBERS = Harness('large', members, {}, reach=['done'], note='9 members')
COMBINED = Harness('large', combining, {}, reach=['accepted', 'rejected'], note='8 members')
REGISTRY = Harness('large', registry, {}, reach=['done'], note='13 tracers')
