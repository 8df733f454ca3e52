"""Quantities of every number of dimensions, and with dimensions of length one.

All values are symbolic; the shape, the order of the axes and the units are case splits."""
from .common import *
from .large import f_, to_dims

SHAPES = [((), ()), (('x',), (1,)), (('x',), (2,)), (('y', 'x'), (1, 1)), (('y', 'x'), (1, 3)), (('x', 'y'), (3, 1)),
          (('z', 'y', 'x'), (1, 1, 2)), (('x', 'z', 'y'), (2, 1, 1)), (('z', 'x', 'y'), (2, 3, 2)), (('x', 'w', 'z', 'y'), (1, 2, 2, 1))]
SMALL = SHAPES[:9]


def arr(ctx, label, shape, lo=None, hi=None):
    if lo is not None:
        return ctx.array(label, shape, lo, hi) if shape else np.array(ctx.real(label, lo, hi))
    return ctx.array(label, shape) if shape else np.array(ctx.real(label))


def obj(v):
    return np.array(v, dtype=object) if not isinstance(v, np.ndarray) else v


def other_order(dims):
    return dims[::-1] if len(dims) < 3 else dims[1:] + dims[:1]


def labelled_close(ctx, got, dims, want, label, tol=1e-6):
    """got (a quantity) has the dims, in any order, and the values want (laid out as dims)"""
    ok = sorted(got.dims) == sorted(dims) and np.shape(got.values) == tuple(np.shape(want)[dims.index(d)] for d in got.dims)
    ctx.check(ok, '%s: dims %s, shape %s' % (label, got.dims, np.shape(got.values)))
    if ok:
        ctx.close(got.values, to_dims(obj(want), dims, got.dims), label, tol=tol)


UNITS = [('m', 'm', F(1), F(0)), ('km', 'm', F(1000), F(0)), ('degC', 'K', F(1), F(27315, 100))]


def declared(ctx, B):
    """a quantity, and one with one dimension less, as declared: state, properties, expected arrays"""
    dims, shape = ctx.choose('shape', B['shapes'])
    su, cu, fac, off = ctx.choose('units', B['units'])
    stored = ctx.choose('stored', [dims, other_order(dims)]) if len(dims) > 1 else dims
    v = arr(ctx, 'v', shape)
    state = {'time': ctx.date('t'), 'q': da(np.array(to_dims(v, dims, stored)), stored, su)}
    props = {'q': {'dims': list(dims), 'units': cu}}
    want = {'q': (v * f_(ctx, fac) + f_(ctx, off), dims)}
    lens = dict(zip(dims, shape))
    # r has the first dimension only (or none)
    rdims = dims[:1] if len(dims) > 1 else ()
    r = arr(ctx, 'r', tuple(lens[d] for d in rdims))
    state['r'] = da(np.array(r), rdims, 'm')
    props['r'] = {'dims': list(dims), 'units': 'm'}
    full = np.empty(shape, dtype=object)
    for idx in np.ndindex(*shape):
        full[idx] = r[tuple(idx[dims.index(d)] for d in rdims)]
    want['r'] = (full, dims)
    return state, props, want, dims, shape


def inputs(ctx, B):
    kind = ctx.choose('kind', B['kinds'])
    wild = bool(ctx.choice('wildcard', 2))
    state, props, want, dims, shape = declared(ctx, B)
    if wild:
        props = {n: dict(p, dims=['*']) for n, p in props.items()}
    got = []

    def fn(s, timestep):
        got.append(dict(s))
        return {}
    comp = make_component(kind, props, fn)
    snap = snapshot(state)
    call_component(kind, comp, state, SEC)
    check_unmodified(ctx, snap, state, 'state', identity=True)
    ctx.check(len(got) == 1, 'calls')
    check_arrays(ctx, got[0], want, dims, shape, wild)
    ctx.reach('done')


def check_arrays(ctx, got, want, dims, shape, wild):
    for n, (w, _) in want.items():
        a = got[n]
        if wild:
            size = int(np.prod(shape)) if shape else 1
            ok = np.shape(a) == (size,)
            ctx.check(ok, '%s: shape %s' % (n, np.shape(a)))
            if ok and n == 'q':
                # in one of the orders of the dimensions
                import itertools
                alts = []
                for p in itertools.permutations(range(len(dims))):
                    alts.append(ctx.land(*[ctx.land(x - y < 1e-6, y - x < 1e-6)
                                           for x, y in zip(np.ravel(a), np.ravel(np.transpose(obj(w), p) if p else obj(w)))]))
                    if len([1 for l in shape if l > 1]) < 2:
                        break
                ctx.check(ctx.lor(*alts) if len(alts) > 1 else alts[0], '%s folded' % n)
        else:
            ok = len(np.shape(a)) == len(shape) and all(l in (m, 1) if n == 'r' else l == m for l, m in zip(np.shape(a), shape))
            ctx.check(ok, '%s: shape %s' % (n, np.shape(a)))
            if ok:
                ctx.close(np.broadcast_to(obj(a), shape), w, n, tol=1e-6)


INPUTS = Harness('any_shape', inputs, dict(shapes=SHAPES, units=UNITS[1:], kinds=['tendency']),
                 dict(shapes=SHAPES, units=UNITS, kinds=KINDS), reach=['done'], note='0 to 4 dimensions, lengths of one')


def pair(ctx, B):
    wild = bool(ctx.choice('wildcard', 2))
    state, props, want, dims, shape = declared(ctx, B)
    if wild:
        props = {n: dict(p, dims=['*']) for n, p in props.items()}
        del props['r'], want['r'], state['r']
    snap = snapshot(state)
    raw = sympl.get_numpy_arrays_with_properties(state, props)
    check_arrays(ctx, raw, want, dims, shape, wild)
    if not wild:
        raw['r'] = np.array(want['r'][0])
    back = sympl.restore_data_arrays_with_properties(raw, props, state, props)
    ctx.check(set(back) == set(props), 'names')
    for n, (w, _) in want.items():
        labelled_close(ctx, back[n], dims, w, 'restored %s' % n)
        if not wild:
            ctx.check(tuple(back[n].dims) == tuple(dims), 'order of the dims of %s' % n)
    check_unmodified(ctx, snap, state, 'state', identity=True)
    ctx.reach('done')


PAIR = Harness('any_shape', pair, dict(shapes=SHAPES, units=UNITS[1:]), dict(shapes=SHAPES, units=UNITS), reach=['done'],
               note='0 to 4 dimensions, lengths of one')


def outputs(ctx, B):
    kind, slot = ctx.choose('slot', SLOTS)
    dims, shape = ctx.choose('shape', SHAPES)
    how = ctx.choose('dims', ['explicit', 'input', 'wildcard'])
    stored = ctx.choose('stored', [dims, other_order(dims)]) if len(dims) > 1 else dims
    state = {'time': ctx.date('t'), 'q': da(np.array(to_dims(arr(ctx, 'q', shape), dims, stored)), stored, 'm')}
    spec = ['*'] if how == 'wildcard' else list(dims)
    per = 'm s^-1' if slot == 'tendencies' else 'm'
    props = {'q': {'units': per}}
    if how != 'input':
        props['q']['dims'] = spec
    res = []

    def fn(s, timestep):
        res.append((np.array(s['q']) * 2, arr(ctx, 'n', np.shape(s['q']))))
        return {slot: {'q': res[0][0] + res[0][1]}}
    comp = make_component(kind, {'q': {'dims': spec, 'units': 'm'}}, fn, **slot_props(slot, props))
    out = call_component(kind, comp, state, SEC)[slot]['q']
    ctx.check(same_units(out.attrs.get('units', '?'), per), 'units')
    # the same position as in the input: extract it again by a component without output
    seen = []

    def look(s, timestep):
        seen.append(np.array(s['q']))
        return {}
    again = make_component('diagnostic', {'q': {'dims': spec, 'units': per}}, look)
    if how == 'wildcard':
        ctx.check(tuple(out.dims) == tuple(stored), 'dims %s of %s' % (out.dims, stored))
    else:
        ctx.check(tuple(out.dims) == tuple(dims), 'dims %s of %s' % (out.dims, dims))
    if sorted(out.dims) == sorted(dims) and np.shape(out.values) == tuple(shape[dims.index(d)] for d in out.dims):
        base = np.array(res[0][0] + res[0][1])
        if how == 'wildcard':
            ctx.same(np.ravel(out.values), np.ravel(base), 'values')
            ctx.close(to_dims(obj(out.values), out.dims, stored) - np.reshape(obj(res[0][1]), tuple(shape[dims.index(d)] for d in stored)),
                      2 * obj(state['q'].values), 'positions')
        else:
            ctx.same(out.values, base, 'values')
    else:
        ctx.check(False, 'shape')
    ctx.reach('done')


OUTPUTS = Harness('any_shape', outputs, {}, reach=['done'], note='0 to 4 dimensions, lengths of one')


def misfits(ctx, B):
    """arrays of other shapes are rejected"""
    kind, slot = ctx.choose('slot', SLOTS[:1] + SLOTS[4:6])
    dims, shape = ctx.choose('shape', SHAPES)
    how = ctx.choose('dims', ['explicit', 'wildcard'])
    spec = ['*'] if how == 'wildcard' else list(dims)
    fits = (int(np.prod(shape)) if shape else 1,) if how == 'wildcard' else tuple(shape)
    given = ctx.choose('given', [(), (1,), (2,), (1, 1), (3,), (1, 3), (3, 1), (2, 1), (1, 2), (2, 1, 1), (1, 2, 1), (4,), (12,)])
    ctx.assume(given != fits)
    state = {'time': ctx.date('t'), 'q': da(arr(ctx, 'q', shape), dims, 'm')}
    v = arr(ctx, 'given', given)
    comp = make_component(kind, {'q': {'dims': spec, 'units': 'm'}}, lambda s, t: {slot: {'r': v}},
                          **slot_props(slot, {'r': {'dims': spec, 'units': 'm'}}))
    ctx.expect_exc(lambda: call_component(kind, comp, state, SEC), Exception, '%s does not fit %s' % (given, fits))
    ctx.reach('done')


MISFITS = Harness('misfit_shapes', misfits, {}, reach=['done'], note='0 to 4 dimensions, lengths of one')


def sums(ctx, B):
    dims, shape = ctx.choose('shape', SHAPES)
    n = 2
    comps, total, kept = [], 0, []
    implicit = bool(ctx.choice('implicit', 2))
    for i in range(n):
        u, fac = ctx.choose('units of member %d' % i, [('m s^-1', F(1)), ('km s^-1', F(1000))])
        d = ctx.choose('order in member %d' % i, [dims, other_order(dims)]) if len(dims) > 1 else dims
        v = arr(ctx, 'v%d' % i, tuple(shape[dims.index(k)] for k in d))
        total = total + to_dims(v, d, dims) * f_(ctx, fac)
        kept.append((v, np.array(v)))
        comps.append(tendency_component({'q': {'dims': list(dims), 'units': 'm'}}, {'q': {'dims': list(d), 'units': u}},
                                        {'d%d' % i: {'dims': list(d), 'units': 'm'}},
                                        lambda s, v=v, i=i: ({'q': v}, {'d%d' % i: v})))
    c = (sympl.ImplicitTendencyComponentComposite if implicit else sympl.TendencyComponentComposite)(*comps)
    state = {'time': ctx.date('t'), 'q': da(arr(ctx, 'q', shape), dims, 'm')}
    snap = snapshot(state)
    for rnd in range(2):
        t, d = c(state, SEC) if implicit else c(state)
        fac = unit_factor(t['q'].attrs['units'], 'm s^-1')
        ctx.check(sorted(t['q'].dims) == sorted(dims), 'dims')
        if sorted(t['q'].dims) == sorted(dims):
            ctx.close(to_dims(obj(t['q'].values), t['q'].dims, dims) * f_(ctx, fac), total, 'sum in call %d' % rnd, tol=1e-5)
        for i, (v, w) in enumerate(kept):
            ctx.same(v, w, 'array kept by member %d' % i)
            ctx.same(d['d%d' % i].values, w, 'diagnostic %d' % i)
        check_unmodified(ctx, snap, state, 'state', identity=True)
    ctx.reach('done')


SUMS = Harness('any_shape', sums, {}, reach=['done'], note='0 to 4 dimensions, lengths of one')


def stepping(cls):
    def harness(ctx, B):
        kw = ctx.choose('scheme', {'AdamsBashforth': [{'order': i} for i in (1, 2, 3, 4)],
                                   'Leapfrog': [{'asselin_strength': 0.25, 'alpha': 0.5}, {'asselin_strength': 0.25, 'alpha': 1.}],
                                   'SSPRungeKutta': [{'stages': 2}, {'stages': 3}]}[cls])
        dims, shape = ctx.choose('shape', B['shapes'])
        su, cu, fac, off = ctx.choose('units', UNITS[:2])
        order = other_order(dims) if len(dims) > 1 and ctx.choice('order', 2) else dims
        dt = ctx.timedelta('dt', MS, 10 * SEC)
        s = dt.total_seconds()
        fed = []

        def fn(state):
            v = arr(ctx, 'tend%d' % len(fed), tuple(shape[dims.index(d)] for d in order))
            fed.append(to_dims(v, order, dims) / f_(ctx, fac))
            return {'q': v}, {'d': v, 'e': np.array(1.)}
        comp = tendency_component({'q': {'dims': list(order), 'units': 'm'}}, {'q': {'dims': list(order), 'units': 'm s^-1'}},
                                  {'d': {'dims': list(order), 'units': 'm'}, 'e': {'dims': [], 'units': 'm'}}, fn)
        stepper = getattr(sympl, cls)(comp, **kw)
        q, old = arr(ctx, 'q', shape), None
        o = arr(ctx, 'o', shape)
        state = {'time': ctx.date('t'), 'q': da(np.array(q), dims, su), 'o': da(np.array(o), dims, 'kg')}
        results = []
        for k in range(B['steps']):
            del fed[:-3]
            n = len(fed)
            snap = snapshot(state)
            diags, new = stepper(state, dt)
            h = fed[n:]
            tag = 'step %d' % (k + 1)
            if cls == 'AdamsBashforth':
                c = {1: [1], 2: [F(3, 2), F(-1, 2)], 3: [F(23, 12), F(-16, 12), F(5, 12)],
                     4: [F(55, 24), F(-59, 24), F(37, 24), F(-9, 24)]}[min(kw['order'], len(fed))]
                want = q + s * sum(f_(ctx, F(a)) * b for a, b in zip(c, reversed(fed)))
            elif cls == 'Leapfrog':
                if old is None:
                    want = q + s * h[0]
                else:
                    want = old + 2 * s * h[0]
                    infl = f_(ctx, F(1, 8)) * (old - 2 * q + want)
                    q = q + f_(ctx, F(kw['alpha'])) * infl
                    want = want + f_(ctx, F(kw['alpha']) - 1) * infl
                    ctx.close(state['q'].values, q, 'filtered state in %s' % tag, tol=1e-5)
                    snap.pop('q')
                old = q
            elif kw['stages'] == 2:
                want = f_(ctx, F(1, 2)) * (q + (q + s * h[0] + s * h[1]))
            else:
                q2 = f_(ctx, F(3, 4)) * q + f_(ctx, F(1, 4)) * (q + s * h[0] + s * h[1])
                want = f_(ctx, F(1, 3)) * q + f_(ctx, F(2, 3)) * (q2 + s * h[2])
            ctx.check(set(state) == {'time', 'q', 'o'} and set(new) == {'time', 'q', 'o'}, 'names in ' + tag)
            check_unmodified(ctx, snap, {n: state[n] for n in snap}, 'state in ' + tag)
            ctx.check(tuple(new['q'].dims) == tuple(dims) and same_units(new['q'].attrs['units'], su), 'dims and units in ' + tag)
            labelled_close(ctx, new['q'], dims, want, tag, tol=1e-5)
            labelled_close(ctx, new['o'], dims, o, 'other quantity in ' + tag)
            labelled_close(ctx, diags['d'], dims, h[0] * f_(ctx, fac), 'diagnostics of ' + tag, tol=1e-5)
            results.append((diags, snapshot(diags)))
            q, state = obj(want), new
        for r, snap in results:
            check_unmodified(ctx, snap, r, 'earlier diagnostics')
        ctx.reach('done')
    steps = {'AdamsBashforth': 3, 'Leapfrog': 3, 'SSPRungeKutta': 2}[cls]
    return Harness('any_shape', harness, dict(shapes=SMALL, steps=steps), dict(shapes=SHAPES, steps=steps + 1),
                   reach=['done'], note='0 to 4 dimensions, lengths of one')


AB = stepping('AdamsBashforth')
SSP = stepping('SSPRungeKutta')
LEAP = stepping('Leapfrog')


def steppers(ctx, B):
    i = ctx.choice('stepper', 3)
    [AB, SSP, LEAP][i].fn(ctx, dict(B, steps=2))


STEPPERS = Harness('any_shape', steppers, dict(shapes=SMALL[:3]), dict(shapes=SHAPES), reach=['done'], note='0 to 4 dimensions, lengths of one')


def frequency(ctx, B):
    """what the caller does to the results does not change those of later calls"""
    kind = ctx.choose('kind', KINDS)
    dims, shape = ctx.choose('shape', SHAPES)
    slots = [s for k, s in SLOTS if k == kind]
    interval, gap = ctx.timedelta('interval', MS, MAXDT), ctx.timedelta('gap', MS, MAXDT)
    runs = []

    def fn(state, timestep):
        runs.append({s: arr(ctx, '%s%d' % (s, len(runs)), shape) for s in slots})
        return {s: {'q': v} for s, v in runs[-1].items()} if kind != 'stepper' else \
            {s: {'q' if s == 'new_state' else 'd': v} for s, v in runs[-1].items()}
    names = {s: 'd' if kind == 'stepper' and s == 'diagnostics' else 'q' for s in slots}
    kw = {}
    for s in slots:
        kw.update(slot_props(s, {names[s]: {'dims': list(dims), 'units': 'm s^-1' if s == 'tendencies' else 'm'}}))
    w = sympl.UpdateFrequencyWrapper(make_component(kind, {'q': {'dims': list(dims), 'units': 'm'}}, fn, **kw), interval)
    t, last, held = ctx.date('t'), None, None
    for k in range(3):
        n = len(runs)
        r = call_component(kind, w, {'time': t, 'q': da(arr(ctx, 'in%d' % k, shape), dims, 'm')}, SEC)
        ctx.check(ctx.iff(len(runs) > n, True if last is None else t >= last + interval), 'call %d executes exactly when due' % (k + 1))
        if len(runs) > n:
            last, held = t, {s: np.array(v) for s, v in runs[-1].items()}
        for s in slots:
            labelled_close(ctx, r[s][names[s]], dims, held[s], '%s of call %d' % (s, k + 1))
            r[s][names[s]].values[...] = 7.
            r[s][names[s]].attrs['units'] = 's'
        t = t + gap
    ctx.reach('done')


FREQUENCY = Harness('any_shape', frequency, {}, reach=['done'], note='0 to 4 dimensions, lengths of one')


def scaling(ctx, B):
    kind = ctx.choose('kind', KINDS)
    dims, shape = ctx.choose('shape', SHAPES)
    slot = [s for k, s in SLOTS if k == kind][0]
    arg = {'tendencies': 'tendency', 'new_state': 'output', 'diagnostics': 'diagnostic'}[slot]
    v, out = arr(ctx, 'v', shape), arr(ctx, 'out', shape)
    got = []

    def fn(s, timestep):
        got.append(np.array(s['q']))
        return {slot: {'q': out}}
    comp = make_component(kind, {'q': {'dims': list(dims), 'units': 'm'}}, fn,
                          **slot_props(slot, {'q': {'dims': list(dims), 'units': 'm s^-1' if slot == 'tendencies' else 'm'}}))
    fi, fo = ctx.real('factor of the input', -4, 4), ctx.real('factor of the output', -4, 4)
    w = sympl.ScalingWrapper(comp, input_scale_factors={'q': fi}, **{arg + '_scale_factors': {'q': fo}})
    state = {'time': ctx.date('t'), 'q': da(np.array(v), dims, 'm')}
    snap, kept = snapshot(state), np.array(out)
    earlier = []
    for k in range(2):
        r = call_component(kind, w, state, SEC)[slot]['q']
        ctx.close(got[-1], v * fi, 'scaled input', tol=1e-6)
        labelled_close(ctx, r, dims, kept * fo, 'scaled output')
        ctx.check(same_units(r.attrs.get('units', '?'), 'm s^-1' if slot == 'tendencies' else 'm'), 'units')
        ctx.same(out, kept, 'array of the component')
        check_unmodified(ctx, snap, state, 'state', identity=True)
        earlier.append((r, np.array(r.values)))
    for r, w in earlier:
        ctx.same(r.values, w, 'earlier results')
    ctx.reach('done')


SCALING = Harness('any_shape', scaling, {}, reach=['done'], note='0 to 4 dimensions, lengths of one')


def rates(ctx, B):
    which = ctx.choose('object', ['Stepper', 'TimeDifferencingWrapper', 'AdamsBashforth', 'TendencyComponent'])
    dims, shape = ctx.choose('shape', SHAPES)
    su, cu, fac, _ = ctx.choose('units', UNITS[:2])
    q, v = arr(ctx, 'q', shape), arr(ctx, 'v', shape)
    dt = ctx.timedelta('dt', MS, MAXDT)
    s = dt.total_seconds()
    state = {'time': ctx.date('t'), 'q': da(np.array(q), dims, su)}
    p = {'q': {'dims': list(dims), 'units': 'm'}}
    tp = {'q': {'dims': list(dims), 'units': 'm s^-1'}}
    snap = snapshot(state)
    if which in ('AdamsBashforth', 'TendencyComponent'):
        kw = dict(name='n', tendencies_in_diagnostics=True)
        comp = tendency_component(p, tp, {}, lambda st: ({'q': np.array(v)}, {}), **(kw if which == 'TendencyComponent' else {}))
        if which == 'AdamsBashforth':
            d, _ = sympl.AdamsBashforth(comp, order=1, **kw)(state, dt)
        else:
            _, d = comp(state)
        got, want = d['q_tendency_from_n'], v * s
    else:
        kw = dict(name='n', tendencies_in_diagnostics=True) if which == 'Stepper' else {}
        comp = stepper_component(p, p, {}, lambda st, d: ({}, {'q': np.array(v)}), **kw)
        if which == 'Stepper':
            got = comp(state, dt)[0]['q_tendency_from_n']
        else:
            got = sympl.TimeDifferencingWrapper(comp)(state, dt)[0]['q']
        want = v - q * f_(ctx, fac)
    check_unmodified(ctx, snap, state, 'state', identity=True)
    g = unit_factor(got.attrs['units'], 'm s^-1')
    ctx.check(tuple(got.dims) == tuple(dims) and np.shape(got.values) == tuple(shape), 'dims')
    if np.shape(got.values) == tuple(shape):
        ctx.close(obj(got.values) * f_(ctx, g) * s, want, 'rate of change', tol=1e-2)
    ctx.reach('done')


RATES = Harness('any_shape', rates, {}, reach=['done'], note='0 to 4 dimensions, lengths of one')


def packing(ctx, B):
    kind = ctx.choose('kind', ['tendency', 'implicit', 'stepper'])
    dims, shape = ctx.choose('shape', SHAPES[:-1])
    n = ctx.choose('number of tracers', [1, 2])
    at = ctx.choose('position of the tracer axis', list(range(len(dims) + 1)))
    tdims = list(dims[:at]) + ['tracer'] + list(dims[at:])
    names = ['b', 'a'][:n]
    for k in names:
        sympl.register_tracer(k, 'm')
    vals, state = {}, {'time': ctx.date('t')}
    for i, k in enumerate(names):
        stored = other_order(dims) if i or n == 1 else dims
        vals[k] = arr(ctx, k, shape)
        state[k] = da(np.array(to_dims(vals[k], dims, stored)), stored, 'm')
    full = tuple(shape[:at]) + (n,) + tuple(shape[at:])
    out = arr(ctx, 'out', full)
    got = []

    def fn(s, dt):
        got.append(np.array(s['tracers']))
        return {'new_state' if kind == 'stepper' else 'tendencies': {'tracers': out}}
    comp = make_component(kind, {}, fn, class_attrs={'uses_tracers': True, 'tracer_dims': tuple(tdims)})
    snap = snapshot(state)
    r = call_component(kind, comp, state, SEC)['new_state' if kind == 'stepper' else 'tendencies']
    check_unmodified(ctx, snap, state, 'state', identity=True)
    ok = np.shape(got[0]) == full
    ctx.check(ok, 'shape %s' % (np.shape(got[0]),))
    for i, k in enumerate(names):
        if ok:
            ctx.close(np.take(got[0], i, axis=at), vals[k], 'packed %s' % k)
        ctx.check(tuple(r[k].dims) == tuple(dims), 'dims of %s' % k)
        labelled_close(ctx, r[k], dims, np.take(out, i, axis=at), 'unpacked %s' % k)
    ctx.reach('done')


PACKING = Harness('any_shape', packing, {}, reach=['done'], note='0 to 3 dimensions and the tracers, lengths of one')


def netcdf(ctx, B):
    """stored, then changed by the caller, then written"""
    import os
    from symx import ncproxy
    from . import c18
    path = os.path.join(ncproxy.scratch(), 'out.nc')
    how = ctx.choose('write', ['on store', 'at the end'])
    mon = sympl.NetCDFMonitor(path, time_units='minutes', write_on_store=how == 'on store')
    rows = []
    quantities = {'q%d' % i: (dims, shape) for i, (dims, shape) in enumerate(SHAPES)
                  if not {'y', 'x', 'z', 'w'} & set(dims) or True}
    for k in range(2):
        st = {'time': c18.sim_time(ctx, 'datetime', 'minutes', k * 7)}
        for n, (dims, shape) in quantities.items():
            names = tuple('%s_%d' % (d, l) for d, l in zip(dims, shape))     # one length for each name
            st[n] = da(arr(ctx, '%s_%d' % (n, k), shape), names, 'm')
        rows.append((st['time'], c18.content_of(st)))
        mon.store(st)
        for n in quantities:
            st[n].values[...] = -1.
            st[n].attrs['units'] = 's'
    mon.write()
    c18.check_rows(ctx, path, c18.expected_rows(rows), 'written')
    ctx.reach('done')


NETCDF = Harness('any_shape', netcdf, {}, reach=['done'], note='0 to 4 dimensions, lengths of one')


def restart(ctx, B):
    import os
    from symx import ncproxy
    from . import c19
    path = os.path.join(ncproxy.scratch(), 'restart.nc')
    mon = sympl.RestartMonitor(path)
    only = ctx.choose('shape', [None] + SHAPES)
    for k in range(2):
        st = {'time': c19.make_time(c19.TIMES['datetime'])}
        for i, (dims, shape) in enumerate(SHAPES if only is None else [only]):
            names = tuple('%s_%d' % (d, l) for d, l in zip(dims, shape))
            st['q%d' % i] = da(arr(ctx, 'q%d_%d' % (i, k), shape), names, 'm')
        snap = snapshot(st)
        mon.store(st)
        check_unmodified(ctx, snap, st, 'the state stored', identity=True)
    c19.compare(ctx, sympl.RestartMonitor(path).load(), snap, 'loaded')
    ctx.reach('done')


RESTART = Harness('any_shape', restart, {}, reach=['done'], note='0 to 4 dimensions, lengths of one')


def conversion(ctx, B):
    dims, shape = ctx.choose('shape', SHAPES)
    su, cu, fac, off = ctx.choose('units', UNITS + [('percent', '', F(1, 100), F(0)), ('m', 'meter', F(1), F(0))])
    v = arr(ctx, 'v', shape)
    a = da(np.array(v), dims, su, note='n')
    snap = snapshot({'a': a})
    b = a.to_units(cu)
    ctx.check(tuple(b.dims) == tuple(dims) and np.shape(b.values) == tuple(shape), 'dims')
    labelled_close(ctx, b, dims, v * f_(ctx, fac) + f_(ctx, off), '%s to %s' % (su, cu))
    ctx.check(same_units(b.attrs.get('units', '?'), cu) and b.attrs.get('note') == 'n', 'attributes')
    check_unmodified(ctx, snap, {'a': a}, 'original')
    ctx.reach('done')


CONVERSION = Harness('any_shape', conversion, {}, reach=['done'], note='0 to 4 dimensions, lengths of one')


def relaxation(ctx, B):
    """each of value, equilibrium and timescale with its own dimensions"""
    dims, shape = ctx.choose('shape', SHAPES)
    state, full = {'time': ctx.date('t')}, {}
    for n, u, lo, hi in (('q', 'm', -9, 9), ('equilibrium_q', 'm', -9, 9), ('q_relaxation_timescale', 's', F(1, 100), 9)):
        scalar = n != 'q' and dims and ctx.choice('%s is a scalar' % n, 2)
        v = arr(ctx, n, () if scalar else shape, lo, hi)
        stored = dims if n != 'equilibrium_q' else other_order(dims)
        state[n] = da(np.array(v if scalar else to_dims(v, dims, stored)), () if scalar else stored, u)
        full[n] = np.full(shape, v[()], dtype=object) if scalar else v
    comp = sympl.RelaxationTendencyComponent('q', 'm')
    snap = snapshot(state)
    for k in range(2):
        t, d = comp(state)
        check_unmodified(ctx, snap, state, 'state', identity=True)
        q = t['q']
        ctx.check(sorted(q.dims) == sorted(dims), 'dims')
        if sorted(q.dims) == sorted(dims) and np.size(q.values) == int(np.prod(shape)):
            ctx.close(to_dims(obj(q.values), q.dims, dims) * full['q_relaxation_timescale'], full['equilibrium_q'] - full['q'],
                      'relaxation', tol=1e-5)
        else:
            ctx.check(False, 'shape')
        t['q'].values[...] = 5.
    ctx.reach('done')


def constants(ctx, B):
    cls = ctx.choose('class', [sympl.ConstantTendencyComponent, sympl.ConstantDiagnosticComponent])
    dims, shape = ctx.choose('shape', SHAPES)
    v = arr(ctx, 'v', shape)
    given = {'a': da(np.array(v), dims, 'm')}
    comp = cls(given)
    snap = snapshot(given)
    for k in range(3):
        r = comp({'time': ctx.date('t')})
        r = r[0] if isinstance(r, tuple) else r
        ctx.check(tuple(r['a'].dims) == tuple(dims), 'dims')
        labelled_close(ctx, r['a'], dims, v, 'constant')
        r['a'].values[...] = 5.
        check_unmodified(ctx, snap, given, 'given')
    ctx.reach('done')


def simple(ctx, B):
    [relaxation, constants][ctx.choice('component', 2)](ctx, B)


SIMPLE = Harness('any_shape', simple, {}, reach=['done'], note='0 to 4 dimensions, lengths of one')


def allocation(ctx, B):
    dims, shape = ctx.choose('shape', SHAPES)
    lens = dict(zip(dims, shape))
    tr = bool(ctx.choice('tracers', 2))
    if tr:
        sympl.register_tracer('t', 'm')
        sympl.register_tracer('u', 'm')
    raw = {'q': arr(ctx, 'q', shape)}
    inp = {'q': {'dims': list(dims), 'units': 'm'}}
    back = other_order(dims)
    outp = {'q': {'units': 'm'}, 'r': {'dims': list(back), 'units': 'm'}, 's': {'dims': [], 'units': 'm'},
            'e': {'dims': list(dims[-1:]), 'units': 'm'}}
    kept = np.array(raw['q'])
    kw = {'tracer_dims': list(dims) + ['tracer']} if tr else {}
    got = sympl.initialize_numpy_arrays_with_properties(outp, raw, inp, **kw)
    want = {'q': tuple(shape), 'r': tuple(lens[d] for d in back), 's': (), 'e': tuple(shape[-1:])}
    if tr:
        want['tracers'] = tuple(shape) + (2,)
    ctx.check({n: np.shape(a) for n, a in got.items()} == want, 'shapes %s' % {n: np.shape(a) for n, a in got.items()})
    for n, a in got.items():
        ctx.check(all(bool(x == 0) for x in np.ravel(a)), '%s is zero' % n)
    for n, a in got.items():
        a[...] = 1.
        ctx.check(all(bool(x == 0) for k, b in got.items() if k != n for x in np.ravel(b)), 'memory of %s' % n)
        a[...] = 0.
    ctx.same(raw['q'], kept, 'input')
    ctx.reach('done')


ALLOCATION = Harness('any_shape', allocation, {}, reach=['done'], note='0 to 4 dimensions, lengths of one')


def legacy(ctx, B):
    dims, shape = ctx.choose('shape', SHAPES)
    out = ctx.choose('out_dims', ['wildcard', 'same', 'other order', 'first', 'last'])
    spec = {'wildcard': ['*'], 'same': list(dims), 'other order': list(other_order(dims)),
            'first': list(dims[:1]) + ['*'], 'last': ['*'] + list(dims[-1:])}[out]
    rest = [d for d in dims if d not in spec]
    v = arr(ctx, 'v', shape)
    lens = dict(zip(dims, shape))
    coords = {d: [10. * i + 5. for i in range(l)] for d, l in lens.items()}
    a = DataArray(np.array(v), dims=dims, coords=coords, attrs={'units': 'm'})
    snap = snapshot({'a': a})
    got = sympl.get_numpy_array(a, list(spec))
    from .c25 import expected
    want = expected(v, dims, spec, rest)
    ctx.check(np.shape(got) == want.shape, 'shape %s' % (np.shape(got),))
    if np.shape(got) == want.shape:
        ctx.close(got, want, 'array', tol=0)
    back = sympl.restore_dimensions(got, list(spec), a)
    ctx.check(tuple(back.dims) == tuple(dims) and np.shape(back.values) == tuple(shape), 'dims of the restored quantity')
    if np.shape(back.values) == tuple(shape):
        ctx.close(back.values, v, 'restored', tol=0)
    for d in dims:
        ctx.check(d in back.coords and list(np.asarray(back.coords[d].values)) == coords[d], 'coordinates of %s' % d)
    check_unmodified(ctx, snap, {'a': a}, 'quantity')
    ctx.reach('done')


LEGACY = Harness('any_shape', legacy, {}, reach=['done'], note='0 to 4 dimensions, lengths of one')


def composites(ctx, B):
    """diagnostic composites, and the copies that plot functions get"""
    dims, shape = ctx.choose('shape', SHAPES)
    v = arr(ctx, 'v', shape)
    state = {'time': ctx.date('t'), 'q': da(np.array(v), dims, 'm')}
    snap = snapshot(state)
    if ctx.choice('plot', 2):
        seen = []

        def plot(fig, st):
            seen.append(np.array(st['q'].values))
            st['q'].values[...] = 3.
            st['q'].attrs['units'] = 's'
            del st['time']
        import sys
        import types
        from .c26 import _pyplot
        old = {k: sys.modules.get(k) for k in ('matplotlib', 'matplotlib.pyplot')}
        pkg = types.ModuleType('matplotlib')
        pkg.pyplot = _pyplot([])
        sys.modules['matplotlib'], sys.modules['matplotlib.pyplot'] = pkg, pkg.pyplot
        try:
            mon = sympl.PlotFunctionMonitor(plot, interactive=bool(ctx.choice('interactive', 2)))
            mon.store(state)
            mon.store(state)
        finally:
            for k, m in old.items():
                if m is None:
                    sys.modules.pop(k, None)
                else:
                    sys.modules[k] = m
        ctx.check(len(seen) == 2, 'plots')
        for s in seen:
            ctx.same(s, v, 'plotted values')
    else:
        w = arr(ctx, 'w', shape)
        comps = [diagnostic_component({'q': {'dims': list(dims), 'units': 'm'}}, {n: {'dims': list(dims), 'units': 'K'}},
                                      lambda s, n=n, x=x: {n: x + s['q']}) for n, x in (('a', w), ('b', w * 2))]
        r = sympl.DiagnosticComponentComposite(*comps)(state)
        ctx.check(set(r) == {'a', 'b'}, 'names')
        labelled_close(ctx, r['a'], dims, w + v, 'a')
        labelled_close(ctx, r['b'], dims, w * 2 + v, 'b')
    check_unmodified(ctx, snap, state, 'state', identity=True)
    ctx.reach('done')


COMPOSITES = Harness('any_shape', composites, {}, reach=['done'], note='0 to 4 dimensions, lengths of one')
