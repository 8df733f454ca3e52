"""Histories: several calls of one object, where later ones differ from earlier ones.

The caller keeps one state dictionary and changes it between the calls, or gives a new one; what a
call does must follow from its arguments alone, whatever the calls before it were."""
from .common import *

HOW = ['new state', 'other array', 'in place']
ARRANGED = [('x', 'y'), ('y', 'x')]
UNITS = [('m', F(1)), ('km', F(1000)), ('cm', F(1, 100))]


def f_(ctx, x):
    return x if ctx.symbolic else float(x)


def changed(ctx, state, name, tag, hows=HOW):
    """the state of the next call, the value of `name` in metres and with dims (x, y)"""
    how = ctx.choose('how ' + tag, hows if name in state else hows[:1])
    u, fac = ctx.choose('units ' + tag, UNITS[:2])
    old = state.get(name)
    if how == 'in place' and old is not None:
        v = ctx.array(tag, old.shape)
        old.values[...] = v
        old.attrs['units'] = u
        dims = tuple(old.dims)
    else:
        dims = ctx.choose('dims ' + tag, ARRANGED)
        shape = ctx.choose('shape ' + tag, [(2, 1), (1, 2)])
        shape = shape if dims == ('x', 'y') else shape[::-1]
        v = ctx.array(tag, shape)
        if how == 'new state':
            state = dict(state)
        state[name] = da(np.array(v), dims, u)
    return state, (v if dims == ('x', 'y') else np.transpose(v)) * f_(ctx, fac)


def inputs(ctx, B):
    """C01: what array_call gets is the state of this call"""
    kind = ctx.choose('kind', B['kinds'])
    dims = ctx.choose('declared', [['x', 'y'], ['y', 'x'], ['*']])
    got = []

    def fn(state, timestep):
        got.append({k: np.array(v) for k, v in state.items() if k != 'time'})
        return {}
    comp = make_component(kind, {'q': {'dims': dims, 'units': 'm'}, 'r': {'dims': ['x'], 'units': 'm'}}, fn)
    state = {'time': ctx.date('t'), 'r': da(ctx.array('r', (1,)), 'x', 'm')}
    for k in range(B['calls']):
        state, q = changed(ctx, state, 'q', 'q%d' % k)
        r = ctx.array('r%d' % k, (q.shape[0],))
        state['r'] = da(np.array(r), 'x', 'm')
        snap = snapshot(state)
        del got[:]
        call_component(kind, comp, state, SEC)
        check_unmodified(ctx, snap, state, 'state', identity=True)
        ctx.check(len(got) == 1 and set(got[0]) == {'q', 'r'}, 'names')
        ctx.close(got[0]['r'], r, 'r of call %d' % k)
        g = got[0]['q']
        if dims == ['*']:
            ctx.check(g.shape == (2,), 'shape of the wildcard')
            # one of the lengths is 1: both orders are the same
            ctx.close(np.ravel(g), np.ravel(q), 'q of call %d' % k)
        else:
            w = q if dims == ['x', 'y'] else np.transpose(q)
            ctx.check(g.shape == w.shape, 'shape of q in call %d' % k)
            if g.shape == w.shape:
                ctx.close(g, w, 'q of call %d' % k)
    ctx.reach('done')


def outputs(ctx, B):
    """C02: labels, units and values of what a call returns"""
    kind, slot = ctx.choose('slot', B['slots'])
    dims = ctx.choose('declared', [['x', 'y'], ['y', 'x'], ['*']])
    own = ctx.flag('dims of the input')
    u = 'm s^-1' if slot == 'tendencies' else 'm'
    n = 'q' if own else 'out'
    p = {'units': u} if own else {'dims': dims, 'units': u}
    bad = {}

    def fn(state, timestep):
        a = np.array(state['q'])
        return {slot: {n: a.reshape(bad['shape']) if bad else a * 2}}
    comp = make_component(kind, {'q': {'dims': dims, 'units': 'm'}}, fn, **slot_props(slot, {n: p}))
    state = {'time': ctx.date('t')}
    hist = []
    for k in range(B['calls']):
        state, q = changed(ctx, state, 'q', 'q%d' % k)
        snap = snapshot(state)
        bad.clear()
        if ctx.flag('misshapen %d' % k):
            bad['shape'] = (1, 2, 1)
        r, e = ctx.attempt(lambda: call_component(kind, comp, state, SEC), Exception)
        check_unmodified(ctx, snap, state, 'state', identity=True)
        for s, o in hist:
            check_unmodified(ctx, s, o, 'results of an earlier call')
        if bad:
            ctx.check(e is not None, 'array with a third axis accepted in call %d' % k)
            continue
        ctx.check(e is None, 'call %d: %r' % (k, e))
        if e is not None:
            continue
        v = r[slot].get(n)
        ctx.check(v is not None and set(r[slot]) - {'time'} == {n}, 'names')
        if v is None:
            continue
        ctx.check(same_units(v.attrs.get('units', '?'), u), 'units')
        ctx.check(set(v.dims) == {'x', 'y'} and (dims == ['*'] or list(v.dims) == dims), 'dims %s' % (tuple(v.dims),))
        if set(v.dims) == {'x', 'y'}:
            w = q if tuple(v.dims) == ('x', 'y') else np.transpose(q)
            ctx.check(v.shape == w.shape, 'shape %s in call %d' % (v.shape, k))
            if v.shape == w.shape:
                ctx.close(v.values, w * 2, 'result of call %d' % k)
        hist.append((snapshot(r[slot]), r[slot]))
    ctx.reach('done')


FAULTS = ['none', 'none', 'absent', 'renamed', 'no units', 'units', 'dimension', 'length', 'other missing']


def states(ctx, B):
    """C03: a defective state is rejected and a valid one accepted, whatever came before"""
    kind = ctx.choose('kind', KINDS)
    ran = []

    def fn(state, timestep):
        ran.append(1)
        return {}
    comp = make_component(kind, {'q': {'dims': ['x', 'y'], 'units': 'm'}, 'r': {'dims': ['x', 'y'], 'units': 'm', 'alias': 'R'}}, fn)
    state = {}
    for k in range(B['calls']):
        fault = ctx.choose('fault %d' % k, FAULTS[1:] if k else FAULTS[:1] + FAULTS[5:7])
        how = ctx.choose('how %d' % k, HOW) if k else 'new state'
        if how == 'new state':
            state = {}
        state['time'] = ctx.date('t%d' % k)
        for n in ('q', 'r'):
            bad = {'other missing': 'absent' if n == 'r' else None}.get(fault, fault if n == 'q' else None)
            dims, shape, u = ('x', 'y'), (2, 1), 'm'
            state.pop('not ' + n, None)
            if bad in ('absent', 'renamed'):
                state.pop(n, None)
                if bad == 'absent':
                    continue
            if bad == 'dimension':
                dims, shape = ('x', 'y', 'z'), (2, 1, 2)
            elif bad == 'length':
                shape = (3, 1)
            elif bad == 'units':
                u = 'kg'
            v = ctx.array('%s%d' % (n, k), shape)
            if how == 'in place' and n in state and state[n].shape == shape and bad != 'renamed':
                state[n].values[...] = v
                state[n].attrs['units'] = u
            else:
                state[n if bad != 'renamed' else 'not ' + n] = da(np.array(v), dims, u)
            if bad == 'no units':
                del state[n].attrs['units']
        snap = snapshot(state)
        del ran[:]
        r, e = ctx.attempt(lambda: call_component(kind, comp, state, SEC), sympl.InvalidStateError)
        check_unmodified(ctx, snap, state, 'state', identity=True)
        if fault == 'none':
            ctx.check(e is None and len(ran) == 1, 'valid state of call %d: %r' % (k, e))
        else:
            ctx.check(e is not None and not ran, '%s in call %d: %s' % (fault, k, 'accepted' if e is None else 'ran'))
            ctx.reach('rejected')
    ctx.reach('done')


def returns(ctx, B):
    """C04: every call is checked for missing and undeclared quantities"""
    kind, slot = ctx.choose('slot', SLOTS)
    alias = ctx.flag('alias')
    tid = kind != 'diagnostic' and ctx.flag('tendencies_in_diagnostics')
    u = 'm s^-1' if slot == 'tendencies' else 'm'
    raw = {'a': 'A' if alias else 'a', 'b': 'b'}
    props = {n: {'dims': ['x'], 'units': u} for n in raw}
    if alias:
        props['a']['alias'] = 'A'
    now = {}
    comp = make_component(kind, {n: {'dims': ['x'], 'units': 'm'} for n in raw}, lambda s, t: {slot: {k: np.array(v) for k, v in now.items()}},
                          class_name='Thing', **dict(slot_props(slot, props), **({'tendencies_in_diagnostics': True} if tid else {})))
    state = {'time': ctx.date('t')}
    for n in raw:
        state[n] = da(ctx.array('state ' + n, (2,)), 'x', 'm')
    for k in range(B['calls']):
        dev = ctx.choose('deviation %d' % k, ['none', 'missing', 'extra', 'renamed', 'reversed'])
        v = {n: ctx.array('%s%d' % (n, k), (2,)) for n in raw}
        now.clear()
        for n in (reversed(list(raw)) if dev == 'reversed' else raw):
            if n == 'b' and dev in ('missing', 'renamed'):
                continue
            now[raw[n]] = v[n]
        if dev in ('extra', 'renamed'):
            now['c'] = v['a']
        r, e = ctx.attempt(lambda: call_component(kind, comp, state, SEC),
                           (sympl.ComponentMissingOutputError, sympl.ComponentExtraOutputError))
        ok = {'missing': (sympl.ComponentMissingOutputError,), 'extra': (sympl.ComponentExtraOutputError,),
              'renamed': (sympl.ComponentMissingOutputError, sympl.ComponentExtraOutputError)}.get(dev)
        if ok:
            ctx.check(isinstance(e, ok), '%s in call %d: %s' % (dev, k, type(e).__name__))
            ctx.reach('rejected')
            continue
        ctx.check(e is None, 'declared quantities rejected in call %d: %s' % (k, e))
        if e is None:
            got = {x for x in r[slot] if '_tendency_from_' not in x} - {'time'}
            ctx.check(got == set(raw), 'names %s' % sorted(got))
            for n in raw:
                if n in r[slot]:
                    ctx.same(r[slot][n].values, v[n], '%s of call %d' % (n, k))
    ctx.reach('done')


def sums(ctx, B):
    """C07: composites called several times"""
    implicit = ctx.flag('implicit')
    vals = []

    def member(i):
        dims = ['x', 'y'] if i % 2 else ['y', 'x']

        def fn(state, timestep=None):
            e = ctx.array('t%d_%d' % (len(vals), i), state['q'].shape)
            vals.append((i, e, np.array(state['q'])))
            return {'q': np.array(e)}, {'d%d' % i: np.array(state['q'])}
        return tendency_component({'q': {'dims': dims, 'units': 'm'}}, {'q': {'dims': dims, 'units': 'km s^-1' if i else 'm s^-1'}},
                                  {'d%d' % i: {'dims': dims, 'units': 'm'}}, fn, implicit=implicit and i == 1, class_name='M%d' % i)
    ms = [member(i) for i in range(2)]
    c = (sympl.ImplicitTendencyComponentComposite if implicit else sympl.TendencyComponentComposite)(*ms)
    state = {'time': ctx.date('t')}
    hist = []
    for k in range(B['calls']):
        state, q = changed(ctx, state, 'q', 'q%d' % k)
        snap = snapshot(state)
        del vals[:]
        t, d = c(state, SEC) if implicit else c(state)
        check_unmodified(ctx, snap, state, 'state', identity=True)
        for s, o in hist:
            check_unmodified(ctx, s, o, 'results of an earlier call')
        ctx.check(sorted(i for i, _, _ in vals) == [0, 1], 'each member once')
        want = 0
        for i, e, got in vals:
            qq = q if i % 2 else np.transpose(q)
            ctx.check(got.shape == qq.shape, 'shape given to member %d' % i)
            ctx.close(got, qq, 'state given to member %d in call %d' % (i, k))
            want = want + (e if i % 2 else np.transpose(e)) * f_(ctx, F(1000 if i else 1))
        ctx.check(set(t) == {'q'} and set(d) == {'d0', 'd1'}, 'names')
        v = t['q']
        ctx.check(set(v.dims) == {'x', 'y'}, 'dims')
        w = np.array(v.values if tuple(v.dims) == ('x', 'y') else np.transpose(v.values))
        ctx.close(w * f_(ctx, unit_factor(v.attrs['units'], 'm s^-1')), want, 'sum in call %d' % k, tol=1e-4)
        hist += [(snapshot(t), t), (snapshot(d), d)]
    ctx.reach('done')


def scaled(ctx, B):
    """C13: wrapped component called several times"""
    kind = ctx.choose('kind', KINDS)
    slot = {'diagnostic': 'diagnostics', 'stepper': 'new_state'}.get(kind, 'tendencies')
    fi, fo = ctx.real('input factor', -4, 4), ctx.real('output factor', -4, 4)
    got = []

    def fn(state, timestep):
        got.append(np.array(state['q']))
        return {slot: {'p': state['q'] * 2}}
    comp = make_component(kind, {'q': {'dims': ['x', 'y'], 'units': 'm'}}, fn,
                          **slot_props(slot, {'p': {'dims': ['x', 'y'], 'units': 'm s^-1' if slot == 'tendencies' else 'm'}}))
    arg = {'diagnostics': 'diagnostic', 'new_state': 'output', 'tendencies': 'tendency'}[slot]
    w = sympl.ScalingWrapper(comp, **{'input_scale_factors': {'q': fi}, arg + '_scale_factors': {'p': fo}})
    state = {'time': ctx.date('t')}
    hist = []
    for k in range(B['calls']):
        state, q = changed(ctx, state, 'q', 'q%d' % k)
        snap = snapshot(state)
        del got[:]
        r = call_component(kind, w, state, SEC)
        check_unmodified(ctx, snap, state, 'state', identity=True)
        for s, o in hist:
            check_unmodified(ctx, s, o, 'results of an earlier call')
        ctx.check(len(got) == 1 and got[0].shape == q.shape, 'executed once')
        ctx.close(got[0], q * fi, 'input of call %d' % k, tol=1e-5)
        v = r[slot]['p']
        ctx.check(tuple(v.dims) == ('x', 'y') and v.shape == q.shape, 'dims')
        ctx.close(v.values, q * fi * 2 * fo, 'result of call %d' % k, tol=1e-5)
        hist.append((snapshot(r[slot]), r[slot]))
    ctx.reach('done')


def frequency(ctx, B):
    """C12: the state dictionary is one object whose time and quantities the caller changes"""
    kind = ctx.choose('kind', KINDS)
    slot = {'diagnostic': 'diagnostics', 'stepper': 'new_state'}.get(kind, 'tendencies')
    interval = ctx.timedelta('interval', MS, 10 * DAY)
    runs = []

    def fn(state, timestep):
        runs.append(1)
        return {slot: {'p': state['q'] * 2}}
    comp = make_component(kind, {'q': {'dims': ['x', 'y'], 'units': 'm'}}, fn,
                          **slot_props(slot, {'p': {'dims': ['x', 'y'], 'units': 'm s^-1' if slot == 'tendencies' else 'm'}}))
    w = sympl.UpdateFrequencyWrapper(comp, interval)
    t = ctx.date('t')
    state, last = {'time': t}, None
    for k in range(B['calls']):
        state, q = changed(ctx, state, 'q', 'q%d' % k)
        state['time'] = t
        snap = snapshot(state)
        del runs[:]
        r = call_component(kind, w, state, SEC)
        check_unmodified(ctx, snap, state, 'state', identity=True)
        ctx.check(ctx.iff(len(runs) > 0, True if last is None else t >= last + interval), 'call %d executes exactly when due' % k)
        if runs:
            held, last = q * 2, t
            ctx.reach('again' if k else 'first')
        else:
            ctx.reach('held')
        v = r[slot]['p']
        ctx.check(v.shape == held.shape, 'shape')
        if v.shape == held.shape:
            ctx.close(v.values, held, 'result of call %d' % k)
        t = t + ctx.timedelta('step%d' % k, MS, 10 * DAY)


def tendencies_reported(ctx, B):
    """C05: reported tendencies in several calls with different timesteps and layouts"""
    seen = []

    def fn(state, timestep):
        e = ctx.array('new%d' % len(seen), state['q'].shape)
        seen.append(e)
        return {'new_state': {'q': np.array(e)}}
    comp = make_component('stepper', {'q': {'dims': ['x', 'y'], 'units': 'm'}}, fn, outputs={'q': {'dims': ['x', 'y'], 'units': 'm'}},
                          tendencies_in_diagnostics=True, class_name='Thing')
    state = {'time': ctx.date('t')}
    for k in range(B['calls']):
        state, q = changed(ctx, state, 'q', 'q%d' % k)
        dt = ctx.choose('dt%d' % k, [SEC, 60 * SEC, SEC / 4])
        snap = snapshot(state)
        d, new = comp(state, dt)
        check_unmodified(ctx, snap, state, 'state', identity=True)
        e = seen[-1]
        n = [x for x in d if '_tendency_from_' in x]
        ctx.check(n == ['q_tendency_from_Thing'], 'names %s' % sorted(d))
        if n:
            v = d[n[0]]
            ctx.check(same_units(v.attrs.get('units', '?'), 'm s^-1'), 'units')
            w = v.values if tuple(v.dims) == ('x', 'y') else np.transpose(v.values)
            ctx.close(w * f_(ctx, F(dt.total_seconds())), e - q, 'tendency of call %d' % k, tol=1e-4)
        ctx.same(new['q'].values, e, 'new state')
    ctx.reach('done')


def extraction(ctx, B):
    """C31: one state and one property dictionary, both changed between the calls"""
    state, props = {'time': ctx.date('t')}, {'q': {'dims': ['x', 'y'], 'units': 'm'}}
    for k in range(B['calls']):
        state, q = changed(ctx, state, 'q', 'q%d' % k, HOW[B['how']:])
        dims = ctx.choose('asked %d' % k, [['x', 'y'], ['y', 'x'], ['x', '*']])
        u, fac = ctx.choose('units asked %d' % k, [('m', F(1)), ('cm', F(100))] if B['first'] == 2 else [[('m', F(1)), ('cm', F(100))][k % 2]])
        if ctx.choose('properties %d' % k, ['changed', 'new'][:2 if k else 1]) == 'new':
            props = {'q': {'dims': dims, 'units': u}}
        else:
            props['q']['dims'][:] = dims
            props['q']['units'] = u
        al = bool(ctx.choice('alias %d' % k, 2 if k else B['first']))
        if al:
            props['q']['alias'] = 'A'
        else:
            props['q'].pop('alias', None)
        snap, before = snapshot(state), dict(props['q'], dims=list(props['q']['dims']))
        raw = sympl.get_numpy_arrays_with_properties(state, props)
        ctx.check(set(raw) == {'A' if al else 'q'}, 'names %s' % sorted(raw))
        w = (q if dims[0] == 'x' else np.transpose(q)) * f_(ctx, fac)
        for g in raw.values():
            ctx.check(np.shape(g) == w.shape, 'shape in call %d' % k)
            if np.shape(g) == w.shape:
                ctx.close(g, w, 'array of call %d' % k, tol=1e-5)
        back = sympl.restore_data_arrays_with_properties({n: np.array(g) for n, g in raw.items()}, props, state, props)
        check_unmodified(ctx, snap, state, 'state', identity=True)
        ctx.check(props['q'] == before and set(props) == {'q'}, 'properties')
        v = back['q']
        ctx.check(set(back) == {'q'} and same_units(v.attrs['units'], u), 'restored')
        ctx.check(set(v.dims) == {'x', 'y'}, 'dims')
        r = v.values if tuple(v.dims) == ('x', 'y') else np.transpose(v.values)
        ctx.check(np.shape(r) == q.shape, 'restored shape')
        if np.shape(r) == q.shape:
            ctx.close(r, q * f_(ctx, fac), 'restored in call %d' % k, tol=1e-5)
    ctx.reach('done')


def legacy(ctx, B):
    """C25: one quantity and one list of dims, both changed between the calls"""
    state, out = {}, ['x', 'y']
    for k in range(B['calls']):
        state, q = changed(ctx, state, 'q', 'q%d' % k)
        a = state['q']
        u = {x: f for x, f in UNITS}[a.attrs['units']]
        out[:] = ctx.choose('out dims %d' % k, [['x', 'y'], ['y', 'x'], ['y', 'x', 'z'], ['x', '*'], ['*']])
        want = (np.transpose(q) if out[0] == 'y' else q) * f_(ctx, 1 / u)
        if len(out) == 3:
            want = want.reshape(want.shape + (1,))
        elif len(out) == 1:
            want = want.ravel()
        snap, given = snapshot(state), list(out)
        got, matches = sympl.get_numpy_array(a, out, return_wildcard_matches=True)
        check_unmodified(ctx, snap, state, 'quantity', identity=True)
        ctx.check(out == given, 'list of dims')
        ctx.check(np.shape(got) == want.shape, 'shape in call %d' % k)
        if np.shape(got) == want.shape:
            ctx.close(got, want, 'array of call %d' % k, tol=1e-6)
        rest = [d for d in a.dims if d not in out]
        ctx.check(matches == ({'*': rest} if '*' in out else {}), 'wildcard matches %s' % (matches,))
        if '*' in matches:
            matches['*'].append('the result is the caller\'s')
        back = sympl.restore_dimensions(np.array(got), out, a, {'units': 'K'})
        ctx.check(tuple(back.dims) == tuple(a.dims) and dict(back.attrs) == {'units': 'K'}, 'labels')
        ctx.same(back.values, a.values, 'restored in call %d' % k)
    ctx.reach('done')


def allocated(ctx, B):
    """C23: allocated arrays follow the inputs of this call"""
    raw, inp, out = {}, {'q': {'dims': ['x', 'y'], 'units': 'm'}}, {}
    kept = []
    for k in range(B['calls']):
        shape = ctx.choose('shape %d' % k, [(2, 1), (1, 2), (3, 3)])
        dims = ctx.choose('dims %d' % k, [['x', 'y'], ['y', 'x']])
        od = ctx.choose('output dims %d' % k, [['x'], ['y', 'x'], ['x', 'y']])
        if ctx.choose('how %d' % k, ['changed', 'new']) == 'new':
            raw, inp, out = {}, {'q': {'dims': ['x', 'y'], 'units': 'm'}}, {}
        raw['q'] = ctx.array('q%d' % k, shape)
        inp['q']['dims'] = dims
        out['o'] = {'dims': od, 'units': 'm'}
        if ctx.flag('more %d' % k):
            out['p'] = {'dims': ['y'], 'units': 'm'}
        else:
            out.pop('p', None)
        r = sympl.initialize_numpy_arrays_with_properties(out, raw, inp)
        n = dict(zip(dims, shape))
        ctx.check(set(r) == set(out), 'names')
        for name in r:
            want = tuple(n[d] for d in out[name]['dims'])
            ctx.check(r[name].shape == want, 'shape %s of %s in call %d, expected %s' % (r[name].shape, name, k, want))
            ctx.check(bool(np.all(r[name] == 0)), 'zeros in call %d' % k)
            ctx.check(not any(np.shares_memory(r[name], o) for o in kept), 'arrays are not handed out twice')
            r[name][...] = 5
            kept.append(r[name])
    ctx.reach('done')


def registered(ctx, B):
    """C15: what is packed follows the tracers registered by then, and the state of this call"""
    kind = ctx.choose('kind', B['kinds'])
    pre = ctx.flag('prepended')
    slot = 'new_state' if kind == 'stepper' else 'tendencies'
    got, out = [], []

    def fn(state, timestep):
        got.append(np.array(state['tracers']))
        out.append(ctx.array('out%d' % len(out), state['tracers'].shape))
        return {slot: {'tracers': np.array(out[-1])}}
    attrs = {'uses_tracers': True, 'tracer_dims': ('tracer', 'x', 'y')}
    if pre:
        attrs['prepend_tracers'] = [('c', 'm')]
    comp = make_component(kind, {}, fn, class_attrs=attrs)
    names = []
    state = {'time': ctx.date('t')}
    for n in 'abcd':
        state[n] = da(ctx.array(n, (2, 1)), ['x', 'y'], 'm')
    for k in range(B['calls']):
        for n in ctx.choose('registered %d' % k, [[], ['b'], ['a', 'c'], ['d', 'b']]):
            sympl.register_tracer(n, 'm')
            if n not in names:
                names.append(n)
        now = (['c'] if pre else []) + [n for n in names if not pre or n != 'c']
        how = ctx.choose('how %d' % k, HOW)
        if how == 'new state':
            state = dict(state)
        vals = {}
        shape = ctx.choose('shape %d' % k, [(2, 1), (1, 2)]) if how != 'in place' else state['a'].shape
        for n in 'abcd':
            vals[n] = ctx.array('%s%d' % (n, k), shape)
            if how == 'in place':
                state[n].values[...] = vals[n]
            else:
                state[n] = da(np.array(vals[n]), ['x', 'y'], 'm')
        snap = snapshot(state)
        del got[:]
        r = call_component(kind, comp, state, SEC)[slot]
        check_unmodified(ctx, snap, state, 'state', identity=True)
        ctx.check(set(r) - {'time'} == set(now), 'names %s, expected %s' % (sorted(r), now))
        if now:
            ctx.check(got[0].shape == (len(now),) + tuple(shape), 'shape of the tracer array')
        for i, n in enumerate(now):
            if got[0].shape == (len(now),) + tuple(shape):
                ctx.same(got[0][i], vals[n], 'row %d in call %d' % (i, k))
                ctx.same(r[n].values, out[-1][i], '%s of call %d' % (n, k))
    ctx.reach('done')


def H(name, fn, quick, thorough=None, reach=('done',)):
    return Harness(name, fn, quick, thorough, reach=list(reach), note='several calls of one object, state changed in between')


INPUTS = H('calls', inputs, dict(kinds=['diagnostic', 'stepper'], calls=2), dict(kinds=KINDS, calls=3))
OUTPUTS = H('calls', outputs, dict(slots=[SLOTS[0], SLOTS[5]], calls=2), dict(slots=SLOTS, calls=2))
STATES = H('calls', states, dict(calls=2), dict(calls=3), ['done', 'rejected'])
RETURNS = H('calls', returns, dict(calls=3), dict(calls=4), ['done', 'rejected'])
SUMS = H('calls', sums, dict(calls=2), dict(calls=3))
SCALED = H('calls', scaled, dict(calls=2), dict(calls=3))
FREQUENCY = H('same_state', frequency, dict(calls=2), dict(calls=3), ['first', 'again', 'held'])
REPORTED = H('calls', tendencies_reported, dict(calls=2), dict(calls=3))
EXTRACTION = H('calls', extraction, dict(calls=2, first=1, how=1), dict(calls=2, first=2, how=0))
LEGACY = H('calls', legacy, dict(calls=2), dict(calls=3))
ALLOCATED = H('calls', allocated, dict(calls=2), dict(calls=3))
REGISTERED = H('calls', registered, dict(kinds=['tendency', 'stepper'], calls=2), dict(kinds=['tendency', 'implicit', 'stepper'], calls=3))
