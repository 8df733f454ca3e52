"""C31 get_numpy_arrays_with_properties and restore_data_arrays_with_properties."""
from .common import *
from . import shapes
from . import histories
from . import large
from . import numtypes
from .c01 import UNITS, S1, choose_state_dims, perms
from .c02 import expected_dims_ok

L = {'x': 2, 'y': 3, 'z': 2, 'w': 3, 'u': 0, 'v': 0}


def round_trip(ctx, B):
    nq = B['nq']
    names = ['q', 'qq', 'p'][:nq]
    props, state, raws, known, wild, explicit = {}, {'time': ctx.date('time')}, {}, {}, set(), set()
    for i, n in enumerate(names):
        spec = ctx.choose('spec%d' % i, B['specs'])
        sdims = choose_state_dims(ctx, 'q%d' % i, spec, B)
        u = UNITS[ctx.choose('units%d' % i, B['units'])]
        arr = ctx.array(n, tuple(L[d] for d in sdims)) if sdims else np.asarray(ctx.real(n))
        props[n] = {'dims': spec, 'units': u[1]}
        if ctx.choice('alias%d' % i, B['alias']):
            props[n]['alias'] = 'a%d' % i
        state[n] = da(arr, sdims, u[0])
        raws[n] = (arr, sdims, spec, u)
        explicit |= set(spec) - {'*'}
        wild |= set(sdims) - set(spec)
        known.update({d: L[d] for d in sdims})
    ctx.assume(not (explicit & wild))
    state['other'] = da(ctx.array('other', (2,)), ['x'], 'm')
    snap = snapshot(state)
    before = {k: dict(v) for k, v in props.items()}
    raw = sympl.get_numpy_arrays_with_properties(state, props)
    keys = {n: props[n].get('alias', n) for n in names}
    ctx.check(set(raw) == set(keys.values()), 'raw names %s' % sorted(raw))
    if set(raw) != set(keys.values()):
        return
    objs = dict(raw)
    copies = {k: np.array(v, dtype=object) for k, v in raw.items()}
    scale = ctx.choice('processed', 2)
    if scale:                # with some processing by the caller in between
        for k in raw:
            raw[k] = raw[k] * 3 - 1
        objs = dict(raw)
        copies = {k: np.array(v, dtype=object) for k, v in raw.items()}
    out = sympl.restore_data_arrays_with_properties(raw, props, state, props)
    check_unmodified(ctx, snap, state, 'the state', identity=True)
    ctx.check(props == before, 'the property dictionary')
    ctx.check(set(raw) == set(objs) and all(raw[k] is objs[k] for k in objs), 'the dictionary of arrays')
    for k in objs:
        ctx.same(raw[k], copies[k], 'array %s' % k)
    ctx.check(set(out) == set(names), 'restored names %s' % sorted(out))
    for n in set(out) & set(names):
        arr, sdims, spec, u = raws[n]
        v = out[n]
        ctx.check(isinstance(v, DataArray) and same_units(v.attrs.get('units', '?'), u[1]), 'units of %s' % n)
        ok = expected_dims_ok(v.dims, spec, wild if '*' in spec else ())
        ctx.check(ok, 'dims %s of %s for %s' % (tuple(v.dims), n, spec))
        shape = tuple(known.get(d, 1) for d in v.dims)
        ctx.check(np.shape(v.values) == shape, 'shape of %s' % n)
        if not ok or np.shape(v.values) != shape:
            continue
        exp = np.empty(shape, dtype=object)
        for idx in np.ndindex(*shape):
            pos = dict(zip(v.dims, idx))
            x = arr[tuple(pos[d] for d in sdims)] if sdims else arr[()]
            x = x * u[2] + u[3]
            exp[idx] = x * 3 - 1 if scale else x
        ctx.close(v.values, exp, 'values of %s at their positions' % n, tol=1e-6)
    ctx.reach('done')
    if wild:
        ctx.reach('wild')


def selection(ctx, B):
    """ignore_names and ignore_missing"""
    names = ['q', 'p', 'r'][:B['n']]
    state = {'time': ctx.date('time'), 'q': da(ctx.array('q', (2,)), ['x'], 'm')}
    inputs = {'q': {'dims': ['x'], 'units': 'm'}}
    outs = {n: {'dims': ['x'], 'units': 'km'} for n in names}
    if ctx.flag('dims inherited'):
        del outs['q']['dims']
    al = ctx.choose('alias', [None, 'output', 'input'])
    if al == 'output':
        outs['q']['alias'] = 'qa'
    elif al == 'input':
        inputs['q']['alias'] = 'qa'
    key = lambda n: 'qa' if n == 'q' and al else n
    raw, have = {}, []
    for n in names:
        if ctx.flag('has ' + n):
            raw[key(n)] = ctx.array('raw ' + n, (2,))
            have.append(n)
    if ctx.flag('undeclared array'):
        raw['zzz'] = ctx.array('zzz', (3,))
    # (with an alias it is not defined whether 'missing' is about the name or the alias)
    missing_ok = ctx.flag('ignore_missing')
    if al:
        ctx.assume(not missing_ok)
    kw = {}
    ignored = []
    how = ctx.choose('ignore_names', ['not given', 'none', 'list', 'set', 'tuple'])
    if how == 'none':
        kw['ignore_names'] = None
    elif how != 'not given':
        ignored = [n for n in names + ['other'] if ctx.flag('ignored ' + n)]
        kw['ignore_names'] = {'list': list, 'set': list, 'tuple': tuple}[how](ignored)
    if missing_ok or ctx.flag('given'):
        kw['ignore_missing'] = missing_ok
    want = []
    bad = False
    for n in names:
        if n in ignored:
            continue
        if n in have:
            want.append(n)
        elif not missing_ok:
            bad = True
    snap = snapshot(state)
    keys = set(raw)
    out, e = ctx.attempt(lambda: sympl.restore_data_arrays_with_properties(raw, outs, state, inputs, **kw), Exception)
    check_unmodified(ctx, snap, state, 'the state', identity=True)
    ctx.check(set(raw) == keys, 'the dictionary of arrays')
    if bad:
        ctx.check(e is not None, 'a missing array is reported')
        ctx.reach('missing')
        return
    ctx.check(e is None, 'accepted: %r' % (e,))
    if e is not None:
        return
    ctx.check(set(out) == set(want), 'restored %s, expected %s' % (sorted(out), sorted(want)))
    for n in set(out) & set(want):
        ctx.same(out[n].values, raw[key(n)], 'values of %s' % n)
        ctx.check(tuple(out[n].dims) == ('x',) and out[n].attrs['units'] == 'km', 'labels of %s' % n)
    ctx.reach('done')


HARNESSES = [
    Harness('one', round_trip,
            dict(nq=1, specs=S1, units=[0, 1, 2], extra=['z', 'w'], max_extra=2, orders='all', alias=2),
            dict(nq=1, specs=S1, units=[0, 1, 2, 3, 4, 5, 6], extra=['z', 'w'], max_extra=2, orders='all', alias=2),
            reach=['done', 'wild']),
    Harness('two', round_trip,
            dict(nq=2, specs=[['x', 'y'], ['y', '*'], ['*', 'x'], ['*']], units=[0], extra=['z', 'w'], max_extra=2,
                 orders='some', alias=1),
            dict(nq=2, specs=S1, units=[0, 2], extra=['z', 'w'], max_extra=2, orders='some', alias=1),
            reach=['done', 'wild']),
    Harness('selection', selection, dict(n=2), dict(n=3), reach=['done', 'missing']),
    Harness('empty', round_trip,
            dict(nq=2, specs=[['u', 'y'], ['y', '*'], ['*', 'u'], ['*']], units=[0, 1], extra=['z', 'v'], max_extra=1,
                 orders='some', alias=1), reach=['done', 'wild'], note='dimensions of length zero'),
    numtypes.PAIR,
    large.ROUND_TRIP,
]
HARNESSES.append(histories.EXTRACTION)
ASSUMPTIONS = ['a dimension matched by a wildcard in one quantity is not named explicitly by another',
               'ignore_missing is not combined with aliases']
HARNESSES.append(shapes.PAIR)
