"""C01 components receive each declared input by name/alias, in declared units and axis order."""
import itertools
from .common import *
from . import shapes
from . import histories
from . import large
from . import numtypes

# (units in the state, declared units, scale, offset)
UNITS = [('m', 'm', F(1), F(0)), ('km', 'm', F(1000), F(0)), ('degC', 'degK', F(1), F(27315, 100)),
         ('percent', 'dimensionless', F(1, 100), F(0)), ('Pa', 'hPa', F(1, 100), F(0)),
         ('degF', 'degK', F(5, 9), F(45967, 100) * F(5, 9)),
         ('g kg^-1', 'kg/kg', F(1, 1000), F(0))]


def perms(dims):
    return [list(p) for p in itertools.permutations(dims)]


def choose_state_dims(ctx, label, spec, B):
    """dims of the quantity in the state that the spec admits"""
    have = []
    for d in spec:
        if d != '*' and ctx.flag('%s has %s' % (label, d)):
            have.append(d)
    if '*' in spec:
        k = ctx.choice('%s extra' % label, B['max_extra'] + 1)
        have += B['extra'][:k]
    opts = perms(have)
    if B['orders'] == 'first':
        opts = opts[:1]
    if B['orders'] == 'some':
        opts = [opts[0]] + ([opts[-1]] if len(opts) > 1 else []) + \
            ([opts[len(opts) // 2]] if len(opts) > 3 else [])
    return ctx.choose('%s order' % label, opts)


def expected_input(ctx, spec, wild, arr, sdims, lengths, scale, offset):
    """oracle: the array a component must receive (wild: order of wildcard dims)"""
    full = []
    for d in spec:
        full.extend(wild if d == '*' else [d])
    shape = [lengths.get(d, 1) for d in full]
    out = np.empty(shape, dtype=object)
    for idx in np.ndindex(*shape):
        pos = dict(zip(full, idx))
        out[idx] = arr[tuple(pos[d] for d in sdims)] * scale + offset
    final = []
    for d in spec:
        final.append(int(np.prod([lengths[w] for w in wild])) if d == '*' else lengths.get(d, 1))
    return out.reshape(final)


def build(kind, ctx, inputs, seen):
    def rec(state, timestep=None):
        seen.append((state, timestep))
    if kind == 'tendency':
        return tendency_component(inputs, {}, {}, lambda s: (rec(s), ({}, {}))[1]), False
    if kind == 'implicit':
        return tendency_component(inputs, {}, {}, lambda s, t: (rec(s, t), ({}, {}))[1],
                                  implicit=True), True
    if kind == 'diagnostic':
        return diagnostic_component(inputs, {}, lambda s: (rec(s), {})[1]), False
    return stepper_component(inputs, {}, {}, lambda s, t: (rec(s, t), ({}, {}))[1]), True


def delivered(ctx, B):
    nq = B['nq']
    kind = ctx.choose('kind', B['kinds'])
    lengths_all = ctx.choose('lengths', B['lengths'])
    ui = ctx.choice('units', len(B['units']))
    names = ['qa', 'q', 'qab'][:nq]        # one name a prefix of another
    inputs, state, raw, used, lengths = {}, {}, {}, set(), {}
    wild_used, explicit_used = set(), set()
    for i, name in enumerate(names):
        spec = ctx.choose('spec%d' % i, B['specs'])
        sdims = choose_state_dims(ctx, 'q%d' % i, spec, B)
        u = UNITS[B['units'][(ui + i) % len(B['units'])]]
        shape = tuple(lengths_all[d] for d in sdims)
        arr = ctx.array(name, shape) if shape else np.asarray(ctx.real(name), dtype=None)
        inputs[name] = {'dims': list(spec) if B.get('listdims', True) else tuple(spec),
                        'units': u[1]}
        if ctx.choice('alias%d' % i, B['n_alias']):
            inputs[name]['alias'] = 'alias_%d' % i
        state[name] = da(arr, sdims, u[0])
        raw[name] = (arr, sdims, spec, u)
        explicit_used |= set(spec) - {'*'}
        wild_used |= set(sdims) - set(spec)
        for d in sdims:
            lengths[d] = lengths_all[d]
    # documented restriction: a dimension is not both wildcard-matched and explicitly named
    ctx.assume(not (explicit_used & wild_used))
    if B.get('other'):
        state['unrelated'] = da(ctx.array('unrelated', (2,)), ['x'], 'm')
    t = ctx.date('time')
    state['time'] = t
    snap = snapshot(state)
    seen = []
    comp, wants_dt = build(kind, ctx, inputs, seen)
    dtv = ctx.timedelta('dt', MS, MAXDT)
    comp(state, dtv) if wants_dt else comp(state)
    ctx.check(len(seen) == 1, 'array_call called exactly once')
    got, gdt = seen[0]
    if wants_dt:
        ctx.check(gdt == dtv, 'timestep passed through')
    ctx.check(got.get('time') is t or got.get('time') == t, 'time passed through')
    want_keys = {inputs[n].get('alias', n) for n in names} | {'time'}
    ctx.check(set(got) == want_keys, 'received exactly the declared quantities')
    if set(got) != want_keys:
        return
    # one order of the wildcard dimensions must explain all quantities
    good = False
    for wild in perms(sorted(wild_used)):
        c = True
        for n in names:
            arr, sdims, spec, u = raw[n]
            exp = expected_input(ctx, spec, wild, np.asarray(arr, dtype=object), sdims, lengths,
                                 u[2], u[3])
            c1 = ctx.near(got[inputs[n].get('alias', n)], exp,
                          tol=None if u[0] == u[1] else 1e-7)
            if c1 is False:
                c = False
                break
            c = c1 if c is True else c & c1
        if c is not False:
            good = c if good is False else good | c
            if good is True:
                break
    ctx.check(good, 'inputs %s from state dims %s: values, axes or units wrong (received %s)' % (
        [(n, inputs[n]['dims']) for n in names], [(n, raw[n][1]) for n in names],
        [(k, np.shape(v)) for k, v in got.items() if k != 'time']))
    check_unmodified(ctx, snap, state, 'input state')
    if wild_used:
        ctx.reach('wildcard')
    if any(d not in raw[n][1] for n in names for d in raw[n][2] if d != '*'):
        ctx.reach('broadcast')


S1 = [[], ['x'], ['x', 'y'], ['y', 'x'], ['*'], ['*', 'x'], ['x', '*'], ['x', '*', 'y'],
      ['y', 'x', '*']]
KINDS = ['tendency', 'implicit', 'diagnostic', 'stepper']
L23 = {'x': 2, 'y': 3, 'z': 2, 'w': 3}
L22 = {'x': 2, 'y': 2, 'z': 2, 'w': 2}
L0 = {'x': 2, 'y': 0, 'z': 0, 'w': 1}
LX0 = {'x': 0, 'y': 3, 'z': 2, 'w': 2}
L12 = {'x': 1, 'y': 2, 'z': 3, 'w': 1}
HARNESSES = [
    Harness('one_input', delivered,
            dict(nq=1, specs=S1, units=[0, 2], lengths=[L23], kinds=KINDS, extra=['z', 'w'],
                 max_extra=2, orders='all', n_alias=1, other=True),
            dict(nq=1, specs=S1, units=[0, 1, 2, 3, 4, 5, 6], lengths=[L23, L12], kinds=KINDS,
                 extra=['z', 'w'], max_extra=2, orders='all', n_alias=2, other=True),
            reach=['wildcard', 'broadcast']),
    Harness('two_inputs', delivered,
            dict(nq=2, specs=[['x', 'y'], ['y', 'x'], ['*'], ['*', 'x'], ['y', '*']], units=[0],
                 lengths=[L23], kinds=['tendency'], extra=['z', 'w'], max_extra=2, orders='some',
                 n_alias=1),
            dict(nq=2, specs=S1, units=[0], lengths=[L23, L22], kinds=['stepper'],
                 extra=['z', 'w'], max_extra=2, orders='some', n_alias=1),
            reach=['wildcard', 'broadcast']),
    Harness('unit_conversions', delivered,
            dict(nq=2, specs=[['x'], ['*']], units=[0, 1, 2, 3, 4, 5, 6], lengths=[L23],
                 kinds=['diagnostic', 'stepper'], extra=['z'], max_extra=1, orders='some', n_alias=2),
            dict(nq=2, specs=[['x'], ['*'], []], units=[0, 1, 2, 3, 4, 5, 6], lengths=[L23, L12],
                 kinds=KINDS, extra=['z'], max_extra=1, orders='some', n_alias=2)),
    Harness('three_inputs', delivered,
            dict(nq=3, specs=[['*'], ['x', '*']], units=[0], lengths=[L23],
                 kinds=['diagnostic'], extra=['z', 'w'], max_extra=1, orders='some', n_alias=1),
            dict(nq=3, specs=[['*'], ['x', '*'], ['y', 'x']], units=[0, 1], lengths=[L23],
                 kinds=['diagnostic', 'implicit'], extra=['z', 'w'], max_extra=2, orders='some', n_alias=1)),
    Harness('empty', delivered,
            dict(nq=2, specs=[['x', 'y'], ['*'], ['*', 'x'], ['y']], units=[0], lengths=[L0, LX0], kinds=['diagnostic'],
                 extra=['z'], max_extra=1, orders='some', n_alias=1),
            dict(nq=2, specs=S1, units=[0, 1], lengths=[L0, LX0], kinds=['diagnostic', 'stepper'],
                 extra=['z', 'w'], max_extra=2, orders='some', n_alias=1),
            reach=['wildcard', 'broadcast'], note='dimensions of length zero'),
    numtypes.INPUTS,
    large.INPUTS,
]
HARNESSES.append(histories.INPUTS)
ASSUMPTIONS = ['a dimension matched by a wildcard in one input is not named explicitly by another '
               'input of the same component', 'values in [-8,8], exact real arithmetic, '
               'converted values compared within 1e-7']
HARNESSES.append(shapes.INPUTS)
