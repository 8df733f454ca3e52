"""C02 array outputs come back labelled with the declared dims, units and the right values."""
import itertools
from .common import *
from . import shapes
from . import histories
from . import large
from . import numtypes
from .c01 import perms, choose_state_dims


def expected_dims_ok(got, spec, wild):
    """got is spec with '*' replaced by the wildcard dims in some order"""
    got, wild = list(got), set(wild)
    if '*' not in spec:
        return got == list(spec)
    i = list(spec).index('*')
    n = len(wild)
    return got[:i] == list(spec)[:i] and set(got[i:i + n]) == wild and \
        len(got) == len(spec) - 1 + n and got[i + n:] == list(spec)[i + 1:]


def setup(ctx, B):
    kind, slot = ctx.choose('slot', B['slots'])
    lengths = B['lengths']
    spec = ctx.choose('spec', B['specs'])
    sdims = choose_state_dims(ctx, 'q', spec, B)
    q = ctx.array('q', tuple(lengths[d] for d in sdims)) if sdims else np.asarray(ctx.real('q'))
    inputs = {'q': {'dims': list(spec), 'units': 'm'}}
    state = {'time': ctx.date('time'), 'q': da(q, sdims, 'm')}
    wild = [d for d in sdims if d not in spec]
    known = {d: lengths[d] for d in sdims}
    if B.get('second') and ctx.flag('second input'):
        # a second input which adds a wildcard dimension / a length, first or last
        sd2 = ctx.choose('r dims', [[], ['v'], ['v', 'z'], ['z', 'v'], ['x']]
                         if '*' in spec else [[], ['x']])
        spec2 = ['*'] if 'x' not in sd2 else ['x']
        first = ctx.flag('r first')
        if '*' in spec:
            inputs['r'] = {'dims': spec2, 'units': 'm'}
        else:
            inputs['r'] = {'dims': ['x'], 'units': 'm'}
        if first:
            inputs = {k: inputs[k] for k in ('r', 'q')}
        state['r'] = da(ctx.array('r', tuple(lengths[d] for d in sd2)) if sd2
                        else np.asarray(ctx.real('r')), sd2, 'm')
        wild += [d for d in sd2 if d not in spec2 and d not in wild and '*' in spec2]
        if '*' not in spec:
            wild = []
        ctx.assume(not (set(wild) & ({d for s in inputs.values() for d in s['dims']} - {'*'})))
        known.update({d: lengths[d] for d in sd2})
    return kind, slot, spec, sdims, q, inputs, state, wild, known


def full_value(q, sdims, pos):
    return q[tuple(pos[d] for d in sdims)] if sdims else q[()]


def restored(ctx, B):
    kind, slot, spec, sdims, q, inputs, state, wild, known = setup(ctx, B)
    units = 'm s^-1' if slot == 'tendencies' else 'km'
    inherit = ctx.choice('dims given', 2 if B['inherit'] else 1)
    ospec = list(spec) if inherit else ctx.choose('ospec', perms(spec))
    newdim = 0 if inherit else ctx.choice('new dim', B['newdim'])
    full_spec = list(ospec)
    if newdim == 1:
        full_spec = full_spec + ['n']
    elif newdim == 2:
        full_spec = ['n'] + full_spec
    name = 'q' if inherit else ctx.choose('out name', ['q', 'out'])
    props = {name: {'units': units}}
    if not inherit:
        props[name]['dims'] = full_spec if ctx.choice('tuple', B.get('tuple', 1)) == 0 \
            else tuple(full_spec)
    al = ctx.choice('alias', B.get('alias', 3))
    key = name
    if al == 1:
        props[name]['alias'] = 'o'
        key = 'o'
    elif al == 2:
        inputs['q']['alias'] = 'a'
        if name == 'q':
            key = 'a'
    inkey = inputs['q'].get('alias', 'q')
    raw = {}

    def fn(s, timestep):
        a = np.array(s[inkey])
        a = np.transpose(a, [spec.index(d) for d in ospec])
        if newdim == 1:
            a = np.stack([a, a * 2], axis=-1)
        elif newdim == 2:
            a = np.stack([a, a * 2], axis=0)
        raw['shape'] = a.shape
        return {slot: {key: a}}
    snap = snapshot(state)
    comp = make_component(kind, inputs, fn, **slot_props(slot, props))
    out = call_component(kind, comp, state, ctx.timedelta('dt', MS, MAXDT))
    for s in ('tendencies', 'diagnostics', 'new_state'):
        ctx.check(set(out[s]) - {'time'} == ({name} if s == slot else set()),
                  'exactly the declared quantities in %s' % s)
    if name not in out[slot]:
        return
    v = out[slot][name]
    ctx.check(isinstance(v, DataArray), 'returned as a sympl DataArray')
    ctx.check(expected_dims_ok(v.dims, full_spec, wild), 'dims %s for declared %s, wildcard %s' % (
        tuple(v.dims), full_spec, wild))
    ctx.check(same_units(v.attrs.get('units', '?'), units), 'units label')
    if not expected_dims_ok(v.dims, full_spec, wild):
        return
    vv = v.values
    good = True
    lens = dict(known, n=2)
    shape = tuple(lens.get(d, 1) for d in v.dims)
    ctx.check(vv.shape == shape, 'shape %s, expected %s' % (vv.shape, shape))
    if vv.shape != shape:
        return
    exp = np.empty(shape, dtype=object)
    for idx in np.ndindex(*shape):
        pos = dict(zip(v.dims, idx))
        x = full_value(q, sdims, pos)
        exp[idx] = x * 2 if pos.get('n') == 1 else x
    ctx.same(vv, exp, 'values at their labelled positions')
    check_unmodified(ctx, snap, state, 'input state')
    if wild:
        ctx.reach('wild')
    if newdim:
        ctx.reach('newdim')


def misshapen(ctx, B):
    """an array whose shape does not fit is rejected"""
    kind, slot, spec, sdims, q, inputs, state, wild, known = setup(ctx, B)
    ospec = ctx.choose('ospec', perms(spec))
    shape = []
    for d in ospec:
        shape.append(int(np.prod([known[w] for w in wild])) if d == '*' else known.get(d))
    # dims of unknown length admit any length
    ctx.assume(None not in shape)
    alts = {tuple(reversed(shape)), (int(np.prod(shape)),), (1,) + tuple(shape),
            tuple(shape) + (1,), tuple(shape[:-1]), tuple(shape[1:])}
    for i in range(len(shape)):
        for n in (0, 1, 3, shape[i] + 1, shape[i] * 2):
            alts.add(tuple(shape[:i]) + (n,) + tuple(shape[i + 1:]))
    if wild:
        un = []
        for d in ospec:
            un += [known[w] for w in wild] if d == '*' else [known[d]]
        alts.add(tuple(un))
    if len(shape) == 2:
        alts.add((shape[0] * shape[1], 1))
        alts.add((1, shape[0] * shape[1]))
    alts = sorted(alts - {tuple(shape)})
    alt = ctx.choose('shape', [tuple(shape)] + alts)
    units = 'm s^-1' if slot == 'tendencies' else 'm'
    arr = ctx.array('out', alt) if alt else np.asarray(ctx.real('out'))
    comp = make_component(kind, inputs, lambda s, t: {slot: {'o': np.array(arr)}},
                          **slot_props(slot, {'o': {'dims': ospec, 'units': units}}))
    r, e = ctx.attempt(lambda: call_component(kind, comp, state, ctx.timedelta('dt', MS, MAXDT)),
                       Exception)
    if alt == tuple(shape):
        ctx.check(e is None, 'correctly shaped output rejected: %r' % (e,))
        ctx.reach('accepted')
    else:
        ctx.check(e is not None, 'array of shape %s accepted for dims %s (wildcard %s), expected '
                  'shape %s' % (alt, ospec, wild, tuple(shape)))
        ctx.reach('rejected')


S = [[], ['x'], ['x', 'y'], ['*'], ['*', 'x'], ['x', '*', 'y']]
L = {'x': 2, 'y': 3, 'z': 2, 'w': 3, 'v': 4, 'n': 2}
HARNESSES = [
    Harness('restored_all_slots', restored,
            dict(slots=SLOTS, specs=[['x', 'y'], ['*', 'x']], lengths=L, extra=['z', 'w'],
                 max_extra=2, orders='some', inherit=True, newdim=1),
            dict(slots=SLOTS, specs=S, lengths=L, extra=['z', 'w'],
                 max_extra=2, orders='all', inherit=True, newdim=3, tuple=2),
            reach=['wild']),
    Harness('restored_layouts', restored,
            dict(slots=[SLOTS[0], SLOTS[5]], specs=S, lengths=L, extra=['z', 'w'],
                 max_extra=2, orders='some', inherit=True, newdim=3, alias=1),
            dict(slots=[SLOTS[0], SLOTS[5]], specs=S, lengths=L, extra=['z', 'w'], second=True,
                 max_extra=2, orders='all', inherit=True, newdim=3),
            reach=['wild', 'newdim']),
    Harness('restored_two_inputs', restored,
            dict(slots=[SLOTS[2], SLOTS[4]], specs=[['*'], ['x', '*'], ['x', 'y']], lengths=L,
                 extra=['z', 'w'], second=True, max_extra=2, orders='some', inherit=False, newdim=1, alias=1),
            dict(slots=[SLOTS[2], SLOTS[4]], specs=S, lengths=dict(L, z=1, y=1),
                 extra=['z', 'w'], second=True, max_extra=2, orders='some', inherit=False, newdim=3),
            reach=['wild']),
    Harness('misshapen', misshapen,
            dict(slots=SLOTS[4:6], specs=S, lengths=L, extra=['z', 'w'],
                 max_extra=1, orders='first'),
            dict(slots=SLOTS, specs=S, lengths=L, extra=['z', 'w'], second=True,
                 max_extra=2, orders='first'), reach=['accepted', 'rejected']),
    Harness('empty', restored,
            dict(slots=[SLOTS[2], SLOTS[5]], specs=S, lengths=dict(L, x=0, z=0), extra=['z', 'w'], second=True,
                 max_extra=1, orders='first', inherit=True, newdim=2, alias=1),
            dict(slots=SLOTS, specs=S, lengths=dict(L, x=0, z=0), extra=['z', 'w'], second=True,
                 max_extra=2, orders='some', inherit=True, newdim=3, alias=1), reach=['wild'],
            note='dimensions of length zero'),
    Harness('empty_misshapen', misshapen,
            dict(slots=SLOTS[4:6], specs=S, lengths=dict(L, x=0, z=0), extra=['z', 'w'],
                 max_extra=1, orders='first'),
            dict(slots=SLOTS, specs=S, lengths=dict(L, x=0, z=0), extra=['z', 'w'], second=True,
                 max_extra=2, orders='first'), reach=['accepted', 'rejected'], note='dimensions of length zero'),
    numtypes.OUTPUTS,
    large.OUTPUTS,
]
HARNESSES.append(histories.OUTPUTS)
ASSUMPTIONS = ['dimension lengths 0-4, at most two wildcard dimensions per quantity, values in [-8,8]']
HARNESSES.append(shapes.OUTPUTS)
HARNESSES.append(shapes.MISFITS)
