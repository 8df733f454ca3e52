"""C23 initialize_numpy_arrays_with_properties."""
from .common import *
from . import shapes as anyshape
from . import histories

_real_zeros = [None]
TRACERS = {'A': 'kg', 'B': 'm', 'C': 'K'}


class Shaped(object):
    """stands for an array of symbolic extent: only its shape and dtype can be used"""

    def __init__(self, shape, dtype=None, zero=False):
        self.shape, self.dtype, self.zero = tuple(shape), dtype, zero
        self.ndim = len(self.shape)

    def __len__(self):
        return int(self.shape[0])


def install(symbolic):
    pass


def _symbolic_zeros():
    """np.zeros for a shape with symbolic lengths gives a Shaped"""
    if _real_zeros[0] is None or np.zeros is not _real_zeros[0][1]:
        inner = np.zeros

        def zeros(shape, dtype=float, *a, **k):
            s = tuple(shape) if isinstance(shape, (list, tuple)) else (shape,)
            if any(isinstance(n, SymReal) for n in s):
                return Shaped(s, dtype, True)
            return inner(shape, dtype, *a, **k)
        np.zeros = zeros
        _real_zeros[0] = (inner, zeros)


def make(ctx, shape, tag):
    if ctx.symbolic:
        return Shaped(shape)
    return np.full(tuple(int(n) for n in shape), 5.)


def check_zero(ctx, a, shape, label):
    got = tuple(np.shape(a)) if isinstance(a, np.ndarray) else tuple(a.shape)
    ok = len(got) == len(shape)
    ctx.check(ok, '%s: number of dimensions %s' % (label, len(got)))
    if not ok:
        return
    for i, (g, w) in enumerate(zip(got, shape)):
        ctx.same(g, w, '%s: length %d' % (label, i))
    if isinstance(a, Shaped):
        ctx.check(a.zero, label + ': zeros')
    elif isinstance(a, np.ndarray):
        ctx.check(bool(np.all(a == 0)), label + ': zeros')


def shapes(ctx, B):
    if ctx.symbolic:
        _symbolic_zeros()
    d1 = ctx.choose('dims of input 1', B['dims'])
    d2 = ctx.choose('dims of input 2', B['dims'])
    alias = [ctx.flag('input %d has an alias' % i) for i in (1, 2)] if B['alias'] else [False, True]
    mode = ctx.choose('output', ['own dims', 'as input 1', 'none'])
    od = ctx.choose('dims of output', B['odims'])
    dtype = ctx.choose('dtype', B['dtypes'])
    inputs = {'q1': {'dims': list(d1), 'units': 'm'}, 'q2': {'dims': list(d2), 'units': 'K'}}
    raw, lens, clash = {'time': ctx.date('t')}, {}, False
    arrays = []
    for i, (n, dd) in enumerate((('q1', d1), ('q2', d2))):
        shape = []
        for d in dd:
            length = ctx.integer('length of %s in %s' % (d, n), 0, B['maxlen'])
            shape.append(length)
            if d in lens:
                clash = ctx.lor(clash, lens[d] != length)
            else:
                lens[d] = length
        key = n
        if alias[i]:
            key = inputs[n]['alias'] = 'short' + n
        raw[key] = make(ctx, shape, n)
        arrays.append((key, raw[key]))
    outputs = {'out': {'dims': list(od), 'units': 'm'}}
    if dtype is not None:
        outputs['out']['dtype'] = dtype
    want = {'out': od}
    if mode == 'as input 1':
        outputs['q1'] = {'units': 'm', 'alias': 'other'} if ctx.flag('output has an alias') else {'units': 'm'}
        want['q1'] = d1
    elif mode == 'own dims':
        outputs['q1'] = {'units': 'm', 'dims': list(d2)}
        want['q1'] = d2
    elif mode == 'none':
        outputs['nodims'] = {'units': 'm'}
    before = ({k: dict(v) for k, v in outputs.items()}, {k: dict(v) for k, v in inputs.items()}, dict(raw))
    unknown = mode == 'none' or any(d not in lens for ds in want.values() for d in ds)
    got, err = ctx.attempt(lambda: sympl.initialize_numpy_arrays_with_properties(outputs, raw, inputs),
                           (sympl.InvalidStateError, sympl.InvalidPropertyDictError, KeyError))
    ctx.check(({k: dict(v) for k, v in outputs.items()}, {k: dict(v) for k, v in inputs.items()}) == before[:2],
              'properties unmodified')
    ctx.check(set(raw) == set(before[2]) and all(raw[k] is before[2][k] for k in raw), 'input state unmodified')
    if not ctx.symbolic:
        for k, a in arrays:
            ctx.check(bool(np.all(a == 5.)), 'input arrays unmodified')
    ctx.check(ctx.iff(err is not None, ctx.lor(clash, unknown)), 'rejected exactly when the shape cannot be determined')
    if err is not None:
        ctx.reach('rejected')
        return
    ctx.check(set(got) == set(want), 'one array per output')
    for n in want:
        if n in got:
            check_zero(ctx, got[n], [lens[d] for d in want[n]], n)
            if not ctx.symbolic:
                t = dtype if (n == 'out' and dtype is not None) else np.float64
                ctx.check(got[n].dtype == t, 'dtype of ' + n)
    if not ctx.symbolic:
        allarr = [a for k, a in arrays] + [got[n] for n in sorted(got)]
        for i, a in enumerate(allarr):
            for b in allarr[:i]:
                ctx.check(a is not b and not np.shares_memory(a, b), 'memory shared')
        again = sympl.initialize_numpy_arrays_with_properties(outputs, raw, inputs)
        for n in got:
            ctx.check(not np.shares_memory(again[n], got[n]), 'memory shared between calls')
    ctx.reach('allocated')


def tracers(ctx, B):
    if ctx.symbolic:
        _symbolic_zeros()
    reg = ctx.choose('registered', B['reg'])
    pre = ctx.choose('prepended', B['pre'])
    tdims = ctx.choose('tracer dims', B['tdims'])
    given = ctx.flag('tracer dims given')
    out_tracer = ctx.flag('a tracer is among the outputs')
    in_tracer = ctx.flag('tracers are among the inputs')
    for n in reg:
        sympl.register_tracer(n, TRACERS[n])
    order = list(pre) + [n for n in reg if n not in pre]
    lens = {d: ctx.integer('length of ' + d, 0, B['maxlen']) for d in ('x', 'y')}
    inputs = {'q': {'dims': ['x', 'y'], 'units': 'm'}}
    raw = {'q': make(ctx, [lens['x'], lens['y']], 'q')}
    qd = [d for d in tdims if d != 'tracer']
    if in_tracer:
        for n in order:
            inputs[n] = {'dims': qd, 'units': TRACERS[n], 'tracer': True}
    shape = [len(order) if d == 'tracer' else lens[d] for d in tdims]
    if given and in_tracer:
        raw['tracers'] = make(ctx, shape, 'tracers')
    outputs = {'o': {'dims': ['y'], 'units': 'm'}}
    if out_tracer and order:
        outputs[order[0]] = {'dims': ['x'], 'units': 'm'}
    kw = {}
    if given:
        kw['tracer_dims'] = tdims
        if pre or ctx.flag('empty list of prepended tracers given'):
            kw['prepend_tracers'] = [(n, TRACERS[n]) for n in pre]
    elif out_tracer and order and order[0] in reg:
        pass
    got = sympl.initialize_numpy_arrays_with_properties(outputs, raw, inputs, **kw)
    want = {'o'}
    if given:
        want.add('tracers')
    elif out_tracer and order:
        want.add(order[0])
    ctx.check(set(got) == want, 'arrays returned: %s' % sorted(got))
    if 'o' in got:
        check_zero(ctx, got['o'], [lens['y']], 'o')
    if given and 'tracers' in got:
        check_zero(ctx, got['tracers'], shape, 'tracers')
    if not given and out_tracer and order and order[0] in got:
        check_zero(ctx, got[order[0]], [lens['x']], 'tracer output')
    ctx.check(sympl.get_tracer_names() == tuple(reg), 'registered tracers unchanged')
    ctx.reach('done')


D = [(), ('x',), ('x', 'y'), ('y', 'x'), ('*',), ('*', 'x')]
HARNESSES = [
    Harness('shapes', shapes, dict(dims=D, odims=[(), ('y', 'x'), ('*',), ('x', '*', 'y')], alias=False,
                                   dtypes=[None, np.int32], maxlen=6),
            dict(dims=D, odims=D + [('x', '*', 'y')], alias=True, dtypes=[None, np.int32, np.float32], maxlen=9),
            reach=['rejected', 'allocated'], stubs=['np.zeros with symbolic lengths returns a stand-in with that shape']),
    Harness('tracers', tracers, dict(reg=[(), ('A',), ('A', 'B'), ('B', 'A')], pre=[(), ('A',), ('C',), ('C', 'B')],
                                     tdims=[('tracer',), ('tracer', 'x'), ('y', 'tracer'), ('y', 'x', 'tracer')],
                                     maxlen=6),
            dict(reg=[(), ('A',), ('A', 'B'), ('B', 'A'), ('C', 'A', 'B')], maxlen=12,
                 pre=[(), ('A',), ('C',), ('C', 'B'), ('A', 'B', 'C')],
                 tdims=[('tracer',), ('tracer', 'x'), ('y', 'tracer'), ('y', 'x', 'tracer'), ('x', 'tracer', 'y')]),
            reach=['done']),
]
HARNESSES.append(histories.ALLOCATED)
ASSUMPTIONS = ['outputs are listed under their quantity name, also when they have an alias (as the existing tests fix)',
               'dtype, zero content and memory sharing are checked on the concrete run of every path']
HARNESSES.append(anyshape.ALLOCATION)
