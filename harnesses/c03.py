"""C03 invalid states raise InvalidStateError before array_call; valid ones are accepted."""
from .common import *
from . import histories
from . import large
from .c01 import perms, choose_state_dims

DEFECTS = ['none', 'missing', 'no units', 'wrong units', 'extra dim', 'length']
OTHER_ATTRS = [{}, {'long_name': 'some name', 'Units': 'm'}]


def rejected(ctx, B):
    kind = ctx.choose('kind', B['kinds'])
    nq = B['nq']
    lengths = {'x': 2, 'y': 3, 'z': 2}
    names = ['qa', 'q', 'qb'][:nq]
    units = [('m', 'km'), ('degC', 'degK'), ('percent', 'dimensionless')]
    which = ctx.choice('which', nq)
    defect = ctx.choose('defect', DEFECTS)
    defect2 = ctx.choose('defect2', DEFECTS) if B.get('two') else 'none'
    inputs, state = {}, {}
    bad = False
    lens = dict(lengths)
    for i, name in enumerate(names):
        spec = ctx.choose('spec%d' % i, B['specs'])
        d = defect if i == which else (defect2 if i == (which + 1) % nq else 'none')
        sdims = []
        for x in spec:
            if x != '*' and ctx.flag('%s has %s' % (name, x)):
                sdims.append(x)
        if '*' in spec and ctx.flag('%s wild' % name):
            sdims.append('z')
        su, du = units[i % 3]
        inputs[name] = {'dims': spec, 'units': du}
        if ctx.choice('alias%d' % i, B.get('alias', 1)):
            inputs[name]['alias'] = 'al%d' % i
        if d == 'missing':
            bad = True
            continue
        if d == 'extra dim':
            ctx.assume('*' not in spec)
            sdims = ([] if ctx.choice('extra pos', 2) else sdims) + ['extra']
            bad = True
        if d == 'wrong units':
            su = ctx.choose('bad', B['bad_units'])
            bad = True
        if d == 'no units':
            su = None
            bad = True
        shape = [dict(lens, extra=2).get(x) for x in sdims]
        if d == 'length':
            # conflicts only when another quantity already/later has that dimension
            ctx.assume(len(sdims) > 0)
            shape[-1] = ctx.choose('wrong length', [shape[-1] + 1, 1, 0])
            for x in sdims[-1:]:
                inputs[name].setdefault('_len', x)
        a = ctx.array(name, tuple(shape)) if shape else np.asarray(ctx.real(name))
        state[name] = da(a, sdims, su, **ctx.choose('other attributes', OTHER_ATTRS if d == 'no units' else OTHER_ATTRS[:1]))
    clash = {}
    for name, v in state.items():
        for x, n in zip(v.dims, v.shape):
            if clash.setdefault(x, n) != n:
                bad = True
                ctx.reach('clash')
    for p in inputs.values():
        p.pop('_len', None)
    state['other'] = da(ctx.array('other', (4,)), ['x2'], 'm')
    state['time'] = ctx.date('time')
    if ctx.choice('order', 2):
        state = {k: state[k] for k in reversed(list(state))}
    called = []

    def fn(s, t):
        called.append(s)
        return {}
    comp = make_component(kind, inputs, fn)
    snap = snapshot(state)
    dtv = ctx.timedelta('dt', MS, MAXDT)
    r, e = ctx.attempt(lambda: call_component(kind, comp, state, dtv), sympl.InvalidStateError)
    if bad:
        ctx.reach('bad')
        ctx.check(e is not None, 'invalid state accepted (%s/%s on %s, declared %s)' % (
            defect, defect2, names[which], inputs))
        ctx.check(not called, 'array_call ran on an invalid state')
    else:
        ctx.reach('good')
        ctx.check(e is None, 'valid state rejected: %s' % (e,))
        ctx.check(len(called) == 1, 'array_call ran once')
    check_unmodified(ctx, snap, state, 'state')


class Extent(object):
    """stands for an array of symbolic extent (its elements cannot be used)"""
    dtype = np.dtype(float)
    __array_ufunc__ = None

    def __init__(self, shape):
        self.shape, self.ndim = tuple(shape), len(shape)

    def reshape(self, *shape, **k):
        s = shape[0] if len(shape) == 1 and isinstance(shape[0], (list, tuple)) else shape
        return Extent(s)

    def transpose(self, *axes):
        a = axes[0] if len(axes) == 1 and isinstance(axes[0], (list, tuple)) else axes
        return Extent([self.shape[i] for i in a])

    def copy(self, *a, **k):
        return Extent(self.shape)

    def __setitem__(self, k, v):
        pass


class Quantity(object):
    """stands for a DataArray of symbolic extent"""

    def __init__(self, shape, dims, units):
        self.values = Extent(shape)
        self.shape, self.ndim, self.dims = tuple(shape), len(shape), tuple(dims)
        self.attrs = {'units': units}

    @property
    def sizes(self):
        return dict(zip(self.dims, self.shape))

    def to_units(self, units):
        da(1.0, [], self.attrs['units']).to_units(units)
        return Quantity(self.shape, self.dims, units)


_empty = []


def _symbolic_empty():
    """np.empty for a shape with symbolic lengths gives an Extent"""
    if not _empty or np.empty is not _empty[1]:
        inner = np.empty

        def empty(shape, *a, **k):
            s = tuple(shape) if isinstance(shape, (list, tuple)) else (shape,)
            return Extent(s) if any(isinstance(n, SymReal) for n in s) else inner(shape, *a, **k)
        np.empty = empty
        _empty[:] = [inner, empty]


def lengths(ctx, B):
    """every length of every dimension of two or three quantities is a symbolic integer"""
    if ctx.symbolic:
        _symbolic_empty()
    inputs, state, lens, clash = {}, {'time': ctx.date('time')}, {}, False
    order = []
    for i in range(B['nq']):
        name = 'q%d' % i
        spec = ctx.choose('spec%d' % i, B['specs'])
        dims = [d for d in spec if d != '*' and ctx.flag('%s has %s' % (name, d))]
        if '*' in spec:
            dims += [d for d in B['wild'] if d not in dims and ctx.flag('%s wild %s' % (name, d))]
        if len(dims) > 1 and ctx.flag('reversed%d' % i):
            dims.reverse()
        shape = []
        for d in dims:
            n = ctx.integer('length of %s in %s' % (d, name), B['min'], B['max'])
            shape.append(n)
            for m in lens.get(d, []):
                clash = ctx.lor(clash, m != n)
            lens.setdefault(d, []).append(n)
        inputs[name] = {'dims': list(spec), 'units': 'm'}
        order.append(dims)
        if ctx.symbolic:
            state[name] = Quantity(shape, dims, 'km')
        else:
            state[name] = da(np.ones([int(n) for n in shape]), dims, 'km')
    wild = []
    for p, dims in zip(inputs.values(), order):
        wild += [d for d in dims if d not in p['dims'] and d not in wild]
    # a dimension that is explicit in one declaration and part of the wildcard of another
    ctx.assume(not any('*' in p['dims'] and d in p['dims'] for p in inputs.values() for d in wild))
    called = []

    def fn(s, t):
        called.append({k: tuple(v.shape) for k, v in s.items() if k != 'time'})
        return {}
    comp = make_component('diagnostic', inputs, fn)
    r, e = ctx.attempt(lambda: comp(state), sympl.InvalidStateError)
    ctx.check(ctx.iff(e is not None, clash), 'rejected exactly when two lengths of one dimension differ')
    ctx.check(len(called) == (0 if e else 1), 'array_call runs for valid states only')
    if e is not None:
        ctx.reach('clash')
        return
    ctx.reach('consistent')
    for name, p in inputs.items():
        got = called[0].get(name, ())
        ctx.check(len(got) == len(p['dims']), name + ': number of axes')
        for g, d in zip(got, p['dims']):
            if d == '*':
                sub = [n for n in (lens[x][0] for x in wild)]
                have = [d for d in order[int(name[1:])] if d in wild]
                if len(have) == len(wild):
                    w = 1
                    for n in sub:
                        w = w * n
                    ctx.check(g == w, name + ': length of the wildcard axis')
            elif d in order[int(name[1:])]:
                ctx.check(g == lens[d][0], '%s: length of %s' % (name, d))
            else:
                ctx.check(ctx.lor(g == 1, g == lens[d][0] if d in lens else False),
                          '%s: length of absent %s' % (name, d))


BAD = ['kg', 's', 'm s^-1', 'Pa']
HARNESSES = [
    Harness('one', rejected,
            dict(kinds=KINDS, nq=1, specs=[[], ['x'], ['x', 'y'], ['*'], ['*', 'x']], bad_units=BAD, alias=2),
            dict(kinds=KINDS, nq=1, specs=[[], ['x'], ['x', 'y'], ['*'], ['*', 'x'], ['y', '*', 'x']],
                 bad_units=BAD, alias=2), reach=['bad', 'good']),
    Harness('two', rejected,
            dict(kinds=['diagnostic', 'stepper'], nq=2, specs=[['x'], ['y', 'x'], ['*']],
                 bad_units=BAD[:2]),
            dict(kinds=KINDS, nq=2, specs=[[], ['x'], ['y', 'x'], ['*', 'x'], ['*']], bad_units=BAD,
                 two=True), reach=['bad', 'good', 'clash']),
    Harness('three', rejected,
            dict(kinds=['tendency'], nq=3, specs=[['x'], ['*']], bad_units=BAD[:1]),
            dict(kinds=['tendency', 'implicit'], nq=3, specs=[['x'], ['*'], ['x', 'y']], bad_units=BAD[:1], two=True),
            reach=['bad', 'good', 'clash']),
    large.STATES,
]
HARNESSES += [
    Harness('lengths', lengths,
            dict(nq=2, specs=[['x'], ['y', 'x'], ['*'], ['*', 'x'], ['x', '*', 'y']], wild=['y', 'z'], min=0, max=40),
            dict(nq=3, specs=[['x'], ['y', 'x'], ['*', 'x'], ['x', '*', 'y']], wild=['y', 'z'], min=0, max=40),
            reach=['clash', 'consistent'],
            note='lengths of dimensions are symbolic integers (quantities are stand-ins without elements)',
            stubs=['DataArray/ndarray stand-ins with symbolic shape', 'numpy.empty for symbolic shapes']),
]
HARNESSES.append(histories.STATES)
ASSUMPTIONS = ['defects considered: absent quantity, absent units attribute, inconvertible (defined) units, '
               'dimension outside the declaration without wildcard, two lengths for one dimension']
