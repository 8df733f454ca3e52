"""C21 DataArray.to_units and arithmetic."""
from .common import *
from . import shapes
from . import numtypes

# groups of mutually convertible units: unit -> (factor, offset) to the first one
GROUPS = {
    'length': {'m': (F(1), F(0)), 'km': (F(1000), F(0)), 'mm': (F(1, 1000), F(0)), 'meter': (F(1), F(0)),
               'Mm': (F(1000000), F(0)), 'm m m^-1': (F(1), F(0))},
    'temperature': {'K': (F(1), F(0)), 'degC': (F(1), F(27315, 100)), 'mK': (F(1, 1000), F(0)), 'degK': (F(1), F(0)),
                    'degF': (F(5, 9), F(273.15) - F(32) * F(5, 9)), '\u00b0C': (F(1), F(27315, 100))},
    'fraction': {'': (F(1), F(0)), '%': (F(1, 100), F(0)), 'percent': (F(1, 100), F(0)), 'dimensionless': (F(1), F(0)),
                 'g/kg': (F(1, 1000), F(0)), 'kg kg^-1': (F(1), F(0))},
    'pressure': {'Pa': (F(1), F(0)), 'hPa': (F(100), F(0)), 'kg m^-1 s^-2': (F(1), F(0)), 'mbar': (F(100), F(0)),
                 'mPa': (F(1, 1000), F(0)), 'MPa': (F(1000000), F(0)), 'm Pa/m': (F(1), F(0))},
    'rate': {'m s^-1': (F(1), F(0)), 'km/hour': (F(1000, 3600), F(0)), 'm day^-1': (F(1, 86400), F(0))},
    'angle': {'degrees_north': (F(1), F(0)), 'degree_N': (F(1), F(0)), 'degree_north': (F(1), F(0)),
              'degree': (F(1), F(0)), 'radian': (F(180 / np.pi), F(0)), '\u00b0': (F(1), F(0)),
              'degrees_N': (F(1), F(0))},
    'longitude': {'degrees_east': (F(1), F(0)), 'degree_E': (F(1), F(0)), 'degree_east': (F(1), F(0)),
                  'degreesE': (F(1), F(0))},
    'energy': {'J': (F(1), F(0)), 'W s': (F(1), F(0)), 'kW hr': (F(3600000), F(0))},
}
SHAPES = [((), ()), (('x',), (2,)), (('y', 'x'), (1, 2))]


# units which look alike, or differ only in spaces or case, and are not convertible
CONFUSABLE = [('m s', 'ms'), ('m s^-1', 'ms^-1'), ('m m', 'mm'), ('m Pa', 'mPa'), ('k g', 'kg'), ('m s^-1', 'm s'),
              ('K', 'k'), ('g', 'G'), ('A', 'a'), ('s', 'S'), ('m^2', 'm'), ('kg m^-3', 'kg m^3'), ('W m^-2', 'W m^-1'),
              ('kg m s^-2', 'kg m s^-1'), ('m', ''), ('', 's'), ('min', 'm in'), ('J/kg/K', 'J/kg K'), ('d', 'D')]


def num(ctx, x):
    return x if ctx.symbolic else float(x)


def label_ok(u, v):
    if u == v:
        return True
    try:
        return same_units(u, v)
    except Exception:
        return False


def convert(ctx, B):
    g = ctx.choose('group', B['groups'])
    us = list(GROUPS[g])
    u1, u2 = ctx.choose('from', us), ctx.choose('to', us)
    dims, shape = ctx.choose('dims', B['shapes'])
    coords = bool(ctx.choice('coords', B['coords']))
    v = ctx.array('v', shape, lo=1, hi=100) if shape else np.array(ctx.real('v', 1, 100))
    a = DataArray(v, dims=dims, attrs={'units': u1, 'long_name': 'n', 'k': 3},
                  coords={'x': [5., 6.]} if coords and 'x' in dims else None)
    before = (np.array(a.values), tuple(a.dims), dict(a.attrs))
    b = a.to_units(u2)

    def unchanged(tag):
        ctx.same(a.values, before[0], '%s: values of the original' % tag)
        ctx.check(dict(a.attrs) == before[2] and tuple(a.dims) == before[1], '%s: attributes of the original' % tag)
    unchanged('after conversion')
    f1, o1 = GROUPS[g][u1]
    f2, o2 = GROUPS[g][u2]
    want = (before[0] * num(ctx, f1) + num(ctx, o1 - o2)) * num(ctx, 1 / f2)
    ctx.check(isinstance(b, DataArray), 'type')
    ctx.check(tuple(b.dims) == before[1], 'dims')
    ctx.close(b.values, want, 'values %s -> %s' % (u1, u2), tol=1e-6)
    ctx.check(label_ok(b.attrs.get('units'), u2), 'label %r for %s' % (b.attrs.get('units'), u2))
    ctx.check({k: x for k, x in b.attrs.items() if k != 'units'} == {'long_name': 'n', 'k': 3}, 'other attributes')
    if coords and 'x' in dims:
        ctx.check(list(np.asarray(b.coords['x'].values)) == [5., 6.], 'coords')
    c = b.to_units(u1)
    ctx.close(c.values, before[0], 'there and back', tol=1e-6)
    if b is not a:
        b.attrs['extra'] = 1
        ctx.check('extra' not in a.attrs, 'attributes not shared')
        if np.shares_memory(b.values, a.values):
            ctx.check(label_ok(u1, u2), 'memory shared only if nothing had to be converted')
        elif b.values.shape:
            b.values[...] = 0
            unchanged('after modifying the result')
    ctx.reach('done')


def errors(ctx, B):
    g1 = ctx.choose('group', list(GROUPS))
    g2 = ctx.choose('other group', list(GROUPS))
    u1, u2 = list(GROUPS[g1])[0], list(GROUPS[g2])[-1]
    if g1 == g2:
        u1, u2 = ctx.choose('confusable', CONFUSABLE)
        if ctx.flag('swap'):
            u1, u2 = u2, u1
    v = ctx.array('v', (2,))
    a = DataArray(v, dims=('x',), attrs={'units': u1, 'n': 1})
    plain = {'fraction', 'angle', 'longitude'}         # angles are dimensionless
    if g1 == g2 or not (g1 in plain and g2 in plain):
        ctx.expect_exc(lambda: a.to_units(u2), ValueError, '%s -> %s' % (u1, u2))
        ctx.same(a.values, v, 'values')
        ctx.check(dict(a.attrs) == {'units': u1, 'n': 1}, 'attrs')
        ctx.reach('incompatible')
    bare = DataArray(v, dims=('x',), attrs={'n': 1})
    ctx.expect_exc(lambda: bare.to_units(u2), KeyError, 'no units')
    ctx.check(dict(bare.attrs) == {'n': 1}, 'attrs')
    ctx.expect_exc(lambda: a.to_units('nosuchunit'), Exception, 'unknown unit')
    ctx.reach('done')


def arithmetic(ctx, B):
    """a + b and a - b keep the attributes of a, leaving both operands alone"""
    op = ctx.choose('operator', ['+', '-'])
    d1, s1 = ctx.choose('left', SHAPES)
    other = ctx.choose('right', ['array', 'transposed', 'scalar', 'numpy', 'same'])
    v = ctx.array('v', s1) if s1 else np.array(ctx.real('v'))
    a = DataArray(v, dims=d1, attrs={'units': 'm', 'note': 'a'})
    if other == 'scalar':
        b, bv = ctx.real('b'), None
        bv = np.broadcast_to(np.array(b, dtype=object if ctx.symbolic else float), s1)
    elif other == 'same':
        b, bv = a, np.array(v)
    else:
        w = ctx.array('w', s1) if s1 else np.array(ctx.real('w'))
        bv = np.array(w)
        if other == 'numpy':
            b = np.array(w)
        elif other == 'array':
            b = DataArray(w, dims=d1, attrs={'units': 'km', 'z': 1})
        else:
            b = DataArray(np.transpose(np.array(w)), dims=d1[::-1], attrs={'units': 'km', 'z': 1})
    av = np.array(v)
    battrs = dict(b.attrs) if hasattr(b, 'attrs') else None
    r = a + b if op == '+' else a - b
    ctx.check(isinstance(r, DataArray) and tuple(r.dims) == tuple(d1), 'type and dims')
    ctx.check(dict(r.attrs) == {'units': 'm', 'note': 'a'}, 'attributes of the left operand')
    ctx.close(r.values, av + bv if op == '+' else av - bv, 'values')
    r.attrs['units'] = 'x'
    ctx.check(dict(a.attrs) == {'units': 'm', 'note': 'a'}, 'left operand attrs')
    ctx.same(a.values, av, 'left operand')
    if other != 'same' and hasattr(b, 'attrs'):
        ctx.check(dict(b.attrs) == battrs, 'right operand attrs')
    ctx.reach('done')


HARNESSES = [
    Harness('convert', convert, dict(groups=list(GROUPS), shapes=SHAPES[1:], coords=2),
            dict(groups=list(GROUPS), shapes=SHAPES, coords=2), reach=['done']),
    Harness('scalar', convert, dict(groups=['temperature', 'rate'], shapes=SHAPES[:1], coords=1), reach=['done']),
    Harness('errors', errors, dict(), reach=['done', 'incompatible']),
    Harness('arithmetic', arithmetic, dict(), reach=['done']),
    numtypes.CONVERSION,
]
ASSUMPTIONS = ['conversion factors of the listed units are stated in this file as exact fractions',
               'when the units are already the requested ones, the quantity itself may be returned']
HARNESSES.append(shapes.CONVERSION)
