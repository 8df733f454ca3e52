"""C29 the unit helper functions agree with conversion."""
from .common import *
from .c21 import GROUPS, CONFUSABLE, num

INVALID = ['nosuchunit', 'm nosuchunit', 'kg foo^-1', 'm s-1', 'm^', 'm/', '(m', 'm)', '@', 'm s^foo', 'm=2', '[length]', ' m s^',
           'm/0', 'm+s', "m'"]
MORE = ['', 'kg', 's', 's^-1', '1', 'J kg^-1 K^-1', 'W/m^2', 'W m^-2', 'kg m^-2 s^-1', 'mol', 'm^0.5']
ALL = [(g, u) for g in GROUPS for u in GROUPS[g]]
PLAIN = {'fraction', 'angle', 'longitude'}                # all dimensionless


def to_plain(g, u):
    f, o = GROUPS[g][u]
    if g in ('angle', 'longitude'):
        f = f * F(np.pi / 180)
    return f, o


def pairs(ctx, B):
    g1 = ctx.choose('group', list(GROUPS))
    g2 = ctx.choose('other group', list(GROUPS) if B['cross'] else [g1])
    u1 = ctx.choose('unit', list(GROUPS[g1]))
    u2 = ctx.choose('other unit', list(GROUPS[g2]) if g1 == g2 else list(GROUPS[g2])[::3])
    comp = g1 == g2 or (g1 in PLAIN and g2 in PLAIN)
    (f1, o1), (f2, o2) = to_plain(g1, u1), to_plain(g2, u2)
    same = comp and abs(f1 - f2) < F(1, 10**12) * f1 and abs(o1 - o2) < F(1, 10**9)
    ctx.check(sympl.units_are_compatible(u1, u2) is comp, 'compatible(%r, %r)' % (u1, u2))
    ctx.check(bool(sympl.units_are_same(u1, u2)) == same, 'same(%r, %r)' % (u1, u2))
    v = ctx.array('v', (2,), lo=1, hi=100)
    a = DataArray(v, dims=('x',), attrs={'units': u1})
    if comp:
        got = a.to_units(u2)
        if same:
            ctx.close(got.values, v, 'units %r and %r are the same' % (u1, u2), tol=1e-6)
        else:
            w = (v * num(ctx, f1) + num(ctx, o1 - o2)) * num(ctx, 1 / f2)
            ctx.close(got.values, w, 'units %r and %r differ' % (u1, u2), tol=1e-5)
        ctx.reach('same' if same else 'compatible')
    else:
        ctx.expect_exc(lambda: a.to_units(u2), ValueError, '%s -> %s' % (u1, u2))
        ctx.reach('incompatible')


def confusable(ctx, B):
    u1, u2 = ctx.choose('pair', CONFUSABLE)
    if ctx.flag('swap'):
        u1, u2 = u2, u1
    ctx.check(sympl.units_are_compatible(u1, u2) is False, 'compatible(%r, %r)' % (u1, u2))
    ctx.check(not sympl.units_are_same(u1, u2), 'same(%r, %r)' % (u1, u2))
    for u in (u1, u2):
        ctx.check(sympl.units_are_compatible(u, u) is True and bool(sympl.units_are_same(u, u)), 'compatible with itself')
    ctx.reach('done')


def valid(ctx, B):
    u = ctx.choose('unit', INVALID + [u for g, u in ALL] + MORE)
    if u in INVALID:
        ctx.check(sympl.is_valid_unit(u) is False, 'is_valid_unit(%r)' % u)
        a = DataArray(ctx.array('v', (1,)), dims=('x',), attrs={'units': 'm'})
        ctx.expect_exc(lambda: a.to_units(u), Exception, 'conversion to %r' % u)
        ctx.reach('invalid')
    else:
        ctx.check(sympl.is_valid_unit(u) is True, 'is_valid_unit(%r)' % u)
        v = ctx.array('v', (1,))
        ctx.same(DataArray(v, dims=('x',), attrs={'units': u}).to_units(u).values, v, 'conversion of %r to itself' % u)
        ctx.reach('valid')


HARNESSES = [
    Harness('pairs', pairs, dict(cross=True), reach=['same', 'compatible', 'incompatible']),
    Harness('confusable', confusable, dict(), reach=['done']),
    Harness('valid', valid, dict(), reach=['valid', 'invalid']),
]
ASSUMPTIONS = ['units are those of the tables of C21 and C29', 'products of offset units (degC m) are not considered (pint refuses them)']
