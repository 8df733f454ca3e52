"""C07 combined properties: order-independent, accepted exactly when the members can be satisfied."""
import itertools
from .common import *
from . import histories
from . import large

PROPS = {'input_properties': 'm', 'tendency_properties': 'm s^-1'}


def build(kind, what, dims, units, inherit=False):
    """a member declaring quantity 'q' with these dims in dictionary `what`"""
    other = {'dims': ['*'], 'units': 'm'}
    if what == 'input_properties':
        ins, tend = {'q': {'dims': dims, 'units': units}}, {}
    elif inherit:
        ins, tend = {'q': {'dims': dims, 'units': 'm'}}, {'q': {'units': units}}
    else:
        ins, tend = {'o': other}, {'q': {'dims': dims, 'units': units}}
    if kind == 'diagnostic':
        return diagnostic_component(ins, {}, lambda s: {})
    return tendency_component(ins, tend, {}, lambda s, t=None: ({}, {}), implicit=kind == 'implicit')


def compose(target, comps):
    if target == 'tendency':
        return sympl.TendencyComponentComposite(*comps)
    if target == 'implicit':
        return sympl.ImplicitTendencyComponentComposite(*comps)
    if target == 'diagnostic':
        return sympl.DiagnosticComponentComposite(*comps)
    return sympl.AdamsBashforth(*comps)


def dims_combined(ctx, B):
    """dimension names are symbolic"""
    what, target = ctx.choose('target', B['targets'])
    kind = {'tendency': 'tendency', 'implicit': 'implicit', 'diagnostic': 'diagnostic',
            'ab': 'tendency'}[target]
    n = ctx.choose('members', B['members'])
    pool = ['x%d' % i for i in range(B['pool'])]
    specs = []
    inherit = what == 'tendency_properties' and ctx.flag('dims inherited')
    for i in range(n):
        k = ctx.choice('ndims%d' % i, B['max_dims'] + 1)
        names = [ctx.name('m%d_%d' % (i, j), pool) for j in range(k)]
        ctx.assume(ctx.distinct(names))
        wild = ctx.flag('wild%d' % i)
        dims = list(names)
        if wild:
            dims.insert(ctx.choice('wild pos%d' % i, k + 1) if B.get('wild_pos') else 0, '*')
        specs.append((names, wild, dims))
    units = PROPS[what]
    perms = list(itertools.permutations(range(n)))
    perm = ctx.choose('order', perms if B.get('all_orders') else [perms[0], perms[-1]])
    originals = [list(s[2]) for s in specs]

    def go(order):
        comps = [build(kind, what, specs[i][2], units, inherit) for i in order]
        c = compose(target, comps)
        if target == 'ab':
            return [c.input_properties, c.output_properties] if what == 'tendency_properties' \
                else [c.input_properties]
        return [getattr(c, what)]
    r, e = ctx.attempt(lambda: go(perm), sympl.InvalidPropertyDictError)

    def subset(a, b):
        return ctx.land(*[ctx.isin(x, b) for x in a])
    plain = [s for s in specs if not s[1]]
    wilds = [s for s in specs if s[1]]
    if plain:
        base = plain[0][0]
        ok = ctx.land(*[ctx.land(subset(s[0], base), subset(base, s[0])) for s in plain[1:]] +
                      [subset(s[0], base) for s in wilds])
        allnames = [x for s in specs for x in s[0]]
    else:
        ok = True
        allnames = [x for s in specs for x in s[0]]
    if e is None:
        ctx.reach('accepted')
        ctx.check(ok, 'incompatible dims accepted')
        for props in r:
            ctx.check('q' in props, 'quantity present')
            if 'q' not in props:
                continue
            got = list(props['q']['dims'])
            stars = [g for g in got if isinstance(g, str) and type(g) is str and g == '*']
            rest = [g for g in got if not (type(g) is str and g == '*')]
            ctx.check(len(stars) == (0 if plain else 1), 'wildcard in the combined dims iff all have one')
            ctx.check(ctx.distinct(rest), 'no dimension twice')
            ctx.check(ctx.land(subset(rest, allnames), subset(allnames, rest)),
                      'combined dims are the dims of the members')
            ctx.check(same_units(props['q']['units'], 'm s^-1' if (
                what == 'tendency_properties' and target != 'ab') else 'm'), 'units')
    else:
        ctx.reach('rejected')
        ctx.check(ctx.lnot(ok), 'compatible dims rejected: %s' % e)
    for s, o in zip(specs, originals):
        ctx.check(len(s[2]) == len(o) and all(a is b for a, b in zip(s[2], o)),
                  'declared dims changed by combining')


UG = [['m', 'km'], ['degK'], ['kg/kg', 'g/kg']]


def units_combined(ctx, B):
    what, target = ctx.choose('target', B['targets'])
    kind = {'tendency': 'tendency', 'implicit': 'implicit', 'diagnostic': 'diagnostic',
            'ab': 'tendency'}[target]
    us = [(g, u) for g in range(len(UG)) for u in UG[g]]
    n = ctx.choose('members', B['members'])
    ch = [ctx.choose('units%d' % i, us) for i in range(n)]
    names = [ctx.name('name%d' % i, ['p', 'r', 's']) for i in range(n)]
    comps = []
    for (g, u), nm in zip(ch, names):
        if what == 'input_properties':
            ins, tend = {nm: {'dims': ['x'], 'units': u}}, {}
        else:
            ins, tend = {'o': {'dims': ['x'], 'units': 'm'}}, \
                {nm: {'dims': ['x'], 'units': u + ' s^-1'}}
        if kind == 'diagnostic':
            comps.append(diagnostic_component(ins, {}, lambda s: {}))
        else:
            comps.append(tendency_component(ins, tend, {}, lambda s, t=None: ({}, {}),
                                            implicit=kind == 'implicit'))
    c, e = ctx.attempt(lambda: compose(target, comps), sympl.InvalidPropertyDictError)
    bad = ctx.lor(*[ctx.land(names[i] == names[j], ch[i][0] != ch[j][0])
                    for i in range(n) for j in range(i)])
    if e is None:
        ctx.reach('accepted')
        ctx.check(ctx.lnot(bad), 'incompatible units accepted for one quantity')
        props = c.input_properties if target == 'ab' else getattr(c, what)
        if target == 'ab':
            outp = c.output_properties
        for i, nm in enumerate(names):
            ctx.check(nm in props, 'every quantity listed')
            if nm in props:
                got = props[nm]['units']
                want = ch[i][1] + (' s^-1' if what == 'tendency_properties' and target != 'ab' else '')
                ctx.check(compatible(got, want), 'units %s of combined not convertible to %s' % (got, want))
            if target == 'ab' and what == 'tendency_properties':
                ctx.check(nm in outp and compatible(outp[nm]['units'], ch[i][1]),
                          'output units of stepper')
    else:
        ctx.reach('rejected')
        ctx.check(bad, 'compatible units rejected: %s' % e)


def compatible(a, b):
    r = _ureg_()
    return r.parse_units(a).dimensionality == r.parse_units(b).dimensionality


def _ureg_():
    from .common import _ureg
    return _ureg()


def called(ctx, B):
    """what a composite returns is what its properties state: units and dimensions of every quantity"""
    what = ctx.choose('composite', ['tendency', 'implicit', 'nested'])
    n = ctx.choose('members', B['members'])
    specs = [ctx.choose('dims%d' % i, B['dims']) for i in range(n)]
    units = [ctx.choose('units%d' % i, B['units']) for i in range(n)]
    lengths = {'x': 2, 'y': 3}
    v = ctx.array('v', (2, 3))
    comps = []
    for i in range(n):
        u, dims = units[i], specs[i]

        def run(s, dt, i=i):
            return {'tendencies': {'q': s['q'] * (i + 1)}, 'diagnostics': {'d%d' % i: s['q'] * 1}}
        kind = 'implicit' if what == 'implicit' and i == n - 1 else 'tendency'
        tend = {'units': u + ' s^-1'}
        if i % 2:
            tend['dims'] = list(dims)
        comps.append(make_component(kind, {'q': {'dims': list(dims), 'units': u}}, run, tendencies={'q': tend},
                                    diagnostics={'d%d' % i: {'dims': list(dims), 'units': u}}))
    if what == 'nested':
        c = comps[0]
        for m in comps[1:]:
            c = sympl.TendencyComponentComposite(c, m)
    else:
        c = compose(what, comps)
    decl = {p: {k: (x['units'], tuple(x['dims'])) for k, x in getattr(c, p).items()}
            for p in ('tendency_properties', 'diagnostic_properties', 'input_properties')}
    state = {'time': ctx.date('t'), 'q': da(v, ('x', 'y'), 'm')}
    tend, diag = c(state, MS) if what == 'implicit' else c(state)
    for p, out in (('tendency_properties', tend), ('diagnostic_properties', diag)):
        ctx.check(set(out) == set(decl[p]), '%s: %s returned' % (p, sorted(out)))
        for k in out:
            ctx.check(same_units(out[k].attrs['units'], decl[p][k][0]), '%s of %s: %r returned, %r declared' % (
                p, k, out[k].attrs['units'], decl[p][k][0]))
            d = [x for x in decl[p][k][1] if x != '*']
            ctx.check(set(d) <= set(out[k].dims) if '*' in decl[p][k][1] else set(d) == set(out[k].dims),
                      '%s: dims %s of %s, declared %s' % (p, out[k].dims, k, decl[p][k][1]))
    ctx.check(set(tend['q'].dims) == {'x', 'y'}, 'dims')
    f = unit_factor(decl['tendency_properties']['q'][0], 'm s^-1')
    got = tend['q'].values if tend['q'].dims == ('x', 'y') else np.transpose(tend['q'].values)
    ctx.close(got * (f if ctx.symbolic else float(f)), v * sum(range(1, n + 1)), 'sum in the declared units', tol=1e-9)
    ctx.check({p: {k: (x['units'], tuple(x['dims'])) for k, x in getattr(c, p).items()} for p in decl} == decl,
              'properties after the call')
    ctx.reach(what)


ALL = [('input_properties', 'tendency'), ('tendency_properties', 'tendency'),
       ('input_properties', 'implicit'), ('tendency_properties', 'implicit'),
       ('input_properties', 'diagnostic'), ('tendency_properties', 'ab'), ('input_properties', 'ab')]
HARNESSES = [
    Harness('dims_pairs', dims_combined,
            dict(targets=ALL, members=[2], pool=3, max_dims=2, all_orders=True),
            dict(targets=ALL, members=[2], pool=4, max_dims=3, all_orders=True, wild_pos=True),
            reach=['accepted', 'rejected'], note='dimension names symbolic'),
    Harness('dims_triples', dims_combined,
            dict(targets=[ALL[0]], members=[3], pool=2, max_dims=1, all_orders=True),
            dict(targets=[ALL[0], ALL[3]], members=[3], pool=2, max_dims=2, all_orders=True),
            reach=['accepted', 'rejected'], note='dimension names symbolic'),
    Harness('units', units_combined, dict(targets=[ALL[0], ALL[3], ALL[4], ALL[5]], members=[2]),
            dict(targets=ALL, members=[2, 3]), reach=['accepted', 'rejected'],
            note='quantity names symbolic'),
    Harness('called', called, dict(members=[2, 3], dims=[['x', 'y'], ['y', 'x'], ['*'], ['y', '*']], units=['m', 'km']),
            dict(members=[2, 3, 4], dims=[['x', 'y'], ['y', 'x'], ['*'], ['y', '*']], units=['m', 'km', 'cm']),
            reach=['tendency', 'implicit', 'nested']),
    large.COMBINED,
]
HARNESSES.append(histories.SUMS)
ASSUMPTIONS = ['a declaration without wildcard stands for exactly its dimensions, one with wildcard '
               'for any superset of its explicit dimensions']
