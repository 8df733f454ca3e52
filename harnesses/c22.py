"""C22 ConstantTendencyComponent, ConstantDiagnosticComponent, RelaxationTendencyComponent."""
from .common import *
from . import shapes
from . import large
from . import numtypes

L = {'x': 2, 'y': 2}
QUANT = {   # name: dims, units
    'a': (('x',), 'K s^-1'),
    'b': (('y', 'x'), 'g/kg day^-1'),
    'c': ((), 'm'),
}
UNITS = {   # units of the component -> units of the state: (factor, offset) to the units of the component
    'K': [('K', F(1), F(0)), ('degC', F(1), F(27315, 100)), ('mK', F(1, 1000), F(0))],
    'km': [('m', F(1, 1000), F(0)), ('km', F(1), F(0))],
    '': [('percent', F(1, 100), F(0)), ('', F(1), F(0)), ('g/kg', F(1, 1000), F(0))],
}
TAU = [('s', F(1)), ('hour', F(3600)), ('minute', F(60))]


def num(ctx, x):
    return x if ctx.symbolic else float(x)


def unit_scale(u):
    """(factor to base units, dimensionality) of a unit label, which may hold a number"""
    r = _reg()
    q = r.parse_expression(u.replace('%', 'percent')) if u.strip() else r.Quantity(1.)
    if not hasattr(q, 'to_base_units'):
        q = r.Quantity(float(q))
    q = (q * r.Quantity(1.)).to_base_units()
    return F(float(q.magnitude)).limit_denominator(10**12), dict(q.dimensionality)


def _reg():
    from . import common
    return common._ureg()


def make_values(ctx, names, tag):
    out, vals = {}, {}
    for n in names:
        dims, u = QUANT[n]
        shape = tuple(L[d] for d in dims)
        v = ctx.array(n + tag, shape) if shape else np.array(ctx.real(n + tag))
        out[n] = da(v, dims, u, note=n)
        vals[n] = np.array(v)
    return out, vals


def constant(ctx, B):
    kind = ctx.choose('kind', ['tendency', 'diagnostic'])
    tn = ctx.choose('tendencies', B['sets']) if kind == 'tendency' else ()
    dn = ctx.choose('diagnostics', B['sets'])
    meddle = ctx.choice('what the caller does with results', 4)
    T, tv = make_values(ctx, tn, 'T')
    D, dv = make_values(ctx, dn, 'D')
    if kind == 'tendency':
        kw = {}
        tid = bool(tn) and 'b' not in tn and meddle == 0 and ctx.flag('tendencies_in_diagnostics')
        if tid:
            kw = dict(tendencies_in_diagnostics=True, name='given')
        comp = sympl.ConstantTendencyComponent(T, D, **kw) if dn or ctx.flag('empty diagnostics given') \
            else sympl.ConstantTendencyComponent(T, **kw)
        ctx.check(set(comp.tendency_properties) == set(tn), 'tendency properties')
        if tid:
            for n in tn:
                dv['%s_tendency_from_given' % n] = tv[n]
        other = sympl.ConstantTendencyComponent({'z': da(ctx.array('z', (2,)), 'x', 'm')})
    else:
        comp = sympl.ConstantDiagnosticComponent(D)
        other = sympl.ConstantDiagnosticComponent({'z': da(ctx.array('z', (2,)), 'x', 'm')})
    ctx.check(set(comp.diagnostic_properties) == set(dv), 'diagnostic properties')
    if meddle == 3:     # the dictionaries given are the caller's
        for x in (T, D):
            x['more'] = da(ctx.array('m', (2,)), 'x', 'm')
            x.pop('a', None)
    for k in range(B['calls']):
        state = {'time': ctx.date('t%d' % k), 'q': da(ctx.array('q%d' % k, (2,)), 'x', 'm')}
        snap = snapshot(state)
        r = comp(state)
        t, d = r if kind == 'tendency' else ({}, r)
        check_unmodified(ctx, snap, state, 'state')
        for what, got, want in (('tendencies', t, tv), ('diagnostics', d, dv)):
            tag = '%s of call %d' % (what, k + 1)
            ctx.check(set(got) == set(want), tag + ': quantities')
            for n in want:
                if n in got:
                    qd, qu = QUANT[n.replace('_tendency_from_given', '')]
                    ctx.check(tuple(got[n].dims) == qd, '%s: dims of %s' % (tag, n))
                    ctx.check(unit_scale(got[n].attrs['units']) == unit_scale(qu),
                              '%s: units of %s' % (tag, n))
                    ctx.same(got[n].values, want[n], '%s: %s' % (tag, n))
                    if meddle == 1:
                        got[n].values[...] = 7
                    elif meddle == 2:
                        got[n] *= 2
                        got[n].attrs['units'] = 'nonsense'
            if meddle:
                got.clear()
        other(state)
    ctx.reach('done')


def relaxation(ctx, B):
    u = ctx.choose('units', B['units'])
    name = ctx.choose('name', B['names'])
    qd = ctx.choose('dims', B['dims'])
    ed = ctx.choose('dims of equilibrium', B['dims'])
    td = ctx.choose('dims of timescale', B['dims'])
    qu, qf, qo = ctx.choose('units of quantity', UNITS[u])
    eu, ef, eo = ctx.choose('units of equilibrium', UNITS[u])
    tu, tf = ctx.choose('units of timescale', B['tau'])
    comp = sympl.RelaxationTendencyComponent(name, u)

    def arr(tag, dims, units, lo=-8, hi=8):
        shape = tuple(L[d] for d in dims)
        v = ctx.array(tag, shape, lo=lo, hi=hi) if shape else np.array(ctx.real(tag, lo, hi))
        return da(v, dims, units)
    for k in range(B['calls']):
        t = '%d' % k
        state = {'time': ctx.date('t' + t), name: arr('q' + t, qd, qu),
                 'equilibrium_' + name: arr('e' + t, ed, eu),
                 name + '_relaxation_timescale': arr('tau' + t, td, tu, 1, 100),
                 'other': arr('o' + t, ('x',), 'm')}
        snap = snapshot(state)
        tend, diag = comp(state)
        check_unmodified(ctx, snap, state, 'state')
        ctx.check(set(tend) == {name} and diag == {}, 'only the tendency is returned')
        out = tend[name]
        label = out.attrs['units']
        want_scale = unit_scale(u)
        got_scale = unit_scale(label)
        dim = dict(want_scale[1])
        dim['[time]'] = dim.get('[time]', 0) - 1
        ctx.check({a: b for a, b in dim.items() if b} == {a: b for a, b in got_scale[1].items() if b},
                  'dimensionality of the units %r' % label)
        ratio = want_scale[0] / got_scale[0]
        lens = {d: L[d] for d in set(qd) | set(ed) | set(td)}
        ctx.check(set(out.dims) == set(lens) and len(out.dims) == len(lens), 'dims %s' % (out.dims,))
        if set(out.dims) != set(lens):
            continue
        q = labelled(state[name], lens)
        e = labelled(state['equilibrium_' + name], lens)
        tau = labelled(state[name + '_relaxation_timescale'], lens)
        got = labelled(out, lens)
        for pos in q:
            dv = (e[pos] * num(ctx, ef) + num(ctx, eo)) - (q[pos] * num(ctx, qf) + num(ctx, qo))
            # multiplied by the timescale, so that the obligation is polynomial
            ctx.close(got[pos] * (tau[pos] * num(ctx, tf)), dv * num(ctx, ratio), 'call %d at %s' % (k + 1, pos),
                      tol=1e-6)
    ctx.reach('done')


def missing(ctx, B):
    """all three quantities come from the state"""
    comp = sympl.RelaxationTendencyComponent('q', 'K')
    state = {'time': ctx.date('t'), 'q': da(ctx.array('q', (2,)), 'x', 'K'),
             'equilibrium_q': da(ctx.array('e', (2,)), 'x', 'K'),
             'q_relaxation_timescale': da(ctx.array('t', (2,), lo=1, hi=9), 'x', 's')}
    k = ctx.choose('key', ['q', 'equilibrium_q', 'q_relaxation_timescale'])
    if ctx.flag('absent'):
        del state[k]
    else:
        state[k].attrs['units'] = 'kg'
    ctx.expect_exc(lambda: comp(state), sympl.InvalidStateError, '%s absent or inconvertible' % k)
    ctx.reach('done')


SETS = [(), ('a',), ('a', 'b'), ('c',)]
D4 = [(), ('x',), ('x', 'y'), ('y', 'x')]
HARNESSES = [
    Harness('constant', constant, dict(sets=SETS, calls=3), dict(sets=SETS + [('a', 'b', 'c')], calls=4), reach=['done']),
    Harness('relaxation', relaxation, dict(units=['K'], names=['q'], dims=D4, tau=TAU[:2], calls=1),
            dict(units=list(UNITS), names=['q', 'x'], dims=D4, tau=TAU, calls=2), reach=['done']),
    Harness('relaxation units', relaxation, dict(units=list(UNITS), names=['air_temperature'], dims=D4[1:2], tau=TAU,
                                                 calls=2), reach=['done']),
    Harness('missing', missing, dict(), reach=['done']),
    numtypes.SIMPLE,
    large.CONSTANTS,
]
ASSUMPTIONS = ['equilibrium and timescale are taken from the state (the constructor takes none)',
               'the units of a relaxation component are not offset units such as degC (pint refuses these loudly)',
               'arrays given to the constant components are not modified by the caller (documented)']
HARNESSES.append(shapes.SIMPLE)
