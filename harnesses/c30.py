"""C30 get_component_aliases."""
from .common import *
from . import large

PRIORITY = ['input', 'output', 'diagnostic', 'tendency']


class Thing(object):
    pass


def aliases(ctx, B):
    """names are symbolic: any two declarations may be of the same quantity"""
    n = 1 + ctx.choice('components', B['components'])
    k = 1 + ctx.choice('declarations', B['declarations'])
    pool = ['n%d' % i for i in range(k)]
    comps = [Thing() for _ in range(n)]
    decl = []
    for i in range(k):
        c = ctx.choice('component of %d' % i, n)
        kind = ctx.choose('dictionary of %d' % i, PRIORITY)
        name = ctx.name('name%d' % i, pool)
        al = 'alias%d' % i if ctx.flag('alias %d' % i) else None
        # one entry per quantity in a dictionary
        for c2, kind2, name2, _ in decl:
            if c2 == c and kind2 == kind:
                ctx.assume(name != name2)
        decl.append((c, kind, name, al))
    for c, kind, name, al in decl:
        d = comps[c].__dict__.setdefault(kind + '_properties', {})
        d[name] = {'units': 'm', 'dims': ['x']}
        if al:
            d[name]['alias'] = al
    got = sympl.get_component_aliases(*comps)
    # which alias must be reported: one of those of highest priority
    for i, (c, kind, name, al) in enumerate(decl):
        present = ctx.isin(name, list(got))
        has = al is not None
        best = []
        for c2, kind2, name2, al2 in decl:
            if al2 is not None:
                has = ctx.lor(has, name == name2)
        ctx.check(ctx.lor(ctx.land(present, has), ctx.land(ctx.lnot(present), ctx.lnot(has))),
                  'alias reported exactly for quantities with one')
        if name in got:
            alias = got[name]
            j = [x[3] for x in decl].index(alias) if alias in [x[3] for x in decl] else None
            ctx.check(j is not None, 'alias %r was declared' % (alias,))
            if j is None:
                continue
            ctx.check(decl[j][2] == name, 'alias %r belongs to the quantity' % alias)
            for c2, kind2, name2, al2 in decl:
                if al2 is not None and PRIORITY.index(kind2) < PRIORITY.index(decl[j][1]):
                    ctx.check(ctx.lnot(name2 == name), 'alias of %s properties goes before that of %s properties' % (
                        kind2, decl[j][1]))
    ctx.check(len(got) <= k, 'nothing else is reported')
    ctx.reach('done')


def real(ctx, B):
    """with real components of every kind; the property dictionaries are left alone; the result fits NetCDFMonitor"""
    kind, slot = ctx.choose('slot', SLOTS)
    ia, oa = ctx.flag('input alias'), ctx.flag('output alias')
    inputs = {'q': {'dims': ['x'], 'units': 'm'}}
    if ia:
        inputs['q']['alias'] = 'Q'
    props = {'q': {'dims': ['x'], 'units': 'm s^-1' if slot == 'tendencies' else 'm'}, 'd': {'dims': ['x'], 'units': 's'}}
    if oa:
        props['q']['alias'] = 'P'
        props['d']['alias'] = 'D'
    before = ({k: dict(v) for k, v in inputs.items()}, {k: dict(v) for k, v in props.items()})
    comp = make_component(kind, inputs, lambda s, t: {}, **slot_props(slot, props))
    got = sympl.get_component_aliases(comp)
    want = {}
    if oa:
        want.update({'q': 'P', 'd': 'D'})
    if ia:
        want['q'] = 'Q'
    ctx.check(got == want, 'aliases %s' % got)
    ctx.check((inputs, props) == before, 'property dictionaries')
    got['q'] = 'x'
    ctx.check(sympl.get_component_aliases(comp) == want, 'second call')
    ctx.check(sympl.get_component_aliases() == {}, 'without components')
    ctx.reach('done')


HARNESSES = [
    Harness('aliases', aliases, dict(components=2, declarations=2), dict(components=2, declarations=3), reach=['done'],
            note='names of the quantities symbolic'),
    Harness('real', real, dict(), reach=['done']),
    large.ALIASES,
]
ASSUMPTIONS = ['which alias is reported among those of the same priority is left open, as documented']
