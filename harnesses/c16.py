"""C16 tracer registry."""
from .common import *
from . import large
from sympl._core.exceptions import InvalidPropertyDictError

SAME = {'kg': 0, 'kilogram': 0, 'g': 1, 'm': 2, 'meter': 2, '': 3, 'dimensionless': 3}


def registry(ctx, B):
    model = []                  # [name, unit class] in order of first registration
    pool = B['pool']
    vetoes = []                 # names that are outputs of components using tracers
    kind = ctx.choose('kind', B['kinds'])

    def make(outputs, prepend=()):
        u = 'K' if kind == 'stepper' else 'K s^-1'
        props = {n: {'dims': ['x'], 'units': u} for n in outputs}
        attrs = {'uses_tracers': True, 'tracer_dims': ('tracer', 'x')}
        if prepend:
            attrs['prepend_tracers'] = list(prepend)
        return make_component(kind, {}, lambda s, t: {}, class_attrs=attrs,
                              **({'outputs': props} if kind == 'stepper' else {'tendencies': props}))

    def names_ok(label):
        names = sympl.get_tracer_names()
        units = sympl.get_tracer_unit_dict()
        ctx.check(isinstance(names, tuple), 'get_tracer_names gives a tuple')
        ctx.check(len(names) == len(model), '%s: %d names, expected %d' % (label, len(names), len(model)))
        for got, (want, _) in zip(names, model):
            ctx.check(got == want, '%s: names in order of first registration' % label)
        ctx.check(len(units) == len(model), '%s: %d units' % (label, len(units)))
        for want, cls in model:
            u = [units[k] for k in units if k == want]
            ctx.check(len(u) == 1 and SAME[u[0]] == cls, '%s: units first given' % label)
        units.clear()           # a caller may do what it likes with what it is given
        ctx.check(len(sympl.get_tracer_unit_dict()) == len(model), '%s: registry is not handed out' % label)

    def is_in(n, names):
        for m in names:
            if n == m:
                return True
        return False
    names_ok('start')
    for k in range(B['ops']):
        op = ctx.choice('op%d' % k, B['optypes'])      # 0 register, 1 create component, 2 create with prepended
        n = ctx.name('n%d' % k, pool)
        if op == 0:
            u = ctx.choose('u%d' % k, B['units'])
            err = None
            try:
                sympl.register_tracer(n, u)
            except ValueError as e:      # InvalidPropertyDictError may be a ValueError
                err = e
            except InvalidPropertyDictError as e:
                err = e
            known = [m for m in model if m[0] == n]
            bad_units = bool(known) and known[0][1] != SAME[u]
            veto = is_in(n, vetoes)
            ctx.check((err is not None) == (bad_units or veto),
                      'registration %d is %s' % (k, 'accepted' if err is None else 'rejected: %r' % err))
            if err is None and not known:
                model.append([n, SAME[u]])
            if err is not None:
                ctx.reach('rejected')
        else:
            conflict = is_in(n, [m[0] for m in model])
            err = None
            if op == 1:
                try:
                    make([n])
                except (ValueError, InvalidPropertyDictError) as e:
                    err = e
            else:
                # the prepended tracer is (conflict) or is not an output of the component
                m = ctx.name('p%d' % k, pool)
                conflict = conflict or (m == n)
                known = [x for x in model if x[0] == m]
                pu = 'kg' if not known else {0: 'kg', 1: 'g', 2: 'm', 3: ''}[known[0][1]]
                try:
                    make([n], [(m, pu)])
                except (ValueError, InvalidPropertyDictError) as e:
                    err = e
            ctx.check((err is not None) == conflict,
                      'component %d whose output is a tracer is %s' % (k, 'accepted' if err is None else 'rejected'))
            if err is None:
                vetoes.append(n)
                ctx.reach('component')
        names_ok('after op %d' % k)
    ctx.reach('done')


HARNESSES = [
    Harness('registrations', registry,
            dict(pool=['a', 'b', 'c'], kinds=['tendency'], ops=4, optypes=1, units=['kg', 'kilogram', 'g', '', 'dimensionless']),
            dict(pool=['a', 'b', 'c', 'd'], kinds=['tendency'], ops=5, optypes=1, units=['kg', 'kilogram', 'g']),
            reach=['done', 'rejected']),
    Harness('components', registry,
            dict(pool=['a', 'b', 'c'], kinds=['tendency', 'stepper', 'implicit'], ops=3, optypes=3, units=['kg', 'g', '']),
            dict(pool=['a', 'b', 'c'], kinds=['tendency', 'stepper', 'implicit'], ops=4, optypes=3, units=['kg', '']),
            reach=['done', 'rejected', 'component']),
    large.REGISTRY,
]
ASSUMPTIONS = ['names are symbolic: any equality pattern between them',
               'components that use tracers stay alive (a component vetoes its outputs as tracers for good)']
