"""C24 recognition of component kinds."""
from .common import *

KINDC = {'tendency': sympl.TendencyComponent, 'implicit': sympl.ImplicitTendencyComponent,
         'diagnostic': sympl.DiagnosticComponent, 'stepper': sympl.Stepper}
ATTRS = ['input_properties', 'tendency_properties', 'diagnostic_properties', 'output_properties', 'array_call',
         'tendencies_in_diagnostics']
# kind: attributes it has / must not have, and whether it is called with a timestep
TABLE = {
    'tendency': (['input_properties', 'tendency_properties', 'diagnostic_properties', 'array_call',
                  'tendencies_in_diagnostics'], ['output_properties'], False),
    'diagnostic': (['input_properties', 'diagnostic_properties', 'array_call'],
                   ['tendency_properties', 'output_properties', 'tendencies_in_diagnostics'], False),
    'stepper': (['input_properties', 'diagnostic_properties', 'output_properties', 'array_call',
                 'tendencies_in_diagnostics'], ['tendency_properties'], True),
}
TABLE['implicit'] = TABLE['tendency'][:2] + (True,)
SIGS = ['none', 'state', 'state, timestep', 'timestep optional', 'state, other', 'state, other optional']


def duck(has, sig, namer=None):
    """an object which inherits from nothing; has(attribute) says whether it has it"""
    def __getattr__(self, name):
        if name in ATTRS:
            if has(name):
                return False if name == 'tendencies_in_diagnostics' else {}
        raise AttributeError(name)
    ns = {'__getattr__': __getattr__, 'name': 'duck'}
    if sig == 'state':
        ns['__call__'] = lambda self, state: None
    elif sig == 'state, timestep':
        ns['__call__'] = lambda self, state, timestep: None
    elif sig == 'timestep optional':
        ns['__call__'] = lambda self, state, timestep=None: None
    elif sig == 'state, other':
        ns['__call__'] = lambda self, state, other: None
    elif sig == 'state, other optional':
        ns['__call__'] = lambda self, state, other=None: None
    return type('Duck', (object,), ns)()


def ducks(ctx, B):
    """presence of each attribute is symbolic: asked lazily by the code, decided by the solver"""
    sig = ctx.choose('call', SIGS)
    kind = ctx.choose('kind', KINDS)
    flags = {a: ctx.integer('has ' + a, 0, 1) for a in ATTRS}
    obj = duck(lambda n: bool(flags[n] == 1), sig)
    r = isinstance(obj, KINDC[kind])
    need, ban, timestep = TABLE[kind]
    want = ctx.land(*([flags[a] == 1 for a in need] + [flags[a] == 0 for a in ban]))
    if sig == 'none':
        want = False
    elif timestep:
        want = ctx.land(want, sig in ('state, timestep', 'timestep optional'))
    else:
        want = ctx.land(want, sig != 'state, timestep')
    ctx.check(ctx.iff(bool(r), want), 'recognised as %s exactly when it has the interface (%s)' % (kind, sig))
    if r:
        ctx.reach('accepted')
    ctx.check(isinstance(obj, KINDC[kind]) == r, 'repeatable')

    class Sub(KINDC[kind]):
        pass
    ctx.check(not isinstance(obj, Sub), 'not an instance of a subclass')
    ctx.reach('done')


class Mon(sympl.Monitor):
    def store(self, state):
        pass


class NotMon(object):
    def __call__(self, state):
        pass


def real(kind):
    """a component of each kind, by inheritance"""
    ins = {'q': {'dims': ['x'], 'units': 'K'}}
    if kind in ('tendency', 'implicit'):
        return make_component(kind, ins, lambda s, t: {'tendencies': {'q': s['q']}},
                              tendencies={'q': {'dims': ['x'], 'units': 'K s^-1'}})
    if kind == 'diagnostic':
        return make_component(kind, ins, lambda s, t: {'diagnostics': {'d': s['q']}},
                              diagnostics={'d': {'dims': ['x'], 'units': 'K'}})
    return make_component(kind, ins, lambda s, t: {'new_state': {'q': s['q']}},
                          outputs={'q': {'dims': ['x'], 'units': 'K'}})


def member(what):
    """object, set of kinds it is"""
    kind, how = what
    if kind in KINDS:
        if how == 'real':
            return real(kind), {kind}
        need, ban, ts = TABLE[kind]
        o = duck(lambda n: n in need, 'state, timestep' if ts else 'state')
        return o, {kind}
    if kind == 'monitor':
        return Mon(), {'monitor'}
    if kind == 'object':
        return object(), set()
    return NotMon(), set()


CONS = {   # constructor: kinds accepted
    'TendencyComponentComposite': {'tendency'}, 'ImplicitTendencyComponentComposite': {'tendency', 'implicit'},
    'DiagnosticComponentComposite': {'diagnostic'}, 'MonitorComposite': {'monitor'},
    'AdamsBashforth': {'tendency', 'implicit'}, 'Leapfrog': {'tendency', 'implicit'},
    'SSPRungeKutta': {'tendency', 'implicit'}, 'ScalingWrapper': {'tendency', 'implicit', 'diagnostic', 'stepper'},
}
WHAT = [(k, h) for k in KINDS for h in ('real', 'duck')] + [('monitor', ''), ('object', ''), ('callable', '')]


def constructors(ctx, B):
    con = ctx.choose('constructor', list(CONS))
    C = getattr(sympl, con)
    a, ak = member(ctx.choose('member', WHAT))
    if con == 'ScalingWrapper':
        args, ok = [a], bool(ak & CONS[con])
    else:
        filler = {'MonitorComposite': Mon(), 'DiagnosticComponentComposite':
                  make_component('diagnostic', {}, lambda s, t: {'diagnostics': {}})}.get(con)
        if filler is None:
            filler = make_component('tendency', {}, lambda s, t: {})
        pos = ctx.choose('position', ['alone', 'first', 'last', 'middle'])
        args = {'alone': [a], 'first': [a, filler], 'last': [filler, a], 'middle': [filler, a, filler]}[pos]
        ok = bool(ak & CONS[con])
    r, err = ctx.attempt(lambda: C(*args), TypeError)
    if ok:
        ctx.check(err is None, '%s accepts %s' % (con, sorted(ak)))
        ctx.reach('accepted')
        if hasattr(r, 'component_list'):
            ctx.check(list(r.component_list) == args, 'members, in order')
    else:
        ctx.check(err is not None, '%s rejects %s' % (con, sorted(ak) or type(a)))
        ctx.reach('rejected')


def kinds(ctx, B):
    """library objects are of their own kind and of no other"""
    k = ctx.choose('kind', KINDS)
    c = real(k)
    objs = {'component': (c, {k}),
            'updates': (sympl.UpdateFrequencyWrapper(c, SEC), {k}),
            'scaled': (sympl.ScalingWrapper(c), {k}),
            'scaled updates': (sympl.ScalingWrapper(sympl.UpdateFrequencyWrapper(c, SEC)), {k})}
    if k == 'tendency':
        objs['composite'] = (sympl.TendencyComponentComposite(c, c), {k})
    if k in ('tendency', 'implicit'):
        objs['implicit composite'] = (sympl.ImplicitTendencyComponentComposite(c), {'implicit'})
        objs['stepper'] = (sympl.AdamsBashforth(c), {'stepper'})
    if k == 'diagnostic':
        objs['composite'] = (sympl.DiagnosticComponentComposite(c), {k})
    if k == 'stepper':
        objs['time differencing'] = (sympl.TimeDifferencingWrapper(c), {'implicit'})
    n = ctx.choose('object', sorted(objs))
    o, want = objs[n]
    wrapped = n in ('updates', 'scaled', 'scaled updates')
    for kk in KINDS:
        got = isinstance(o, KINDC[kk])
        if wrapped and {kk} | want == {'tendency', 'implicit'} and kk not in want:
            continue        # wrappers can be called with and without a timestep
        ctx.check(bool(got) == (kk in want), '%s of %s is %s' % (n, k, kk))
    ctx.check(not isinstance(o, sympl.Monitor), 'not a monitor')
    ctx.reach('done')


HARNESSES = [
    Harness('ducks', ducks, dict(), reach=['accepted', 'done']),
    Harness('constructors', constructors, dict(), reach=['accepted', 'rejected']),
    Harness('kinds', kinds, dict(), reach=['done']),
]
ASSUMPTIONS = ['ducks have a name', 'a default other than None for the timestep argument is not considered',
               'wrapped tendency components can be called with and without a timestep, so they count as both kinds',
               'component classes given instead of instances are not considered']
