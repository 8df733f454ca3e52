"""C26 diagnostic composites, monitor composites, plot monitor."""
import sys
import types
from .common import *
from . import shapes
from . import large

UNITS = {'d': 'K', 'e': 'm', 'f': 'kg'}


def diagnostics(ctx, B):
    n = ctx.choice('number of members', B['n']) + 1
    order = []
    prod, comps = [], []
    for i in range(n):
        names = ctx.choose('diagnostics of member %d' % i, B['sets'])
        reads = ctx.choose('member %d reads' % i, B['reads'])
        prod.append((names, reads))
    dup = any(set(prod[i][0]) & set(prod[j][0]) for i in range(n) for j in range(i))
    empty = ctx.flag('one of the members has no diagnostics') if B.get('empty') else False

    def member(i, names, reads):
        def fn(state, timestep):
            order.append((i, set(state)))
            return {'diagnostics': {m: state[reads] * (i + 2) + k for k, m in enumerate(names)}}
        return make_component('diagnostic', {reads: {'dims': ['x'], 'units': 'K' if reads != 'e' else 'm'}}, fn, class_name='Part%d' % (9 - i),
                              diagnostics={m: {'dims': ['x'], 'units': UNITS[m]} for m in names})
    comps = [member(i, a, b) for i, (a, b) in enumerate(prod)]
    if empty:
        comps.append(make_component('diagnostic', {}, lambda s, t: {'diagnostics': {}}))
    r, err = ctx.attempt(lambda: sympl.DiagnosticComponentComposite(*comps), sympl.SharedKeyError)
    ctx.check((err is not None) == dup, 'duplicates are rejected with SharedKeyError when the composite is created')
    if err is not None or r is None:
        ctx.reach('duplicate')
        return
    comp = r
    want_props = {m for a, b in prod for m in a}
    ctx.check(set(comp.diagnostic_properties) == want_props, 'diagnostic properties')
    hist = []
    for k in range(B['calls']):
        state = {'time': ctx.date('t%d' % k), 'q': da(ctx.array('q%d' % k, (2,)), 'x', 'K'),
                 'd': da(ctx.array('d%d' % k, (2,)), 'x', 'K'), 'e': da(ctx.array('e%d' % k, (2,)), 'x', 'm')}
        vals = {m: np.array(state[m].values) for m in 'qde'}
        snap = snapshot(state)
        del order[:]
        got = comp(state)
        check_unmodified(ctx, snap, state, 'state', identity=True)
        ctx.check([o[0] for o in order] == list(range(n)), 'each member is called once, in order')
        ctx.check(set(got) == want_props, 'union of the diagnostics')
        for i, (names, reads) in enumerate(prod):
            for j, m in enumerate(names):
                if m in got:
                    ctx.close(got[m].values, vals[reads] * (i + 2) + j, 'diagnostic %s of member %d' % (m, i))
                    ctx.check(same_units(got[m].attrs['units'], UNITS[m]) and tuple(got[m].dims) == ('x',), 'label')
        for s, o in hist:
            check_unmodified(ctx, s, o, 'earlier results')
        hist.append((snapshot(got), got))
    ctx.reach('done')


class Mon(sympl.Monitor):
    def __init__(self, i, log):
        self.i, self.log = i, log

    def store(self, state):
        self.log.append((self.i, state, snapshot(state)))


def monitors(ctx, B):
    n = ctx.choice('number of members', B['n'] + 1)
    log = []
    up = ctx.flag('names in order')
    members = [type('Mon%d' % (i if up else 9 - i), (Mon,), {})(i, log) for i in range(n)]
    if n > 1 and ctx.flag('the same monitor twice'):
        members[-1] = members[0]
    comp = sympl.MonitorComposite(*members)
    for k in range(B['calls']):
        state = {'time': ctx.date('t%d' % k), 'q': da(ctx.array('q%d' % k, (2,)), 'x', 'K'),
                 's': da(np.array(ctx.real('s%d' % k)), (), 'm')}
        snap = snapshot(state)
        del log[:]
        comp.store(state)
        check_unmodified(ctx, snap, state, 'state', identity=True)
        ctx.check([x[0] for x in log] == [m.i for m in members], 'each member stores the state once, in order')
        for i, given, seen in log:
            ctx.check(set(seen) == set(snap), 'quantities of member %d' % i)
            for q in ('q', 's'):
                if q in seen:
                    ctx.same(seen[q][0], snap[q][0], 'state given to member %d' % i)
                    ctx.check(seen[q][1:3] == snap[q][1:3], 'labels given to member %d' % i)
            ctx.check(seen.get('time') is state['time'] or seen.get('time') == state['time'], 'time')
    ctx.reach('done')


class Fig(object):
    def __init__(self, log, k):
        self.log, self.k = log, k
        self.content = 0
        self.canvas = types.SimpleNamespace(draw=lambda *a, **kw: log.append(('draw', k)),
                                            draw_idle=lambda *a, **kw: log.append(('draw', k)),
                                            flush_events=lambda *a, **kw: None)

    def clear(self, *a, **k):
        self.content = 0
    clf = clear


def _pyplot(log):
    m = types.ModuleType('matplotlib.pyplot')
    figs = []

    def figure(*a, **k):
        f = Fig(log, len(figs))
        figs.append(f)
        return f
    m.figure = figure
    m.show = lambda *a, **k: log.append(('show',))
    for n in ('ion', 'ioff', 'pause', 'draw', 'close', 'clf'):
        setattr(m, n, lambda *a, **k: None)
    return m


def plotting(ctx, B):
    interactive = ctx.flag('interactive')
    meddle = ctx.choice('what the plot function does to its state', 5)
    log, seen = [], []
    old = {k: sys.modules.get(k) for k in ('matplotlib', 'matplotlib.pyplot')}
    plt = _pyplot(log)
    pkg = types.ModuleType('matplotlib')
    pkg.pyplot = plt
    sys.modules['matplotlib'], sys.modules['matplotlib.pyplot'] = pkg, plt

    def plot(fig, state):
        seen.append((fig, fig.content, snapshot(state)))
        fig.content += 1
        if meddle == 1:
            state['q'].values[...] = 0
        elif meddle == 2:
            state['q'] *= 2
            state['q'].attrs['units'] = 'nonsense'
        elif meddle == 3:
            del state['q']
            state['new'] = 1
        elif meddle == 4:
            state['n'].values[...] += 1
            state['q'].attrs.clear()
            state['time'] = None
    try:
        mon = sympl.PlotFunctionMonitor(plot, interactive=interactive)
        ctx.check(bool(mon.interactive) == interactive, 'interactive')
        for k in range(B['calls']):
            state = {'time': ctx.date('t%d' % k), 'q': da(ctx.array('q%d' % k, (2,)), 'x', 'K', note='z'),
                     'n': da(np.array([k, 2]), 'y', 'm'), 's': da(np.array(ctx.real('s%d' % k)), (), 'm'), 'other': 3}
            snap = snapshot(state)
            del seen[:]
            mon.store(state)
            check_unmodified(ctx, snap, state, 'state', identity=True)
            ctx.check(len(seen) == 1, 'plot function called once')
            if len(seen) != 1:
                continue
            fig, content, given = seen[0]
            ctx.check(content == 0, 'the figure is clear')
            ctx.check(set(given) == set(snap), 'quantities given')
            for q in ('q', 'n', 's'):
                if q in given:
                    ctx.same(given[q][0], snap[q][0], 'values of %s given' % q)
                    ctx.check(given[q][1:3] == snap[q][1:3], 'labels of %s given' % q)
            ctx.check(given.get('other') == 3 and given.get('time') == state['time'], 'other entries')
    finally:
        for k, v in old.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
    ctx.reach('done')


HARNESSES = [
    Harness('diagnostics', diagnostics, dict(n=2, sets=[('d',), ('e', 'f'), ('d', 'f'), ()], reads=['q', 'd', 'e'],
                                             calls=2, empty=True),
            dict(n=3, sets=[('d',), ('e', 'f'), ('d', 'f'), ()], reads=['q', 'd'], calls=2, empty=True),
            reach=['duplicate', 'done']),
    Harness('three members', diagnostics, dict(n=3, sets=[('d',), ('e',), ('f',)], reads=['q'], calls=2),
            reach=['duplicate', 'done']),
    Harness('monitors', monitors, dict(n=3, calls=2), dict(n=5, calls=3), reach=['done']),
    Harness('plotting', plotting, dict(calls=3), reach=['done'],
            stubs=['matplotlib.pyplot is a stand-in that records figures and whether they are clear']),
    large.MEMBERS,
]
ASSUMPTIONS = ['states hold labelled quantities and immutable other entries']
HARNESSES.append(shapes.COMPOSITES)
