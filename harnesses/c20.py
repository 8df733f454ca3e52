"""C20 crash safety of RestartMonitor."""
import os
from symx import ncproxy
from symx.ncproxy import Crash, Faults
from .common import *
from .c19 import same_time

install, reset = ncproxy.install, ncproxy.forget


def holds(ctx, path, snap):
    """does this file completely hold the state (a formula over the symbolic values, or False)"""
    if ncproxy.key(path) in Faults.incomplete:
        return False
    try:
        got = sympl.RestartMonitor(path).load()
    except Exception:
        return False
    if set(got) != set(snap) or not same_time(got['time'], snap['time']):
        return False
    ok = []
    for n, w in snap.items():
        if n == 'time':
            continue
        g = got[n]
        if tuple(g.dims) != w[1] or g.attrs.get('units') != w[2]['units'] or np.shape(g.values) != np.shape(w[0]):
            return False
        for idx in np.ndindex(*np.shape(w[0])):
            ok.append(g.values[idx] == w[0][idx])
    return ctx.land(*ok) if ok else True


def make_state(ctx, k, names):
    st = {'time': dt.datetime(2000, 1, 1) + k * DAY}
    if 'q' in names:
        st['q'] = da(ctx.array('q%d' % k, (2,)), ('x',), 'K')
    if 's' in names:
        st['s'] = da(np.array(ctx.real('s%d' % k)), (), 'm')
    return st


def crash(ctx, B):
    d = ncproxy.scratch()
    path = os.path.join(d, 'restart.nc')
    names = ctx.choose('quantities', B['names'])
    before = ctx.choice('states stored before', B['before'])
    leftover = ctx.choose('leftover of an earlier crash', B['leftover'])
    mode = ctx.choose('failure', ['kill', 'error'])
    at = ctx.integer('operation', 0, B['ops'])
    snaps = []
    mon = sympl.RestartMonitor(path)
    for k in range(before):
        st = make_state(ctx, k, names)
        mon.store(st)
        snaps.append(snapshot(st))
    if leftover:
        # a file of an older state under the temporary names
        stale = make_state(ctx, 50, names)
        m = sympl.RestartMonitor(os.path.join(d, 'stale.nc'))
        m.store(stale)
        os.rename(os.path.join(d, 'stale.nc'), path + leftover)
    if ctx.choice('new process', B['fresh']):
        mon = sympl.RestartMonitor(path)
    new = make_state(ctx, 60, names)
    newsnap = snapshot(new)
    Faults.arm(mode, at)
    err = None
    try:
        mon.store(new)
    except Crash as e:
        err = e
    except Exception as e:
        err = e
    n_ops, died = Faults.count, Faults.dead
    Faults.off()
    ctx.check(n_ops < B['ops'], 'bound on the number of operations (%d)' % n_ops)
    if mode == 'kill':
        ctx.check(isinstance(err, Crash) == died, 'a crash is not swallowed')
    files = [os.path.join(d, f) for f in sorted(os.listdir(d))]
    if err is None:
        ctx.check(os.path.isfile(path), 'the named file exists')
        if os.path.isfile(path):
            ctx.check(holds(ctx, path, newsnap), 'after a successful store the named file has the new state')
        ctx.reach('success')
    elif snaps:
        ok = []
        for f in files:
            ok.append(holds(ctx, f, snaps[-1]))
            ok.append(holds(ctx, f, newsnap))
        ctx.check(ctx.lor(*ok), 'a complete file with the previous or the new state remains (%s)'
                  % [os.path.basename(f) for f in files])
        if os.path.isfile(path):
            ctx.check(ctx.lor(holds(ctx, path, snaps[-1]), holds(ctx, path, newsnap)),
                      'the named file, if there, is the previous or the new state')
        ctx.reach('failed')
    ctx.check(set(new) == set(newsnap), 'state unmodified')
    if err is None and B['then']:
        nxt = make_state(ctx, 70, names)
        mon.store(nxt)
        ctx.check(holds(ctx, path, snapshot(nxt)), 'a later store succeeds')
    ctx.reach('done')


HARNESSES = [
    Harness('crash', crash, dict(names=['q'], before=3, leftover=[None, '.old', '.new'], ops=24, fresh=1, then=1),
            dict(names=['', 'q', 'qs'], before=4, leftover=[None, '.old', '.new'], ops=36, fresh=2, then=1),
            reach=['done', 'success', 'failed']),
    Harness('more_quantities', crash, dict(names=['qs'], before=2, leftover=[None], ops=30, fresh=2, then=1),
            reach=['done', 'success', 'failed']),
]
ASSUMPTIONS = ['operations: opening a file for writing, creating dimensions and variables, writing attributes and data, '
               'closing, rename, replace, remove, unlink, link; each of them happens completely or not at all, and a file '
               'is complete only once it has been closed after its last write',
               'a rename is atomic and durable (as POSIX gives for processes; power loss is not modelled)']
