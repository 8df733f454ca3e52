"""C19 RestartMonitor round trip."""
import os
from symx import ncproxy
from .common import *
from . import shapes
from . import large

install, reset = ncproxy.install, ncproxy.forget

TIMES = {
    'datetime': dt.datetime(2000, 2, 29, 12, 30, 15, 250001), 'old datetime': dt.datetime(850, 3, 1),
    'far datetime': dt.datetime(2399, 12, 31, 23, 59, 59, 999999),
    'timedelta': dt.timedelta(days=400, seconds=3, microseconds=5), 'zero': dt.timedelta(0),
    'negative': -dt.timedelta(hours=1, microseconds=1),
    '360_day': ('360_day', 2001, 2, 30, 1, 2, 3), 'noleap': ('noleap', 2000, 3, 1, 0, 0, 0),
    'all_leap': ('all_leap', 2001, 2, 29, 0, 0, 0), 'julian': ('julian', 1900, 2, 29, 6, 0, 0),
    'gregorian': ('gregorian', 1500, 1, 1, 0, 0, 0),
}
QUANTITIES = {
    'q': (('x', 'y'), (2, 1), 'K'), 's': ((), (), 'm'), 'hours': (('x',), (2,), 'hours'), 'sec': ((), (), 's'),
    'x': (('x',), (2,), 'm'), 'since': (('x',), (2,), ''), 'y': (('y', 'x'), (1, 2), 'degrees_north'),
    'long': (('y', 'x', 'w'), (1, 2, 1), 'kg m^-2 s^-1'),
}


def make_time(t):
    if isinstance(t, tuple):
        return sympl.datetime(*t[1:], calendar=t[0])
    return t


def same_time(a, b):
    if isinstance(b, dt.timedelta) or isinstance(a, dt.timedelta):
        return isinstance(a, dt.timedelta) and a == b
    if isinstance(b, dt.datetime) != isinstance(a, dt.datetime):
        return False      # timedelta arithmetic and comparisons with other dates would fail
    f = ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond')
    return all(getattr(a, n, None) == getattr(b, n) for n in f) and \
        getattr(a, 'calendar', 'proleptic_gregorian') == getattr(b, 'calendar', 'proleptic_gregorian')


def make_state(ctx, k, names, t, ints):
    st = {'time': t}
    for n in names:
        dims, shape, u = QUANTITIES[n]
        v = np.array(ctx.real('%s%d' % (n, k))) if shape == () else ctx.array('%s%d' % (n, k), shape)
        st[n] = da(v, dims, u)
    if ints:
        st['special'] = da(np.array([float('nan'), float('inf'), -1e300, 5e-324]), ('special',), 'Pa')
        st['empty'] = da(np.zeros((0, 3)), ('none', 'e3'), 'Pa')
        st['i'] = da(np.array([k + 1, 5]), ('x',), 'count')
        st['f'] = da(np.array([k + 0.5, 1.], dtype=np.float32), ('x',), 's')
    return st


def compare(ctx, got, want, tag):
    """want: snapshot-like {name: (values, dims, attrs)} and time"""
    ctx.check(set(got) == set(want), '%s: quantities %s, expected %s' % (tag, sorted(got), sorted(want)))
    for n, w in want.items():
        if n not in got:
            continue
        if n == 'time':
            ctx.check(same_time(got[n], w), '%s: time %r, expected %r' % (tag, got[n], w))
            continue
        g = got[n]
        ctx.check(isinstance(g, DataArray), '%s: %s is a sympl DataArray' % (tag, n))
        ctx.check(tuple(g.dims) == w[1], '%s: dims of %s' % (tag, n))
        ctx.check(g.attrs.get('units') == w[2]['units'], '%s: units of %s: %s' % (tag, n, g.attrs))
        ok = np.shape(g.values) == np.shape(w[0])
        ctx.check(ok, '%s: shape of %s' % (tag, n))
        if n in ('i', 'f'):
            # in a symbolic run all floating point numbers are real numbers
            gt, wt = g.values.dtype, np.asarray(w[0]).dtype
            ctx.check(gt == wt or ctx.symbolic and (gt.kind == wt.kind or gt == object), '%s: type of %s' % (tag, n))
        if ok:
            ctx.same(g.values, w[0], '%s: values of %s' % (tag, n))


def round_trip(ctx, B):
    path = os.path.join(ncproxy.scratch(), 'restart.nc')
    names = ctx.choose('quantities', B['sets'])
    ints = bool(ctx.choice('int and float32 quantities', B['ints']))
    again = ctx.choice('loaded state is stored again', B['again'])
    fresh = bool(ctx.choice('loaded by another monitor', 2))
    mon = sympl.RestartMonitor(path)
    for k in range(B['stores']):
        t = make_time(TIMES[ctx.choose('time%d' % k, B['times'])])
        st = make_state(ctx, k, names, t, ints)
        snap = snapshot(st)
        mon.store(st)
        check_unmodified(ctx, snap, st, 'the state stored', identity=True)
        for n in list(st):
            if n != 'time':
                st[n].values[...] = 77
        if fresh:
            mon = sympl.RestartMonitor(path)
        got = mon.load()
        compare(ctx, got, snap, 'load %d' % k)
        if again:
            mon.store(got)
            compare(ctx, mon.load(), snap, 'load after storing what was loaded')
        other = mon.load()
        for n in got:
            if n != 'time':
                got[n].values[...] = 3
                got[n].attrs.clear()
        got.clear()
        compare(ctx, mon.load(), snap, 'load after modifying what was loaded')
        compare(ctx, other, snap, 'another load')
    ctx.reach('done')


def later(ctx, B):
    """A state that has been loaded does not depend on what happens to the file later."""
    path, other = os.path.join(ncproxy.scratch(), 'restart.nc'), os.path.join(ncproxy.scratch(), 'other.nc')
    names = ctx.choose('quantities', B['sets'])
    event = ctx.choose('event', ['overwritten', 'stored', 'stored twice', 'removed'])
    looked = bool(ctx.choice('looked at before', 2))
    first = make_state(ctx, 0, names, TIMES['datetime'], True)
    second = make_state(ctx, 1, names, TIMES['old datetime'], True)
    snap = snapshot(first)
    mon = sympl.RestartMonitor(path)
    mon.store(first)
    got = mon.load()
    if looked:
        compare(ctx, got, snap, 'loaded')
    if event == 'overwritten':
        sympl.RestartMonitor(other).store(second)
        with open(other, 'rb') as f, open(path, 'r+b') as g:    # in place
            g.write(f.read())
            g.truncate()
    elif event == 'removed':
        os.remove(path)
    else:
        mon.store(second)
        if event == 'stored twice':
            mon.store(mon.load())
        compare(ctx, mon.load(), snapshot(second), 'second')
    compare(ctx, got, snap, 'loaded before the file was %s' % event)
    ctx.reach('done')


HARNESSES = [
    Harness('later', later, dict(sets=[['q', 's'], ['x', 'q']]), dict(sets=[['q', 's'], ['x', 'q'], ['hours', 'sec', 'long']]),
            reach=['done'], note='the file changes after it was loaded'),
    Harness('quantities', round_trip,
            dict(sets=[['q', 's'], ['hours', 'sec'], ['x', 'q'], ['since', 'y', 'long'], []], ints=2, again=2, stores=2,
                 times=['datetime', 'timedelta']),
            dict(sets=[[a] for a in QUANTITIES] + [['q', 's', 'hours', 'x', 'since', 'long']], ints=2, again=2, stores=2,
                 times=['datetime', 'timedelta']), reach=['done']),
    Harness('times', round_trip, dict(sets=[['q']], ints=1, again=1, stores=2, times=list(TIMES)),
            dict(sets=[['q', 'sec']], ints=1, again=2, stores=3, times=list(TIMES)), reach=['done']),
    large.RESTART,
]
ASSUMPTIONS = ['netCDF4, xarray and the file system are real; symbolic values pass through the file as opaque tokens',
               'times are the listed ones (every calendar, with and without fractions of a second)',
               'timezone-aware datetimes and boolean quantities are not covered']
HARNESSES.append(shapes.RESTART)
