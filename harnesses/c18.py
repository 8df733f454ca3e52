"""C18 NetCDFMonitor."""
import os
import cftime
from symx import ncproxy
from .common import *
from . import shapes
from . import large

UNIT = {'seconds': SEC, 'hours': 3600 * SEC, 'days': DAY, 'minutes': 60 * SEC, 'weeks': 7 * DAY,
        'milliseconds': 1000 * US}
install, reset = ncproxy.install, ncproxy.forget
REJECT = Exception


def sim_time(ctx, kind, unit, k):
    """k units after the start"""
    if kind == 'timedelta':
        return k * UNIT[unit]
    if kind == 'datetime':
        return dt.datetime(2000, 2, 28, 12, 30, 15, 250000) + k * UNIT[unit]
    return sympl.datetime(2001, 2, 28, 23, 0, 0, calendar=kind) + k * UNIT[unit]


def decode_times(content):
    dims, vals, attrs = content['time']
    u = attrs['units']
    if 'since' in u:
        cal = attrs.get('calendar', 'standard')
        return [cftime.num2date(int(v), u, calendar=cal) for v in vals]
    return [int(v) * UNIT[u] for v in vals]


def time_matches(got, want):
    if isinstance(want, dt.timedelta):
        return got == want
    f = ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond')
    if any(getattr(got, n) != getattr(want, n) for n in f):
        return False
    return getattr(got, 'calendar', None) == getattr(want, 'calendar', 'proleptic_gregorian')


def check_rows(ctx, path, rows, tag):
    """rows: list of (time, {name: (dims, values, units)})"""
    if not rows:
        if os.path.exists(path):
            c = ncproxy.read(path)
            for n, (dims, vals, attrs) in c.items():
                ctx.check(np.shape(vals)[0] == 0, '%s: no rows of %s' % (tag, n))
        return
    ctx.check(os.path.exists(path), '%s: file exists' % tag)
    if not os.path.exists(path):
        return
    c = ncproxy.read(path)
    names = set(rows[0][1])
    ctx.check(set(c) - {'time'} == names, '%s: variables %s, expected %s' % (tag, sorted(c), sorted(names)))
    ctx.check('time' in c and len(c['time'][1]) == len(rows), '%s: number of times' % tag)
    if 'time' not in c or len(c['time'][1]) != len(rows):
        return
    for got, (want, _) in zip(decode_times(c), rows):
        ctx.check(time_matches(got, want), '%s: time %s, expected %s' % (tag, got, want))
    for n in names:
        if n not in c:
            continue
        dims, vals, attrs = c[n]
        ctx.check(len(dims) >= 1 and dims[0] == 'time' and np.shape(vals)[0] == len(rows), '%s: rows of %s' % (tag, n))
        if np.shape(vals)[0] != len(rows):
            continue
        for i, (_, q) in enumerate(rows):
            wd, wv, wu = q[n]
            ctx.check(attrs.get('units') == wu, '%s: units of %s' % (tag, n))
            ok = set(dims[1:]) == set(wd)
            ctx.check(ok, '%s: dims %s of %s' % (tag, dims, n))
            if ok:
                want = np.transpose(wv, [list(wd).index(d) for d in dims[1:]]) if len(wd) > 1 else wv
                got = np.asarray(vals[i])
                ctx.check(np.shape(got) == np.shape(want), '%s: shape of %s' % (tag, n))
                if np.shape(got) == np.shape(want):
                    ctx.same(got, want, '%s: row %d of %s' % (tag, i, n))


def content_of(state, skip=()):
    return {n: (tuple(v.dims), np.array(v.values), v.attrs['units'])
            for n, v in state.items() if n != 'time' and n not in skip}


def build(ctx, k, t, dims=('x', 'y'), names=('q', 's', 'i', 'f'), units='K', shape=(2, 1)):
    st = {'time': t}
    if 'q' in names:
        st['q'] = da(ctx.array('q%d' % k, shape[:len(dims)]), dims, units)
    if 's' in names:
        st['s'] = da(np.array(ctx.real('s%d' % k)), (), 'm')
    if 'i' in names:
        st['i'] = da(np.array([10 * k + 1, 10 * k + 2]), ('z',), 'count')
    if 'f' in names:
        st['f'] = da(np.array([k + 0.5], dtype=np.float32), ('y',), 's')
        st['empty'] = da(np.zeros((3, 0)), ('e3', 'none'), 'Pa')
        st['special'] = da(np.array([float('nan'), float('inf'), -1e300, 5e-324]), ('w',), 'Pa')
    return st


def meddle(state):
    for n, v in list(state.items()):
        if n != 'time':
            v.values[...] = 99
            v.attrs['units'] = 'mm'
    for n in list(state):
        if n != 'time':
            del state[n]
    state['time'] = None


def expected_rows(pending):
    """what one write appends: one row per time, in order of time; the same time merges"""
    rows = []
    for t, q in pending:
        for r in rows:
            if r[0] == t:
                r[1].update(q)
                break
        else:
            rows.append([t, dict(q)])
    return sorted(rows, key=lambda r: r[0])


def content(ctx, B):
    path = os.path.join(ncproxy.scratch(), 'out.nc')
    kind = ctx.choose('time', B['kinds'])
    unit = ctx.choose('time units', B['units'])
    if unit == 'weeks' and kind != 'timedelta':
        ctx.assume(False)          # not offered by netCDF4 for dates: raises
    wos = bool(ctx.choice('write on store', B['wos']))
    reopen = bool(ctx.choice('new monitor after each write', B['reopen']))
    kw = dict(time_units=unit, write_on_store=wos)
    mon = sympl.NetCDFMonitor(path, **kw)
    rows, pending = [], []
    mon.write()
    check_rows(ctx, path, rows, 'after writing nothing')
    for k in range(B['stores']):
        t = sim_time(ctx, kind, unit, ctx.choose('t%d' % k, B['times']))
        # (a file keeps the order of dims of its first state, other orders are rejected in later writes)
        flip = bool(ctx.choice('flip%d' % k, B['flip'] if not wos and B['writes'] == 1 else 1))
        st = build(ctx, k, t, names=B['names'])
        if flip:
            st['q'] = da(np.transpose(st['q'].values), ('y', 'x'), 'K')
        snap = snapshot(st)
        want = content_of(st)
        mon.store(st)
        check_unmodified(ctx, snap, st, 'the state stored', identity=True)
        if B['meddle']:
            meddle(st)
        pending.append((t, want))
        if wos:
            rows += expected_rows(pending)
            pending = []
            check_rows(ctx, path, rows, 'after store %d' % k)
        elif ctx.choice('write%d' % k, B['writes']):
            mon.write()
            rows += expected_rows(pending)
            pending = []
            check_rows(ctx, path, rows, 'after write %d' % k)
        if reopen and not pending:
            mon = sympl.NetCDFMonitor(path, **kw)
    mon.write()
    rows += expected_rows(pending)
    check_rows(ctx, path, rows, 'at the end')
    mon.write()
    check_rows(ctx, path, rows, 'after writing again')
    ctx.reach('done')


STATE_NAMES = ['air_temperature', 'air_temperature_tendency', 'T', 'pressure']


def naming(ctx, B):
    path = os.path.join(ncproxy.scratch(), 'out.nc')
    store = ctx.choose('store_names', [None, ['air_temperature'], ['pressure', 'air_temperature_tendency', 'missing'],
                                       ['air_temperature', 'T'], ['time', 'pressure']])
    aliases = ctx.choose('aliases', [None, {}, {'air_temperature': 'T'}, {'temperature': 'temp'}, {'pressure': 'P'},
                                     {'air_temperature': 'AT', 'pressure': 'P'}, {'tendency': 'T'}, {'time': 'ttt'},
                                     {'e': 'EE'}, {'pressure': ''}, {'pressure': 'time'}, {'nothing': 'x'}])
    present = [n for i, n in enumerate(STATE_NAMES) if i in (0, 3) or ctx.flag('has ' + n)]
    wos = ctx.flag('write on store')
    gs, ga = store and list(store), aliases and dict(aliases)
    mon = sympl.NetCDFMonitor(path, store_names=gs, aliases=ga, write_on_store=wos)
    if not wos:             # the list and the dictionary are the caller's, who uses them for something else
        if gs:
            gs[:] = ['T']
        if ga:
            ga.clear()
            ga['air_temperature'] = 'something else'
    rows = []
    kept = [n for n in present if store is None or n in store]
    final = {}
    for n in kept:
        a = n
        for lo, sh in (aliases or {}).items():
            a = a.replace(lo, sh)
        final.setdefault(a, []).append(n)
    bad = any(len(v) > 1 for v in final.values()) or '' in final or 'time' in final
    for k in range(2):
        t = sim_time(ctx, 'datetime', 'seconds', k)
        st = {'time': t}
        for j, n in enumerate(present):
            st[n] = da(ctx.array('%s_%d' % (n, k), (1,)), ('x',), ['K', 'K s^-1', 'degC', 'Pa'][STATE_NAMES.index(n)])
        snap = snapshot(st)
        try:
            mon.store(st)
            mon.write()
            failed = None
        except Exception as e:
            failed = e
        check_unmodified(ctx, snap, st, 'the state stored', identity=True)
        if bad:
            ctx.check(failed is not None, 'names that collide, or are empty, are rejected')
            ctx.reach('rejected')
            return
        ctx.check(failed is None, 'accepted: %r' % failed)
        c = content_of(st)
        if kept:
            rows.append((t, {a: c[v[0]] for a, v in final.items()}))
            check_rows(ctx, path, rows, 'after store %d' % k)
    ctx.reach('done')


def rejections(ctx, B):
    """a second state that differs: rejected, leaving the file as it was, or stored correctly"""
    path = os.path.join(ncproxy.scratch(), 'out.nc')
    what = ctx.choose('difference', ['units', 'length', 'length one', 'fewer dims', 'more dims', 'other dim',
                                     'dims order', 'missing quantity', 'extra quantity', 'scalar to array'])
    between = bool(ctx.choice('written in between', 2))
    wos = bool(ctx.choice('write on store', 2)) if between else False
    swap = bool(ctx.choice('differing state first', 2))
    base = dict(dims=('x', 'y'), shape=(2, 2), names=('q', 's'), units='K')
    diff = dict(base)
    if what == 'units':
        diff['units'] = 'mK'
    elif what == 'length':
        diff['shape'] = (3, 2)
    elif what == 'length one':
        diff['shape'] = (1, 2)
    elif what == 'fewer dims':
        diff['dims'], diff['shape'] = ('x',), (2,)
    elif what == 'more dims':
        diff['dims'], diff['shape'] = ('x', 'y', 'w'), (2, 2, 2)
    elif what == 'other dim':
        diff['dims'] = ('x', 'w')
    elif what == 'dims order':
        diff['dims'] = ('y', 'x')
    elif what == 'missing quantity':
        diff['names'] = ('q',)
    elif what == 'extra quantity':
        diff['names'] = ('q', 's', 'i')
    order = [diff, base] if swap else [base, diff]
    mon = sympl.NetCDFMonitor(path, write_on_store=wos)
    sts = []
    for k in range(2):
        st = build(ctx, k, sim_time(ctx, 'datetime', 'seconds', k), **order[k])
        if what == 'scalar to array' and order[k] is diff:
            st['s'] = da(ctx.array('sa', (1,)), ('x1',), 'm')
        sts.append((st['time'], content_of(st), st))
    mon.store(sts[0][2])
    rows = []
    if between:
        mon.write()
        rows.append(sts[0][:2])
        check_rows(ctx, path, rows, 'after the first write')
    try:
        mon.store(sts[1][2])
        mon.write()
        failed = None
    except Exception as e:
        failed = e
    if failed is not None:
        check_rows(ctx, path, rows, 'after the rejected write')
        ctx.reach('rejected')
        # what was stored is still to be written, once the quantities at odds have been replaced
        k = 0 if what == 'missing quantity' and swap or what == 'extra quantity' and not swap else 1
        if k == 0 and between or what == 'scalar to array':
            return
        keep = ('q',) if 'quantity' not in what else tuple(set(order[1 - k]['names']) - set(order[k]['names']))
        fix = build(ctx, 7, sts[k][0], **dict(order[1 - k], names=keep))
        want = dict(sts[k][1], **content_of(fix))
        mon.store(fix)
        mon.write()
        check_rows(ctx, path, [(sts[i][0], want if i == k else sts[i][1]) for i in range(2)], 'after the second attempt')
        ctx.reach('repaired')
        return
    if what == 'units':
        # converting would be correct, too
        c = ncproxy.read(path)
        f = unit_factor(c['q'][2]['units'], 'K')
        f = f if ctx.symbolic else float(f)
        for i in range(2):
            g = unit_factor(sts[i][1]['q'][2], 'K')
            g = g if ctx.symbolic else float(g)
            ctx.close(np.asarray(c['q'][1][i]) * f, sts[i][1]['q'][1] * g, 'values and units agree', tol=1e-6)
        return
    ctx.check(what == 'dims order', '%s: stored although it cannot be represented' % what)
    if what == 'dims order':
        check_rows(ctx, path, [s[:2] for s in sts], 'dims in another order')
    ctx.reach('stored')


def mixing(ctx, B):
    """one file, times of different kinds or monitors with different time units: rejected, or right"""
    path = os.path.join(ncproxy.scratch(), 'out.nc')
    kinds = [ctx.choose('time %d' % i, B['kinds']) for i in range(2)]
    units = [ctx.choose('time units %d' % i, B['units']) for i in range(2)]
    between = ctx.choose('second', ['another monitor', 'same monitor', 'same write'])
    if between != 'another monitor':
        ctx.assume(units[0] == units[1])
    k = ctx.choose('k', B['times'])
    mon = sympl.NetCDFMonitor(path, time_units=units[0])
    sts = [build(ctx, i, sim_time(ctx, kinds[i], 'days', i * k), names=('q', 's')) for i in range(2)]
    want = [(s['time'], content_of(s)) for s in sts]
    mon.store(sts[0])
    rows = []
    if between != 'same write':
        mon.write()
        rows.append(want[0])
        if between == 'another monitor':
            mon = sympl.NetCDFMonitor(path, time_units=units[1])
    try:
        mon.store(sts[1])
        mon.write()
        failed = None
    except Exception as e:
        failed = e
    if failed is not None:
        ctx.check(kinds[0] != kinds[1], 'times of one kind are accepted: %r' % failed)
        check_rows(ctx, path, rows, 'after the rejected write')
        ctx.reach('rejected')
        return
    check_rows(ctx, path, want, 'stored')
    ctx.reach('stored')


DTYPES = [np.int64, np.int32, np.float32, np.float64, np.int8]
NUMBERS = {'i': [-3, 100], 'f': [0.1, -2.75]}


def value_types(ctx, B):
    """the type of the values of a quantity changes: every value is stored, or rejected, but none changed"""
    path = os.path.join(ncproxy.scratch(), 'out.nc')
    between = ctx.choose('second', ['same write', 'another write', 'another monitor', 'write on store'])
    back = bool(ctx.choice('stored in reverse order', 2))
    mon = sympl.NetCDFMonitor(path, write_on_store=between == 'write on store')
    sts = []
    for k in range(2):
        kind = ctx.choose('type %d' % k, ['symbolic real', 'symbolic integer'] + B['dtypes'])
        if kind == 'symbolic real':
            v = ctx.array('q%d' % k, (2,))
        elif kind == 'symbolic integer':
            v = ctx.array('q%d' % k, (2,), dtype=np.int64)
        else:
            v = np.array(NUMBERS[np.dtype(kind).kind], dtype=kind)
        st = {'time': sim_time(ctx, 'datetime', 'seconds', 1 - k if back else k), 'q': da(v, ('x',), 'K'),
              's': da(np.array(ctx.real('s%d' % k)), (), 'm')}
        sts.append((st['time'], content_of(st), st))
    mon.store(sts[0][2])
    rows = []
    if between != 'same write':
        mon.write()
        rows = [sts[0][:2]]
        check_rows(ctx, path, rows, 'after the first write')
        if between == 'another monitor':
            mon = sympl.NetCDFMonitor(path)
    try:
        mon.store(sts[1][2])
        mon.write()
        failed = None
    except Exception as e:
        failed = e
    kinds = [np.asarray(s[1]['q'][1]).dtype for s in sts]
    if failed is not None:
        ctx.check(kinds[0] != kinds[1], 'values of one type are accepted: %r' % failed)
        check_rows(ctx, path, rows, 'after the rejected write')
        ctx.reach('rejected')
        return
    c = ncproxy.read(path)
    want = [s[:2] for s in sts]
    if between == 'same write':
        want.sort(key=lambda r: r[0])
    ctx.check([t for t in map(str, decode_times(c))] == [str(t) for t, _ in want], 'times')
    for i, (t, q) in enumerate(want):
        ctx.same(np.asarray(c['s'][1][i]), q['s'][1], 'row %d of s' % i)
        # float64 values are appended to a file of float32 values with the precision of the file
        ctx.close(np.asarray(c['q'][1][i]), q['q'][1], 'row %d of q' % i, tol=1e-6)
        if c['q'][1].dtype != np.float32:
            ctx.same(np.asarray(c['q'][1][i]), q['q'][1], 'row %d of q, precisely' % i)
    ctx.reach('stored')


def merging(ctx, B):
    """states of the same time, holding different quantities, become one row; the latest value counts"""
    path = os.path.join(ncproxy.scratch(), 'out.nc')
    kind = ctx.choose('time', ['datetime', 'timedelta', '360_day'])
    mon = sympl.NetCDFMonitor(path, time_units='hours')
    rows = []
    for w in range(B['writes']):
        rows_w = {}
        for k in range(B['stores']):
            label = '%d_%d' % (w, k)
            i = ctx.choice('time ' + label, 2)
            which = ctx.choose('quantities ' + label, [('q',), ('s',), ('q', 's')])
            t = sim_time(ctx, kind, 'hours', 2 * w + i)
            st = build(ctx, 10 * w + k, t, names=which)
            want = content_of(st)
            mon.store(st)
            rows_w.setdefault(i, (t, {}))[1].update(want)
        names = {frozenset(r[1]) for r in rows_w.values()}
        if w:
            names.add(frozenset(rows[0][1]))
        try:
            mon.write()
            failed = None
        except Exception as e:
            failed = e
        if failed is not None:
            ctx.check(len(names) > 1, 'times with the same quantities are accepted: %r' % failed)
            check_rows(ctx, path, rows, 'after the rejected write')
            ctx.reach('rejected')
            return
        ctx.check(len(names) == 1, 'times with different quantities are rejected')
        rows += [rows_w[i] for i in sorted(rows_w)]
        check_rows(ctx, path, rows, 'after write %d' % w)
    ctx.reach('done')


CAL = ['datetime', 'timedelta', '360_day', 'noleap']
HARNESSES = [
    Harness('content', content,
            dict(kinds=CAL[:2], units=['hours'], wos=1, reopen=1, stores=3, times=[0, 1, 2], flip=1, names=('q', 's'),
                 writes=2, meddle=1),
            dict(kinds=CAL[:2], units=['hours', 'seconds'], wos=1, reopen=2, stores=3, times=[0, 1, 2, 40], flip=1, names=('q', 's'),
                 writes=2, meddle=1), reach=['done']),
    Harness('types', content,
            dict(kinds=CAL, units=['seconds', 'days'], wos=2, reopen=2, stores=2, times=[0, 1], flip=2, names=('q', 's', 'i', 'f'),
                 writes=1, meddle=1),
            dict(kinds=CAL, units=['seconds', 'hours', 'days'], wos=2, reopen=2, stores=2, times=[0, 1, 2, 40], flip=2,
                 names=('q', 's', 'i', 'f'), writes=1, meddle=1), reach=['done']),
    Harness('time_units', content,
            dict(kinds=CAL[:3], units=list(UNIT), wos=1, reopen=1, stores=2, times=[0, 1, 3, 11, 1001], flip=1, names=('s',),
                 writes=1, meddle=1),
            dict(kinds=CAL, units=list(UNIT), wos=1, reopen=1, stores=2,
                 times=[0, 1, 2, 3, 6, 7, 11, 13, 31, 366, 999, 1001, 1003, 2047], flip=1, names=('s',),
                 writes=1, meddle=1), reach=['done']),
    Harness('naming', naming, dict(), reach=['done', 'rejected']),
    Harness('mixing', mixing,
            dict(kinds=CAL, units=['hours', 'seconds'], times=[1]),
            dict(kinds=CAL + ['standard', 'julian', 'all_leap'], units=['hours', 'seconds', 'minutes', 'days', 'milliseconds'], times=[1, 40]),
            reach=['rejected', 'stored']),
    Harness('rejections', rejections, dict(), reach=['rejected', 'stored', 'repaired']),
    Harness('merging', merging, dict(writes=1, stores=3), dict(writes=2, stores=3), reach=['done', 'rejected']),
    Harness('value_types', value_types, dict(dtypes=DTYPES[:4]), dict(dtypes=DTYPES), reach=['rejected', 'stored']),
    large.HISTORY,
]
ASSUMPTIONS = ['the netCDF4 library and the file system are real; symbolic values pass through the file as opaque tokens',
               'times are whole multiples of the time unit apart (the file holds integers, as documented)',
               'states stored at the same time before a write are merged into one row; one write appends its rows in '
               'order of time',
               'symbolic values are real or integer numbers; the values of int8, int32, int64 and float32 arrays are '
               'two concrete numbers']
HARNESSES.append(shapes.NETCDF)
