"""C27 datetime in the requested calendar."""
import cftime
import sympl._core.time as T
from .common import *

CAL = {   # spelling: (calendar, class of cftime or None for the datetime of Python)
    'proleptic_gregorian': ('proleptic_gregorian', None), 'no_leap': ('noleap', 'DatetimeNoLeap'),
    'noleap': ('noleap', 'DatetimeNoLeap'), '365_day': ('noleap', 'DatetimeNoLeap'),
    'all_leap': ('all_leap', 'DatetimeAllLeap'), '366_day': ('all_leap', 'DatetimeAllLeap'),
    '360_day': ('360_day', 'Datetime360Day'), 'julian': ('julian', 'DatetimeJulian'),
    'gregorian': ('gregorian', 'DatetimeGregorian'),
}
FIELDS = ['year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond']
RANGE = {'year': (1, 4000), 'month': (1, 12), 'day': (1, 28), 'hour': (0, 23), 'minute': (0, 59), 'second': (0, 59),
         'microsecond': (0, 999999)}
ORIG = {}


class Record(object):
    """a date of class `cls` whose fields may be symbolic"""

    def __init__(self, cls, args, kw):
        self.cls = cls
        d = dict(zip(FIELDS, args))
        d.update(kw)
        self.tzinfo = d.pop('tzinfo', None)
        for f in FIELDS:
            setattr(self, f, d.pop(f, 0))
        if d:
            raise TypeError('unexpected %s' % sorted(d))


def _maker(name):
    return lambda *a, **k: Record(name, a, k)


class Proxy(object):
    def __getattr__(self, name):
        if name in {c for _, c in CAL.values() if c}:
            return _maker(name)
        return getattr(ORIG['ct'], name)


def install(symbolic):
    if not ORIG:
        ORIG['ct'] = getattr(T, 'ct', None)
    if symbolic:
        for k in ('ct', 'cftime'):
            if getattr(T, k, None) is not None:
                setattr(T, k, Proxy())
        for k in ('real_datetime',):
            if hasattr(T, k):
                setattr(T, k, _maker(None))


def kind_of(d):
    return d.cls if isinstance(d, Record) else (None if type(d) is dt.datetime else type(d).__name__)


def leap(y, cal):
    if cal == 'noleap':
        return False
    if cal == 'all_leap':
        return True
    if cal == 'julian' or (cal == 'gregorian' and y <= 1582):
        return y % 4 == 0
    return (y % 4 == 0 and y % 100 != 0) or y % 400 == 0


def month_length(y, m, cal):
    if cal == '360_day':
        return 30
    if m == 2:
        return 29 if leap(y, cal) else 28
    return 30 if m in (4, 6, 9, 11) else 31


def fields(ctx, B):
    name = ctx.choose('calendar', sorted(CAL))
    spell = ctx.choose('spelling', ['as documented', 'upper case', 'capitalised'])
    given = {'as documented': name, 'upper case': name.upper(), 'capitalised': name.capitalize()}[spell]
    n = ctx.choose('number of fields', B['n'])
    positional = ctx.flag('positional')
    cal, cls = CAL[name]
    omit = cls is None and spell == 'as documented' and ctx.flag('calendar omitted')
    v = {f: ctx.integer(f, *RANGE[f]) for f in FIELDS[:n]}
    if not ctx.symbolic:
        v = {f: int(x) for f, x in v.items()}
    args, kw = ([v[f] for f in FIELDS[:n]], {}) if positional else ([], dict(v))
    if not omit:
        kw['calendar'] = given
    d = sympl.datetime(*args, **kw)
    ctx.check(d is not None and kind_of(d) == cls, 'class of the date is %s' % (cls or 'datetime'))
    for f in FIELDS:
        ctx.same(getattr(d, f), v.get(f, 0), f)
    ctx.check(getattr(d, 'tzinfo', None) is None, 'no time zone')
    if not ctx.symbolic:
        if cls:
            want = {'gregorian': ('gregorian', 'standard'), 'noleap': ('noleap', '365_day'),
                    'all_leap': ('all_leap', '366_day')}.get(cal, (cal,))
            ctx.check(d.calendar in want, 'calendar %s' % d.calendar)
        y, m, day = v['year'], v['month'], v['day']
        if not (cal == 'gregorian' and y == 1582):
            # first day of the next month is as many days ahead as the calendar says
            e = d + dt.timedelta(days=month_length(y, m, cal) - day + 1)
            ny, nm = (y, m + 1) if m < 12 else (y + 1, 1)
            ctx.check((e.year, e.month, e.day) == (ny, nm, 1), 'next month is %s' % (e,))
            ctx.check(e - d == dt.timedelta(days=month_length(y, m, cal) - day + 1), 'difference')
    ctx.reach('done')


def february(ctx, B):
    """the last day of February, and days that other calendars lack"""
    name = ctx.choose('calendar', sorted(CAL))
    cal, cls = CAL[name]
    y = int(ctx.choose('year', ['1899', '1900', '2000', '2004', '2001']))
    day = ctx.choose('day', [28, 29, 30, 31])
    month = ctx.choose('month', [1, 2, 4, 12])
    ok = day <= month_length(y, month, cal)
    h = ctx.integer('hour', 0, 23)
    if not ctx.symbolic:
        h = int(h)
    if ctx.symbolic:
        d = sympl.datetime(y, month, day, h, calendar=name)
        ctx.check(kind_of(d) == cls, 'class')
        ctx.same(d.day, day, 'day')
    elif ok:
        d = sympl.datetime(y, month, day, h, calendar=name)
        ctx.check((d.year, d.month, d.day, d.hour) == (y, month, day, h) and kind_of(d) == cls, 'a day of the calendar')
    else:
        ctx.expect_exc(lambda: sympl.datetime(y, month, day, h, calendar=name), ValueError, 'not a day of the calendar')
    ctx.reach('done')


class Zone(dt.tzinfo):
    def utcoffset(self, d):
        return dt.timedelta(hours=3)

    def dst(self, d):
        return dt.timedelta(0)


def zones(ctx, B):
    name = ctx.choose('calendar', sorted(CAL) + ['lunar', ''])
    tz = Zone()
    v = {f: ctx.integer(f, *RANGE[f]) for f in FIELDS}
    if not ctx.symbolic:
        v = {f: int(x) for f, x in v.items()}
    if name == 'proleptic_gregorian':
        d = sympl.datetime(tzinfo=tz, calendar=name, **v)
        ctx.check(kind_of(d) is None and d.tzinfo is tz, 'time zone kept')
        for f in FIELDS:
            ctx.same(getattr(d, f), v[f], f)
        ctx.reach('kept')
    else:
        ctx.expect_exc(lambda: sympl.datetime(tzinfo=tz, calendar=name, **v), ValueError, 'time zone rejected')
        if name not in CAL:
            ctx.expect_exc(lambda: sympl.datetime(calendar=name, **v), ValueError, 'unknown calendar')
        ctx.reach('rejected')


HARNESSES = [
    Harness('fields', fields, dict(n=[3, 5, 7]), dict(n=[3, 4, 5, 6, 7]), reach=['done'],
            stubs=['cftime classes and datetime record their arguments in symbolic runs; the real ones are used in the '
                   'concrete run of each path']),
    Harness('february', february, dict(), reach=['done']),
    Harness('zones', zones, dict(), reach=['kept', 'rejected']),
]
ASSUMPTIONS = ['the calendar arithmetic is that of the cftime classes: it is checked on the concrete run of each path only']
