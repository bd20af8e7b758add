"""C27: datetimes of the documented calendars."""
import copy
import pickle
from datetime import datetime as real_datetime, timedelta, timezone, tzinfo

import cftime
import sympl



class Summer(tzinfo):
    """A zone whose offset depends on the date, and is unknown without one."""

    def utcoffset(self, when):
        return None if when is None else timedelta(hours=1 + (4 <= when.month < 10))

    def dst(self, when):
        return None if when is None else timedelta(hours=int(4 <= when.month < 10))

    def tzname(self, when):
        return 'Summer'

    def __repr__(self):
        return 'Summer()'


SUMMER = Summer()
ORDINARY = (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)
LEAP = (31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)
SPELLINGS = {
    'proleptic_gregorian': ['proleptic_gregorian'],
    'no_leap': ['no_leap', 'noleap', '365_day'],
    'all_leap': ['all_leap', '366_day'],
    '360_day': ['360_day'],
    'julian': ['julian'],
    'gregorian': ['gregorian'],
}
CALENDARS = sorted(SPELLINGS)
UNKNOWN = ['', 'no leap', 'Gregorian ', 'lunar', 'proleptic', '360', '365day', 'gregorianx',
           'proleptic-gregorian', 'all_leap_366', 'julian_gregorian']
FIELDS = ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond')

CASES = {'quick': 60000, 'thorough': 600000}
REQUIRED = ('monitor:fields', 'monitor:difference', 'monitor:addition', 'monitor:order',
            'monitor:default', 'monitor:type', 'monitor:refused date', 'monitor:refused timezone',
            'monitor:refused calendar', 'monitor:copies', 'leap day', 'refused leap day',
            'day 30 of February', 'century', 'reform gap', 'across the reform',
            'month end', 'other case', 'by position', 'timezone') + tuple(
                'calendar ' + s for c in CALENDARS for s in SPELLINGS[c])
RULE = ('all documented spellings in any letter case, years 1-9999 (weighted to leap years, '
        'centuries, the 1582 reform and month ends), any time of day, by keyword and by position; '
        'the fields, type, ordering, differences and sums with timedeltas are compared with '
        'day-number arithmetic written out here; dates which the calendar lacks, fields out of '
        'range, unknown calendars and time zones with other calendars must raise ValueError. '
        'Distinct by calendar, spelling, date and what is done with it.')
ASSUMPTIONS = ['gregorian is the mixed Julian/Gregorian calendar with the reform of October 1582, '
               'as in CF; years 1 to 9999']


def julian_leap(y):
    return y % 4 == 0


def gregorian_leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def months(calendar, y):
    if calendar == '360_day':
        return (30,) * 12
    leap = {'no_leap': False, 'all_leap': True, 'julian': julian_leap(y),
            'proleptic_gregorian': gregorian_leap(y),
            'gregorian': julian_leap(y) if y <= 1582 else gregorian_leap(y)}[calendar]
    return LEAP if leap else ORDINARY


def days_before_year(calendar, y):
    """Days from 1 January of year 1 in the calendar's own count of years."""
    n = y - 1
    if calendar == '360_day':
        return 360 * n
    if calendar == 'no_leap':
        return 365 * n
    if calendar == 'all_leap':
        return 366 * n
    if calendar == 'proleptic_gregorian':
        return 365 * n + n // 4 - n // 100 + n // 400
    if calendar == 'julian':
        return 365 * n + n // 4
    raise AssertionError(calendar)


def number(calendar, y, m, d):
    if calendar == 'gregorian':
        # Julian day counts differ by two days in year 1, ten removed in 1582
        if (y, m, d) < (1582, 10, 15):
            return number('julian', y, m, d)
        return number('proleptic_gregorian', y, m, d) + 2
    return days_before_year(calendar, y) + sum(months(calendar, y)[:m - 1]) + d - 1


def from_number(calendar, n):
    """(year, month, day) by search from an estimate."""
    y = max(1, int(n / 365.25) - 3 if calendar != '360_day' else n // 360 - 1)
    if calendar == 'no_leap':
        y = max(1, n // 365 - 1)
    if calendar == 'all_leap':
        y = max(1, n // 366 - 1)
    while number(calendar, y + 1, 1, 1) <= n:
        y += 1
    while number(calendar, y, 1, 1) > n:
        y -= 1
    for m in range(12, 0, -1):
        if number(calendar, y, m, 1) <= n:
            break
    d = n - number(calendar, y, m, 1) + 1
    if calendar == 'gregorian' and (y, m) == (1582, 10) and d > 4:
        d += 10
    return y, m, d


def exists(calendar, y, m, d):
    if not 1 <= m <= 12 or not 1 <= d <= months(calendar, y)[m - 1]:
        return False
    return not (calendar == 'gregorian' and (y, m) == (1582, 10) and 5 <= d <= 14)


def microseconds(delta):
    return (delta.days * 86400 + delta.seconds) * 10 ** 6 + delta.microseconds


def position(calendar, fields):
    y, m, d, hh, mm, ss, us = fields
    return ((((number(calendar, y, m, d) * 24 + hh) * 60 + mm) * 60 + ss) * 10 ** 6) + us


def from_position(calendar, p):
    days, us = divmod(p, 86400 * 10 ** 6)
    ss, us = divmod(us, 10 ** 6)
    return from_number(calendar, days) + (ss // 3600, ss // 60 % 60, ss % 60, us)


def spell(ctx, calendar):
    s = ctx.pick(SPELLINGS[calendar])
    ctx.saw('calendar ' + s)
    out = ctx.pick([s, s, s.upper(), s.title(), ''.join(
        c.upper() if ctx.chance(0.5) else c for c in s)])
    if out != s:
        ctx.saw('other case')
    return out


def some_date(ctx, calendar):
    r = ctx.rng
    y = ctx.pick([r.randint(1, 9999), r.randint(1900, 2100), r.randint(1900, 2100),
                  4 * r.randint(1, 2499), 100 * r.randint(1, 99), 400 * r.randint(1, 24),
                  r.randint(1580, 1584), 2000, 1, 9999])
    if y % 100 == 0:
        ctx.saw('century')
    if ctx.chance(0.1):
        y, m = 1582, 10
    else:
        m = ctx.pick([r.randint(1, 12), r.randint(1, 12), 2, 2, 1, 12])
    last = months(calendar, y)[m - 1]
    d = ctx.pick([r.randint(1, last), r.randint(1, last), last, 1, 28])
    if not exists(calendar, y, m, d):
        d = ctx.pick([4, 15])
    if d == last:
        ctx.saw('month end')
    if (m, d) == (2, 29):
        ctx.saw('leap day')
    if (m, d) == (2, 30):
        ctx.saw('day 30 of February')
    return y, m, d


def some_fields(ctx, calendar):
    r = ctx.rng
    clock = ctx.pick([(0, 0, 0, 0), (23, 59, 59, 999999), (r.randint(0, 23), 0, 0, 0), None, None,
                      None])
    if clock is None:
        clock = (r.randint(0, 23), r.randint(0, 59), r.randint(0, 59),
                 ctx.pick([0, 1, 500000, r.randint(0, 999999)]))
    return some_date(ctx, calendar) + clock


def build(ctx, calendar, fields, tzinfo=None):
    """Calls sympl.datetime for the fields, in one of the ways to call it."""
    name = spell(ctx, calendar)
    kwargs = {}
    used = len(fields)
    while used > 3 and fields[used - 1] == 0 and ctx.chance(0.7):
        used -= 1
    by_position = ctx.pick([0, used, 3, ctx.rng.randint(0, used)])
    args = fields[:by_position]
    for i in range(by_position, used):
        kwargs[FIELDS[i]] = fields[i]
    default = calendar == 'proleptic_gregorian' and ctx.chance(0.5)
    if by_position == 7 and ctx.chance(0.5):
        ctx.saw('by position')
        args = args + (tzinfo,) + (() if default else (name,))
    else:
        if tzinfo is not None or ctx.chance(0.3):
            kwargs['tzinfo'] = tzinfo
        if not default:
            kwargs['calendar'] = name
    if default:
        ctx.saw('default calendar')
    ctx.log('sympl.datetime(*{!r}, **{!r})'.format(args, kwargs))
    return lambda: sympl.datetime(*args, **kwargs)


def fields_of(t):
    return tuple(getattr(t, f) for f in FIELDS)


CF_NAMES = {'no_leap': ('noleap', '365_day', 'no_leap'), 'all_leap': ('all_leap', '366_day'),
            '360_day': ('360_day',), 'julian': ('julian',), 'gregorian': ('gregorian', 'standard')}


def valid_case(ctx, calendar):
    fields = some_fields(ctx, calendar)
    tz = None
    if calendar == 'proleptic_gregorian' and ctx.chance(0.4):
        ctx.saw('timezone')
        tz = ctx.pick([timezone.utc, timezone(timedelta(hours=ctx.rng.randint(-12, 12))), SUMMER])
    make = build(ctx, calendar, fields, tz)
    ctx.tag('valid', calendar, fields, str(tz))
    t = ctx.accepts('accepted', 'date {} of {}'.format(fields, calendar), make)
    ctx.check('fields', fields_of(t) == fields, 'fields are {}, not {}'.format(
        fields_of(t), fields))
    if calendar == 'proleptic_gregorian':
        ctx.check('type', type(t) is real_datetime, 'type is {}'.format(type(t)))
        ctx.check('default', t == real_datetime(*fields, tzinfo=tz) and t.tzinfo is tz,
                  'default calendar gives {!r}'.format(t))
    else:
        ctx.check('type', isinstance(t, cftime.datetime) and t.calendar in CF_NAMES[calendar],
                  '{!r} does not have the calendar {}'.format(t, calendar))
    again = make()
    ctx.check('order', again == t and not again != t and hash(again) == hash(t),
              'the same request gives {!r} then {!r}'.format(t, again))
    for name, duplicate in (('copy', copy.copy), ('deepcopy', copy.deepcopy),
                            ('pickle', lambda x: pickle.loads(pickle.dumps(x)))):
        dup = duplicate(t)
        ctx.check('copies', dup == t and fields_of(dup) == fields and type(dup) is type(t),
                  '{} of {!r} is {!r}'.format(name, t, dup))
    # another date of the calendar
    if ctx.chance(0.5):
        other = some_fields(ctx, calendar)
    else:   # nearby, by the arithmetic here
        p = position(calendar, fields) + ctx.pick([-1, 1]) * ctx.pick([
            1, 10 ** 6, 86400 * 10 ** 6, 86400 * 10 ** 6 * ctx.rng.randint(1, 400)])
        other = from_position(calendar, p) if p >= 0 else some_fields(ctx, calendar)
        if other[0] > 9999:
            other = some_fields(ctx, calendar)
    u = ctx.accepts('accepted', 'date {} of {}'.format(other, calendar),
                    build(ctx, calendar, other, tz))
    p, q = position(calendar, fields), position(calendar, other)
    if calendar == 'gregorian' and min(fields, other)[:3] < (1582, 10, 15) <= max(
            fields, other)[:3]:
        ctx.saw('across the reform')
    ctx.check('difference', isinstance(u - t, timedelta) and microseconds(u - t) == q - p,
              '{} - {} of {} is {} microseconds, not {}'.format(
                  other, fields, calendar, microseconds(u - t), q - p))
    ctx.check('order', (u > t) == (q > p) and (u < t) == (q < p) and (u == t) == (q == p) and
              (u >= t) == (q >= p) and (u <= t) == (q <= p), 'order of {} and {}'.format(
                  fields, other))
    for delta in (u - t, timedelta(days=ctx.rng.randint(-800, 800)),
                  timedelta(seconds=ctx.rng.randint(-10 ** 6, 10 ** 6)),
                  timedelta(microseconds=ctx.pick([1, -1])), ctx.pick([
                      sympl.timedelta(hours=6), sympl.timedelta(days=365),
                      sympl.timedelta(days=28), sympl.timedelta(0)])):
        target = p + microseconds(delta)
        if target < 0:
            continue
        expected = from_position(calendar, target)
        if expected[0] > 9999:
            continue
        s = t + delta
        ctx.check('addition', fields_of(s) == expected and type(s) is type(t),
                  '{} + {!r} of {} is {}, not {}'.format(
                      fields, delta, calendar, fields_of(s), expected))
        if calendar == 'proleptic_gregorian':
            ctx.check('addition', s.tzinfo is tz, 'time zone of a sum')
        back = s - delta
        ctx.check('addition', back == t and fields_of(back) == fields,
                  '{} + {!r} - {!r} of {} is {}'.format(
                      fields, delta, delta, calendar, fields_of(back)))


def refused_case(ctx, calendar):
    r = ctx.rng
    fields = list(some_fields(ctx, calendar))
    what = ctx.pick(['day', 'day', 'day', 'leap', 'leap', 'field', 'timezone', 'calendar'] +
                    (['reform'] * 3 if calendar == 'gregorian' else []))
    ctx.tag('refused', what, calendar, tuple(fields))
    if what == 'timezone' and calendar != 'proleptic_gregorian':
        tz = ctx.pick([timezone.utc, timezone(timedelta(hours=3)), SUMMER])
        ctx.refuses('refused timezone', ValueError, 'time zone with {}'.format(calendar),
                    build(ctx, calendar, tuple(fields), tz))
        return
    if what == 'calendar':
        name = ctx.pick(UNKNOWN)
        ctx.refuses('refused calendar', ValueError, 'calendar {!r}'.format(name),
                    lambda: sympl.datetime(*fields, calendar=name))
        return
    if what == 'leap':
        ctx.saw('refused leap day')
        ys = [y for y in (r.randint(1, 9999), 100 * r.randint(1, 99), 1900, 2100, 2000, 2019)]
        fields[0] = ctx.pick(ys)
        fields[1], fields[2] = 2, months(calendar, fields[0])[1] + 1
    elif what == 'reform':
        ctx.saw('reform gap')
        fields[:3] = [1582, 10, r.randint(5, 14)]
    elif what == 'field':
        i = r.randint(1, 6)
        fields[i] = ctx.pick([[0, 13, -1], [0, 32, -1], [24, -1], [60, -1], [60, -1],
                              [10 ** 6, -1]][i - 1])
    else:
        fields[2] = ctx.pick([0, 31 if calendar == '360_day' else months(
            calendar, fields[0])[fields[1] - 1] + 1])
    ctx.refuses('refused date', ValueError, 'date {} of {}'.format(fields, calendar),
                build(ctx, calendar, tuple(fields)))


def case(ctx):
    calendar = CALENDARS[ctx.index % len(CALENDARS)]
    ctx.check('default', sympl.timedelta is timedelta, 'sympl.timedelta')
    if ctx.chance(0.65):
        valid_case(ctx, calendar)
    else:
        refused_case(ctx, calendar)
