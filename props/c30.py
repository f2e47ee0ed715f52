"""C30 — dates in headers."""
import calendar
import datetime
import time
from pyvc.api import *
from verktyg.http import http_date, parse_date

META = {
    'level': 'proof',
    'files': ['verktyg/http/basic.py'],
    'assumptions': ['email.utils.parsedate_tz, datetime and time.gmtime are the standard library'],
}

B = 'verktyg.http.basic:'
DAYS = ['Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun']
LONG = ['Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday', 'Saturday', 'Sunday']
MONTHS = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec']


class When(object):
    """A time tuple in UTC."""


def two(n):
    return ('0' if n < 10 else '') + str(n)


@harness(functions=[B + 'http_date', B + '_dump_date'])
def h_format(g):
    """A date is written in the one form that HTTP knows, with the fields of the date in their places."""
    t = When()
    t.tm_year = g.int('year', 1000, 9999)
    t.tm_mon, t.tm_wday = g.choice('month and weekday', [
        (1, 0), (2, 1), (3, 2), (4, 3), (5, 4), (6, 5), (7, 6), (8, 0), (9, 6), (10, 2), (11, 4), (12, 1)])
    t.tm_mday = g.int('day', 1, 31)
    t.tm_hour = g.int('hour', 0, 23)
    t.tm_min = g.int('minute', 0, 59)
    t.tm_sec = g.int('second', 0, 60)
    t.tm_yday = 1
    t.tm_isdst = 0
    want = DAYS[t.tm_wday] + ', ' + two(t.tm_mday) + ' ' + MONTHS[t.tm_mon - 1] + ' ' + str(t.tm_year) + ' '
    want += two(t.tm_hour) + ':' + two(t.tm_min) + ':' + two(t.tm_sec) + ' GMT'
    g.check(http_date(t) == want, 'form')


# -- native -------------------------------------------------------------------

def moment(g, low=1000, high=9999):
    y = g.choice('year', [low, 1999, 2000, 2024, high]) if g.bool('listed') else g.int('any year', low, high)
    g.assume(low <= y and y <= high)
    m = g.int('month', 1, 12)
    d = g.int('day', 1, calendar.monthrange(y, m)[1])
    return datetime.datetime(y, m, d, g.int('hour', 0, 23), g.int('minute', 0, 59), g.int('second', 0, 59))


def fixdate(d):
    return '%s, %02d %s %04d %02d:%02d:%02d GMT' % (
        DAYS[d.weekday()], d.day, MONTHS[d.month - 1], d.year, d.hour, d.minute, d.second)


@scenario(functions=[B + 'http_date', B + '_dump_date', B + 'parse_date'], n=5000, note='calendar arithmetic')
def s_written(g):
    """Datetimes, timestamps and time tuples are written alike, and read back."""
    d = moment(g)
    want = fixdate(d)
    g.check(http_date(d) == want, 'datetime')
    g.check(http_date(d.replace(microsecond=g.int('microsecond', 0, 999999))) == want, 'fractions dropped')
    g.check(http_date(d.timetuple()) == want, 'tuple')
    g.check(parse_date(want) == d, 'read back')
    shift = datetime.timedelta(minutes=g.int('offset', -14 * 60, 14 * 60))
    if 1001 <= d.year <= 9998:
        aware = (d + shift).replace(tzinfo=datetime.timezone(shift))
        g.check(http_date(aware) == want, 'time zone')
    stamp = calendar.timegm(d.timetuple())
    g.check(http_date(stamp) == want, 'timestamp')
    if stamp >= 0:
        g.check(http_date(stamp + 0.5) == want, 'fraction of a second')


@scenario(functions=[B + 'http_date'], n=50, note='the clock')
def s_now(g):
    """Without a date it is now."""
    before = int(time.time())
    d = parse_date(http_date())
    g.check(before <= calendar.timegm(d.timetuple()) <= time.time(), 'now')


@scenario(functions=[B + 'parse_date'], n=6000, note='the parser is the standard library')
def s_forms(g):
    """All forms of a date that HTTP allows are read as the same moment in UTC; years of two digits are near."""
    form = g.choice('form', ['1123', '850', 'asctime', 'zone', 'no zone', '850 long'])
    if form in ('850', '850 long'):
        d = moment(g, 1969, 2068)
    else:
        d = moment(g)
    t = '%02d:%02d:%02d' % (d.hour, d.minute, d.second)
    if form == '1123':
        s = fixdate(d)
    elif form == '850':
        s = '%s, %02d-%s-%02d %s GMT' % (LONG[d.weekday()], d.day, MONTHS[d.month - 1], d.year % 100, t)
    elif form == '850 long':
        s = '%s, %02d-%s-%04d %s GMT' % (LONG[d.weekday()], d.day, MONTHS[d.month - 1], d.year, t)
    elif form == 'asctime':
        s = '%s %s %2d %s %04d' % (DAYS[d.weekday()], MONTHS[d.month - 1], d.day, t, d.year)
    elif form == 'no zone':
        s = fixdate(d)[:-4]
    else:
        # the moment is what is written less the offset
        h, m = g.int('h', 0, 14), g.choice('m', [0, 30, 45])
        sign = g.choice('sign', ['+', '-'])
        s = '%s, %d %s %04d %s %s%02d%02d' % (DAYS[d.weekday()], d.day, MONTHS[d.month - 1], d.year, t, sign, h, m)
        delta = datetime.timedelta(hours=h, minutes=m)
        g.assume(1001 <= d.year <= 9998)
        d = d - delta if sign == '+' else d + delta
    pad = g.choice('pad', ['', ' ', '\t', '  '])
    case = g.choice('case', [str, str.lower, str.upper])
    g.check(parse_date(pad + case(s) + pad) == d, 'read')
    g.check(parse_date(pad + case(s) + pad).tzinfo is None, 'naive')


BITS = ['Sun,', 'Sunday,', '06', 'Nov', '1994', '94', '08:49:37', '8:49', 'GMT', '+0100', '-0500', 'EST', 'Z', '6',
        '24:00:00', '99:99:99', '31', 'Feb', '0', '-', '--', ',', '.', '08.49', '5', '0099', '99999', '1e3', '\u0663',
        '+', '-1', '+99999', '2016:', '1:2:3:4', '06-Nov-94', '06-Nov-', '-Nov-94', '', '\x00', '9' * 30, '-9999']


@scenario(functions=[B + 'parse_date'], n=6000, note='the parser is the standard library')
def s_malformed(g):
    """Whatever a header says, it is a date or None, never an error."""
    s = ' '.join(g.choice('bit', BITS) for _ in range(g.int('bits', 0, 7)))
    if g.bool('cut'):
        s = fixdate(moment(g))
        i = g.int('at', 0, len(s))
        s = s[:i] + g.choice('insert', BITS) + s[i + g.int('cut out', 0, 3):]
    d = parse_date(s)
    g.check(d is None or isinstance(d, datetime.datetime) and d.tzinfo is None, 'date or None')
    if not s:
        g.check(d is None and parse_date(None) is None, 'empty')
    if d is not None and d.year >= 1000:
        g.check(parse_date(http_date(d)) == d, 'stable')


@scenario(functions=[B + 'parse_date'], n=1500, note='the parser is the standard library')
def s_impossible(g):
    """A day or a time that does not exist is no date."""
    y, m = g.int('year', 1000, 9999), g.int('month', 1, 12)
    last = calendar.monthrange(y, m)[1]
    what = g.choice('what', ['day', 'hour', 'minute', 'fine'])
    d = g.int('day', last + 1, 40) if what == 'day' else g.int('fine day', 1, last)
    h = g.int('hour', 24, 60) if what == 'hour' else g.int('fine hour', 0, 23)
    n = g.int('minute', 60, 99) if what == 'minute' else g.int('fine minute', 0, 59)
    s = 'Mon, %02d %s %04d %02d:%02d:%02d GMT' % (d, MONTHS[m - 1], y, h, n, 7)
    g.check(parse_date(s) == (datetime.datetime(y, m, d, h, n, 7) if what == 'fine' else None), 'read')
