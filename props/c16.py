"""C16 — byte ranges."""
from pyvc.api import *
from verktyg.http import (
    Range, ContentRange, is_byte_range_valid, parse_range_header, parse_content_range_header,
)
from verktyg.responses import Response
from verktyg.requests import Request

META = {
    'level': 'proof',
    'files': ['verktyg/http/cache_control.py', 'verktyg/http/basic.py'],
}

CC = 'verktyg.http.cache_control:'


def spec_valid(a, b, n):
    if (a is None) != (b is None):
        return False
    if a is None:
        return n is None or n >= 0
    if n is None:
        return 0 <= a and a < b
    return 0 <= a and a < b and a < n


def spec_resolve(units, ranges, n):
    """The (start, stop) to serve, or None."""
    if units != 'bytes' or n is None or len(ranges) != 1:
        return None
    b, e = ranges[0]
    if e is None:
        if b < 0:
            b = b + n
        e = n
    if b < 0 or b >= e or b >= n:
        return None
    return (b, e if e < n else n)


def oint(name, lo=None):
    return lambda g: g.opt(name + '?', lambda g: g.int(name, lo))


VALID = Contract('verktyg.http.basic:is_byte_range_valid', spec_valid)


@harness(functions=['verktyg.http.basic:is_byte_range_valid'])
def h_valid(g):
    """is_byte_range_valid is exactly 0 <= start < stop and start < length."""
    a = oint('start')(g)
    b = oint('stop')(g)
    n = oint('length')(g)
    g.check(bool(is_byte_range_valid(a, b, n)) == spec_valid(a, b, n), 'valid')


def range_items(g):
    return g.list('ranges', lambda g: (g.int('begin'), oint('end')(g)), max=3)


@harness(functions=[CC + 'Range.range_for_length', CC + 'Range.__init__'], uses=[VALID])
def h_resolve(g):
    """range_for_length resolves exactly the single satisfiable byte range, clipped."""
    u = g.str('units', hints=['bytes', 'bytes', 'items'])
    n = oint('length', 0)(g)
    rs = range_items(g)
    want = spec_resolve(u, rs, n)
    got = outcome(Range(u, rs).range_for_length, n)
    g.check(same(got, ('ok', want)), 'resolved')
    if want is not None:
        g.check(0 <= want[0] and want[0] < want[1] and want[1] <= n, 'within')


@harness(functions=[CC + 'Range.make_content_range', CC + 'ContentRange.__init__',
                    CC + 'ContentRange.set'], uses=[VALID])
def h_make_content_range(g):
    """make_content_range describes the same interval as range_for_length."""
    u = g.str('units', hints=['bytes', 'bytes', 'items'])
    n = oint('length', 0)(g)
    rs = range_items(g)
    want = spec_resolve(u, rs, n)
    got = outcome(Range(u, rs).make_content_range, n)
    g.check(got[0] == 'ok', 'noexc')
    cr = got[1]
    if want is None:
        g.check(cr is None, 'none')
    else:
        g.check(cr is not None, 'some')
        g.check(same((cr.units, cr.start, cr.stop, cr.length), (u, want[0], want[1], n)), 'fields')


@harness(functions=[CC + 'ContentRange.set', CC + 'ContentRange.to_header',
                    CC + 'ContentRange.unset'], uses=[VALID])
def h_content_range_set(g):
    """ContentRange only ever holds a valid range: setting an invalid one raises
    ValueError and leaves the old one; the header text is the current one."""
    a0, b0, n0 = g.int('start0', 0), g.int('stop0', 0), oint('length0')(g)
    g.assume(spec_valid(a0, b0, n0))
    calls = []
    cr = ContentRange('bytes', a0, b0, n0, on_update=calls.append)
    k = len(calls)
    a, b, n = oint('start')(g), oint('stop')(g), oint('length')(g)
    got = outcome(cr.set, a, b, n)
    if spec_valid(a, b, n):
        g.check(same(got, ('ok', None)), 'set')
        g.check(len(calls) == k + 1, 'notified')
        g.check(same((cr.units, cr.start, cr.stop, cr.length), ('bytes', a, b, n)), 'fields')
        if a is None:
            want = 'bytes */' + ('*' if n is None else str(n))
        else:
            want = 'bytes ' + str(a) + '-' + str(b - 1) + '/' + ('*' if n is None else str(n))
        g.check(cr.to_header() == want, 'header')
        g.check(bool(cr), 'true')
    else:
        g.check(same(got, ('exc', ValueError)), 'rejected')
        g.check(same((cr.units, cr.start, cr.stop, cr.length), ('bytes', a0, b0, n0)), 'kept')
    cr.unset()
    g.check(cr.to_header() == '' and not cr, 'unset')


@harness(functions=[CC + 'ContentRange.__init__'], uses=[VALID])
def h_content_range_new(g):
    """No ContentRange exists for an invalid range."""
    a, b, n = oint('start')(g), oint('stop')(g), oint('length')(g)
    got = outcome(ContentRange, 'bytes', a, b, n)
    if spec_valid(a, b, n):
        g.check(got[0] == 'ok', 'made')
    else:
        g.check(same(got, ('exc', ValueError)), 'refused')


def item_text(b, e):
    if e is None:
        return str(b) + '-' if b >= 0 else '-' + str(-b)
    return str(b) + '-' + str(e - 1)


@harness(functions=[CC + 'parse_range_header'], n=2500)
def h_parse_one(g):
    """One range spec parses to its half open interval; an empty one is refused."""
    u = g.choice('units', ['bytes', 'Bytes', 'items', ' bytes '])
    kind = g.choice('kind', ['from', 'suffix', 'both'])
    if kind == 'from':
        b = g.int('begin', 0)
        r = parse_range_header(u + '=' + str(b) + '-')
        want = [(b, None)]
    elif kind == 'suffix':
        b = g.int('suffix', 1)
        r = parse_range_header(u + '=-' + str(b))
        want = [(-b, None)]
    else:
        b = g.int('begin', 0)
        last = g.int('last', 0)
        r = parse_range_header(u + '=' + str(b) + '-' + str(last))
        want = [(b, last + 1)] if b <= last else None
    if want is None:
        g.check(r is None, 'refused')
    else:
        g.check(r is not None and r.units == u.strip().lower() and same(list(r.ranges), want),
                'parsed')


@harness(functions=[CC + 'Range.to_header', CC + 'Range.__str__'])
def h_written(g):
    """Ranges are written in order, each as its first and last position."""
    items = g.list('ranges', lambda g: (g.int('begin'), oint('end')(g)), max=4)
    r = Range('bytes', items)
    want = 'bytes=' + ','.join([item_text(b, e) for b, e in items])
    g.check(r.to_header() == want, 'text')
    g.check(str(r) == want, 'str')


@harness(functions=[CC + 'Range.to_header', CC + 'parse_range_header'], n=2500, prove=False,
         note='round trip through a comma separated text of unknown length')
def h_roundtrip(g):
    """Formatting well ordered ranges and parsing them back is the identity."""
    items = g.list('ranges', lambda g: (g.int('gap', 0), g.int('size', 1)), max=4, min=1)
    last = g.choice('last', ['none', 'open', 'suffix'])
    out = []
    pos = 0
    for gap, size in items:
        out.append((pos + gap, pos + gap + size))
        pos = pos + gap + size
    if last == 'open':
        out.append((pos + g.int('tail', 0), None))
    elif last == 'suffix':
        out.append((-g.int('tail', 1), None))
    text = Range('bytes', out).to_header()
    want = 'bytes=' + ','.join([item_text(b, e) for b, e in out])
    g.check(text == want, 'text')
    back = parse_range_header(text)
    g.check(back is not None and back.units == 'bytes' and same(list(back.ranges), out), 'same')
    back.ranges.append((0, 1))
    back.units = 'other'
    again = parse_range_header(text)
    g.check(again is not None and again.units == 'bytes' and same(list(again.ranges), out), 'same again')


@harness(functions=[CC + 'parse_content_range_header', CC + 'ContentRange.to_header'],
         uses=[VALID])
def h_content_range_roundtrip(g):
    """A Content-Range text parses back to the interval it was made from, and an
    invalid one is refused rather than raising."""
    n = oint('length', 0)(g)
    tail = '/' + ('*' if n is None else str(n))
    if g.bool('star'):
        got = outcome(parse_content_range_header, 'bytes *' + tail)
        want = (None, None)
    else:
        a = g.int('start', 0)
        last = g.int('last', 0)
        got = outcome(parse_content_range_header, 'bytes ' + str(a) + '-' + str(last) + tail)
        want = (a, last + 1)
    g.check(got[0] == 'ok', 'noexc')
    cr = got[1]
    if spec_valid(want[0], want[1], n):
        g.check(cr is not None, 'parsed')
        g.check(same((cr.units, cr.start, cr.stop, cr.length),
                     ('bytes', want[0], want[1], n)), 'fields')
        text = cr.to_header()
        cr.set(5, 6, 7)
        cr = parse_content_range_header(text)
        g.check(cr is not None and same((cr.units, cr.start, cr.stop, cr.length),
                                        ('bytes', want[0], want[1], n)), 'read again')
    else:
        g.check(cr is None, 'refused')


# -- arbitrary texts ---------------------------------------------------------

ALPHA = '0123456789-,=/* byteskx\u00b2\u0663_+'


def text(g):
    return g.str('text', alphabet=ALPHA, max=9)


@scenario(functions=[CC + 'parse_range_header'], n=6000,
          note='arbitrary text: the separators are not bounded')
def s_parse_range_any(g):
    """Any Range text either gives None or ascending disjoint non empty
    intervals, and never raises."""
    t = g.choice('prefix', ['bytes=', 'bytes =', '', 'items=']) + text(g)
    got = outcome(parse_range_header, t)
    g.check(got[0] == 'ok', 'noexc')
    r = got[1]
    if r is not None:
        pos = 0
        for i, (b, e) in enumerate(r.ranges):
            if e is None:
                g.check(i == len(r.ranges) - 1, 'open range is the last')
            else:
                g.check(0 <= pos <= b < e, 'ascending')
                pos = e
        n = g.int('length', 0)
        iv = r.range_for_length(n)
        if iv is not None:
            g.check(0 <= iv[0] < iv[1] <= n, 'within the resource')
        found = list(r.ranges)
        del r.ranges[1:]
        r.ranges.append((7, 8))
        g.check(list(parse_range_header(t).ranges) == found, 'the same again')


@scenario(functions=[CC + 'parse_content_range_header'], n=6000,
          note='arbitrary text')
def s_parse_content_range_any(g):
    """Any Content-Range text gives None or a valid range, and never raises."""
    t = g.choice('prefix', ['bytes ', 'bytes', '', 'x ']) + text(g)
    got = outcome(parse_content_range_header, t)
    g.check(got[0] == 'ok', 'noexc')
    cr = got[1]
    if cr is not None:
        g.check(spec_valid(cr.start, cr.stop, cr.length), 'valid')
        again = parse_content_range_header(cr.to_header())
        g.check((again.units, again.start, again.stop, again.length) ==
                (cr.units, cr.start, cr.stop, cr.length), 'round trip')


@scenario(functions=['verktyg.responses:Response.content_range',
                     'verktyg.requests:Request.range'], n=1500,
          note='through the request and response objects')
def s_objects(g):
    """request.range and response.content_range see the same ranges."""
    a, size, extra = g.int('start', 0), g.int('size', 1), g.int('extra', 0)
    req = Request({'HTTP_RANGE': 'bytes=%d-%d' % (a, a + size - 1)})
    g.check(req.range is not None and list(req.range.ranges) == [(a, a + size)], 'request')
    resp = Response('')
    n = a + size + extra
    resp.content_range = req.range.make_content_range(n)
    g.check(resp.headers.get('content-range') == 'bytes %d-%d/%d' % (a, a + size - 1, n), 'set')
    cr = resp.content_range
    g.check((cr.start, cr.stop, cr.length) == (a, a + size, n), 'get')
    cr.set(0, 1, n + 1)
    g.check(resp.headers.get('content-range') == 'bytes 0-0/%d' % (n + 1), 'synchronised')
    resp.content_range.unset()
    g.check('content-range' not in resp.headers, 'unset')
