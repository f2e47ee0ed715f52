"""C17 — entity tags and conditional requests."""
import datetime
from pyvc.api import *
from verktyg.http import (
    ETags, Headers, parse_etags, quote_etag, unquote_etag, generate_etag, is_resource_modified, http_date,
    parse_if_range_header, parse_date,
)
from verktyg.responses import Response
from verktyg.requests import Request

META = {
    'level': 'proof',
    'files': ['verktyg/http/cache_control.py', 'verktyg/responses.py'],
    'assumptions': ['in the proof of is_resource_modified the two parsers are replaced by arbitrary results '
                    '(dates are numbers of microseconds); the regular expression of parse_etags is evaluated '
                    'natively'],
}

CC = 'verktyg.http.cache_control:'


def tag(g, name):
    return g.str(name, hints=['a', 'b', 'w/a', ''])


@harness(functions=[CC + 'quote_etag', CC + 'unquote_etag'])
def h_quote(g):
    """Quoting an entity tag is undone by unquoting, and refused when it cannot be."""
    t = g.str('tag', hints=['a', 'w/', ' a ', '', '"', 'a"b'])
    weak = g.bool('weak')
    o = outcome(lambda: quote_etag(t, weak))
    if '"' in t:
        g.check(same(o, ('exc', ValueError)), 'refused')
    else:
        g.check(o[0] == 'ok' and same(unquote_etag(o[1]), (t, weak)), 'round trip')
        g.check(same(unquote_etag(' ' + o[1] + '\t '), (t, weak)), 'space around')


@harness(functions=[CC + 'ETags.contains', CC + 'ETags.contains_weak', CC + 'ETags.is_weak',
                    CC + 'ETags.contains_raw', CC + 'ETags.__call__', CC + 'ETags.__contains__',
                    CC + 'ETags.__bool__'])
def h_sets(g):
    """Strong comparison sees the strong tags, weak comparison both, and a star everything."""
    strong = g.list('strong', lambda g: tag(g, 's'), max=3)
    weak = g.list('weak', lambda g: tag(g, 'w'), max=3)
    star = g.bool('star')
    e = ETags(strong, weak, star)
    t = tag(g, 'tag')
    is_strong = star or exists(strong, lambda s: s == t)
    is_weak = exists(weak, lambda s: s == t)
    g.check(same(e.contains(t), is_strong), 'strong')
    g.check(same(t in e, is_strong), 'in')
    g.check(same(e.is_weak(t), is_weak), 'weak')
    g.check(same(e.contains_weak(t), is_strong or is_weak), 'weak comparison')
    if not star:
        g.check(same(e(t), is_strong), 'called')
        g.check(same(e(etag=t, include_weak=True), is_strong or is_weak), 'called with weak tags')
    g.check(same(outcome(lambda: e()), ('exc', TypeError)), 'tag or data')
    g.check(same(outcome(lambda: e(t, b'x')), ('exc', TypeError)), 'not both')
    if '"' not in t:
        g.check(same(e.contains_raw(quote_etag(t)), is_strong), 'raw strong')
        g.check(same(e.contains_raw(quote_etag(t, True)), is_strong or is_weak), 'raw weak')
    g.check(same(bool(e), star or len(strong) > 0 or len(weak) > 0), 'any')


@harness(functions=[CC + 'ETags.__init__', CC + 'ETags.contains', CC + 'ETags.is_weak', CC + 'ETags.contains_weak'])
def h_given(g):
    """The tags are those it was made with, in whatever form they came and whatever becomes of that."""
    s, w, t = tag(g, 's'), tag(g, 'w'), tag(g, 'tag')
    how = g.choice('how', ['list', 'tuple', 'set', 'iterator', 'changed', 'emptied', 'none'])
    strong, weak = [s], [w]
    if how == 'tuple':
        e = ETags((s,), (w,))
    elif how == 'set':
        e = ETags({s}, weak_etags={w})
    elif how == 'iterator':
        e = ETags((x for x in strong), (x for x in weak))
    elif how == 'none':
        e = ETags(None, None)
        strong, weak = [], []
    else:
        e = ETags(strong_etags=strong, weak_etags=weak)
    if how == 'changed':
        strong.append(t)
        weak.append(t)
    elif how == 'emptied':
        del strong[:]
        del weak[:]
    for _ in range(2):
        g.check(e.contains(t) == (how != 'none' and s == t), 'strong')
        g.check(e.is_weak(t) == (how != 'none' and w == t), 'weak')
        g.check(e.contains_weak(t) == (how != 'none' and (s == t or w == t)), 'either')
    g.check(not e.star_tag, 'no star')


def only(g):
    return lambda name: g.str(name, only='a-z0-9', max=6, nonempty=True)


class Date(object):
    """A point in time."""
    def __init__(self, t):
        self.t = t

    def replace(self, microsecond):
        return Date(self.t - self.t % 1000000 + microsecond)

    def __le__(self, other):
        return self.t <= other.t

    def __lt__(self, other):
        return self.t < other.t

    def __ge__(self, other):
        return self.t >= other.t

    def __gt__(self, other):
        return self.t > other.t


def read(v):
    """Stand-in for the parsers: what is in the environ is already parsed."""
    return v


def read_tags(v):
    return ETags() if v is None else v


@harness(functions=[CC + 'is_resource_modified'], uses=[
    Abstract(CC + 'parse_date', read), Abstract(CC + 'parse_etags', read_tags)])
def h_modified(g):
    """A resource is unmodified if its tag is named, or, without tags, its date is not after the one given."""
    method = g.choice('method', ['GET', 'HEAD'])
    t = g.opt('tag?', lambda g: g.str('tag', hints=['a', 'b'], nonempty=True))
    g.assume(t is None or '"' not in t)
    weak = g.bool('weak')
    date = g.opt('date?', lambda g: g.int('date', 0))
    since = g.opt('since?', lambda g: g.int('since', 0))
    given = g.opt('given?', lambda g: g.list('given', lambda g: tag(g, 'strong'), max=3))
    given_weak = g.list('given weak', lambda g: tag(g, 'gw'), max=2)
    star = g.bool('star')
    tags = None if given is None else ETags(given, given_weak, star)
    env = {'REQUEST_METHOD': method}
    if g.native:
        # the real parsers are at work
        g.assume(all(x.isalnum() for x in (given or []) + given_weak))
        g.assume(max(date or 0, since or 0) < 10 ** 9)
    if since is not None:
        env['HTTP_IF_MODIFIED_SINCE'] = http_date(since) if g.native else Date(since * 1000000)
    if tags is not None:
        env['HTTP_IF_NONE_MATCH'] = str(tags) if g.native else tags
    changed = None
    if date is not None:
        micro = g.int('micro', 0, 999999)
        changed = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=date, microseconds=micro) \
            if g.native else Date(date * 1000000 + micro)
    r = is_resource_modified(env, None if t is None else quote_etag(t, weak), None, changed)
    if t is not None and tags is not None and (star or len(given) > 0 or len(given_weak) > 0):
        hit = star or exists(given, lambda s: s == t) or (weak and exists(given_weak, lambda s: s == t))
        g.check(same(r, not hit), 'by tag')
    elif date is not None and since is not None:
        g.check(same(r, date > since), 'by date')
    else:
        g.check(same(r, True), 'modified')


DATES = ['Thu, 01 Jan 2015 00:00:00 GMT', 'Thu, 01 Jan 2015 00:00:01 GMT', 'Fri, 02 Jan 2015 00:00:00 GMT']


def modified(environ, etag=None, data=None, last_modified=None):
    """Contract of is_resource_modified for a single strong tag and the three dates above, proved above."""
    if environ['REQUEST_METHOD'] not in ('GET', 'HEAD'):
        return False
    if etag is not None and 'HTTP_IF_NONE_MATCH' in environ:
        return environ['HTTP_IF_NONE_MATCH'] != etag
    if last_modified is not None and 'HTTP_IF_MODIFIED_SINCE' in environ:
        return DATES.index(last_modified) > DATES.index(environ['HTTP_IF_MODIFIED_SINCE'])
    return True


NOW = 'Sat, 03 Jan 2015 00:00:00 GMT'


def clock(timestamp=None):
    return NOW


class Asked(object):
    def __init__(self, environ):
        self.environ = environ


@harness(functions=['verktyg.responses:ETagResponseMixin.make_conditional',
                    'verktyg.responses:ETagResponseMixin.set_etag'], budget=60,
         uses=[Contract(CC + 'is_resource_modified', modified), Abstract('verktyg.http.basic:http_date', clock)])
def h_conditional(g):
    """Only a GET or HEAD is made conditional: it gets a date and, if it is known, a length where it has none, and
    is a 304 exactly if it is unmodified; no other header changes."""
    word = only(g)
    items = [('X-A', word('value'))]
    body = g.bytes('body', hints=[b'', b'abc'])
    kind = g.choice('kind', ['list', 'streamed', 'once', 'not automatic'])
    status = g.choice('status', [200, 404]) if kind == 'list' else 200
    r = Response([body] if kind in ('list', 'not automatic') else iter([body]), status=status)
    if kind == 'once':
        r.implicit_sequence_conversion = False
    if kind == 'not automatic':
        r.automatically_set_content_length = False
    own, given = None, None
    if kind == 'list':
        own = g.opt('own?', lambda g: word('own'))
        given = g.opt('given?', lambda g: word('given'))
    changed, since = g.choice('dates', [(None, None), (1, None), (None, 1), (0, 1), (1, 1), (1, 0)])
    changed = None if changed is None else DATES[changed]
    since = None if since is None else DATES[since]
    date = g.opt('date?', lambda g: DATES[2])
    length = g.opt('length?', lambda g: g.str('length', only='0-9', max=4, nonempty=True))
    before = items + ([] if changed is None else [('Last-Modified', changed)]) + \
        ([] if date is None else [('Date', date)]) + ([] if length is None else [('Content-Length', length)])
    r.headers = Headers(before)
    if own is not None:
        r.set_etag(own)
        before = before + [('ETag', '"' + own + '"')]
    g.check(same([kv for kv in r.headers], before), 'tagged')
    method = g.choice('method', ['GET', 'HEAD', 'POST'])
    environ = {'REQUEST_METHOD': method}
    if given is not None:
        environ['HTTP_IF_NONE_MATCH'] = '"' + given + '"'
    if since is not None:
        environ['HTTP_IF_MODIFIED_SINCE'] = since
    asked = 'environ' if method == 'HEAD' else 'request'
    g.check(r.make_conditional(environ if asked == 'environ' else Asked(environ)) is r, 'returns itself')
    after = [kv for kv in r.headers]
    if method not in ('GET', 'HEAD'):
        g.check(same(after, before), 'headers kept')
        g.check(same(r.status_code, status), 'status kept')
        return
    if own is not None and given is not None:
        have = own == given
    elif changed is not None and since is not None:
        have = DATES.index(changed) <= DATES.index(since)
    else:
        have = False
    g.check(same(r.status_code, 304 if have else status), 'status')
    if date is None:
        new = r.headers['Date']
        g.check(parse_date(new) is not None if g.native else new == NOW, 'dated now')
        before = before + [('Date', new)]
    if length is None and kind in ('list', 'streamed'):
        before = before + [('Content-Length', str(len(body)))]
    g.check(same(after, before), 'headers')


# -- native -------------------------------------------------------------------

TAG = ['a', 'foo', 'x-1', 'a b', 'a,b', "it's", '\xe9', 'w/x', '*', '', ' ', '/', ',', 'a, "b']


@scenario(functions=[CC + 'parse_etags', CC + 'ETags.to_header', CC + 'ETags.as_set', CC + 'ETags.__iter__',
                     CC + 'ETags.__str__'], n=6000, note='header text')
def s_parse(g):
    """A list of tags is read as written, and what is written for the result reads the same."""
    strong, weak, parts = set(), set(), []
    for _ in range(g.int('n', 0, 5)):
        t = g.choice('tag', TAG)
        g.assume('"' not in t)
        kind = g.choice('kind', ['strong', 'weak', 'bare'])
        if kind == 'bare':
            g.assume(t and t.isalnum())
            parts.append(t)
            strong.add(t)
        elif kind == 'weak':
            parts.append(g.choice('w', ['w/', 'W/']) + '"%s"' % t)
            weak.add(t)
        else:
            parts.append('"%s"' % t)
            strong.add(t)
    text = ''
    for i, p in enumerate(parts):
        text += (g.choice('sep', [',', ', ', ' , ', ',  ']) if i else '') + p
    e = parse_etags(text)
    g.check(e.as_set() == strong and set(e) == strong, 'strong')
    g.check(e.as_set(include_weak=True) == strong | weak, 'weak')
    g.check(all(e.is_weak(t) for t in weak) and not any(e.is_weak(t) for t in strong - weak), 'which are weak')
    f = parse_etags(e.to_header())
    g.check(f.as_set() == strong and f.as_set(True) == strong | weak, 'round trip')
    g.check([t for t in TAG if f.is_weak(t)] == [t for t in TAG if t in weak], 'weak again')
    made = ETags(strong, list(weak))
    f = parse_etags(str(made))
    g.check(f.as_set() == strong and {t for t in strong | weak if f.is_weak(t)} == weak, 'written')
    made.as_set(True).add('more')
    made.as_set().add('more')
    g.check('more' not in made and 'more' not in made.as_set(True), 'its own set')
    data = g.choice('data', [b'', b'x', b'abc'])
    known = g.choice('known', ['strong', 'weak', 'no'])
    t = generate_etag(data)
    e2 = ETags(strong | {t} if known == 'strong' else strong, weak | {t} if known == 'weak' else weak)
    g.check(e2(data=data) == (known == 'strong'), 'data')
    g.check(e2(data=data, include_weak=True) == (known != 'no'), 'data, weakly')
    g.check(e2(etag=t) == e2(data=data) and e2(t, include_weak=True) == (known != 'no'), 'tag of the data')
    g.check(bool(e) == bool(parts), 'any')
    for t in TAG:
        if '"' not in t:
            g.check(e.contains_raw(quote_etag(t)) == (t in strong), 'contains')
            g.check(e.contains_raw(quote_etag(t, True)) == (t in strong or t in weak), 'contains weak')
    star = g.choice('star', ['*', '*, "a"', '"b", *'])
    s = parse_etags(star)
    g.check(s.star_tag and 'anything' in s and s.to_header() == '*', 'star')


@scenario(functions=[CC + 'parse_etags', CC + 'unquote_etag', CC + 'parse_if_range_header'], n=6000,
          note='any text')
def s_total(g):
    """No text makes the readers fail, or find a tag that is not in the text."""
    text = g.opt('none', lambda g: ''.join(
        g.choice('c', ['a', '"', ',', ' ', 'w/', 'W/', '*', '\n', '\r', '\\', '\t', '\xe9', '1', '""'])
        for _ in range(g.int('len', 0, 10))))
    e = parse_etags(text)
    for t in e.as_set(True):
        g.check(isinstance(t, str) and t in text, 'from the text')
    t, weak = unquote_etag(text)
    g.check(t is None if not text else t in text, 'one tag')
    r = parse_if_range_header(text)
    g.check(r.date is None or r.etag is None, 'one of both')
    str(e)


@scenario(functions=['verktyg.responses:ETagResponseMixin.make_conditional', CC + 'is_resource_modified',
                     'verktyg.responses:ETagResponseMixin.add_etag', 'verktyg.responses:ETagResponseMixin.set_etag',
                     'verktyg.responses:ETagResponseMixin.get_etag', CC + 'generate_etag',
                     'verktyg.responses:ETagResponseMixin.freeze',
                     'verktyg.requests:ETagRequestMixin'], n=4000, note='whole responses')
def s_response(g):
    """A response made conditional is empty with status 304 exactly when the client already has it."""
    body = g.choice('body', [b'', b'abc', '\xe9t\xe9'])
    data = body.encode('utf8') if isinstance(body, str) else body
    r = Response(body)
    own = None
    how = g.choice('tagged', ['no', 'data', 'set', 'weak', 'freeze'])
    if how == 'data':
        r.add_etag()
        own = generate_etag(data)
    elif how == 'freeze':
        r.freeze()
    elif how != 'no':
        own = g.choice('own', ['a', 'b'])
        r.set_etag(own, weak=how == 'weak')
        r.add_etag()
    g.check(r.get_etag() == ((None, None) if own is None else (own, how == 'weak')), 'tag')
    now = datetime.datetime(2020, 1, 2, 3, 4, 5)
    date = g.opt('dated', lambda g: now + datetime.timedelta(seconds=g.int('shift', -2, 2)))
    if date is not None:
        r.last_modified = date
    method = g.choice('method', ['GET', 'HEAD', 'POST'])
    env = {'REQUEST_METHOD': method, 'wsgi.url_scheme': 'http', 'SERVER_NAME': 'x', 'SERVER_PORT': '80'}
    named = g.opt('names', lambda g: [(g.choice('t', ['a', 'b', generate_etag(data)]), g.bool('weakly'))
                                      for _ in range(g.int('nt', 0, 3))])
    if named is not None:
        env['HTTP_IF_NONE_MATCH'] = ', '.join(quote_etag(t, w) for t, w in named)
    since = g.opt('since', lambda g: now + datetime.timedelta(seconds=g.int('offset', -2, 2)))
    if since is not None:
        env['HTTP_IF_MODIFIED_SINCE'] = http_date(since)
    if named and own is not None:
        have = any(t == own and (not w or how == 'weak') for t, w in named)
    else:
        have = date is not None and since is not None and date <= since
    have = have and method != 'POST'
    req = Request(env, populate_request=False)
    g.check(req.if_modified_since == since, 'date of the request')
    g.check(req.if_none_match.as_set() == {t for t, w in named or () if not w}, 'tags of the request')
    g.check(r.make_conditional(req if g.bool('request') else env) is r, 'returns itself')
    g.check((r.status_code == 304) == have, 'unmodified')
    out = []
    sent = b''.join(r(env, lambda status, headers: out.append((status, headers))))
    g.check(sent == (b'' if have or method == 'HEAD' else data), 'body')
    status, headers = out[0]
    g.check(all(type(v) is str for k, v in headers), 'header text')
    names = {k.lower(): v for k, v in headers}
    g.check(status[:3] == ('304' if have else '200'), 'status')
    g.check(('etag' in names) == (own is not None) and ('date' in names or method == 'POST'), 'headers')
    if have:
        g.check('content-length' not in names and 'content-type' not in names, 'no entity headers')
    else:
        g.check(names['content-length'] == str(len(data)), 'length')


@scenario(functions=[CC + 'IfRange', CC + 'parse_if_range_header'], n=1500, note='header text')
def s_if_range(g):
    """If-Range is a date or a tag, and is written as it is read."""
    if g.bool('dated'):
        d = datetime.datetime(2000, 1, 1) + datetime.timedelta(seconds=g.int('s', 0, 10 ** 9))
        r = parse_if_range_header(http_date(d))
        g.check(r.date == d and r.etag is None, 'date')
        g.check(r.to_header() == http_date(d), 'round trip')
    else:
        t = g.choice('tag', ['a', 'foo', 'x-1', '\xe9', 'w/x'])
        r = parse_if_range_header(quote_etag(t, g.bool('weak')))
        g.check(r.etag == t and r.date is None, 'tag')
        g.check(r.to_header() == quote_etag(t), 'round trip')
