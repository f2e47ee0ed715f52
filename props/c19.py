"""C19 — cookies."""
import datetime
from pyvc.api import *
from verktyg.datastructures import MultiDict
from verktyg.http import dump_cookie, parse_cookie, cookie_date, parse_date, Headers
from verktyg.requests import BaseRequest, Request
from verktyg.responses import Response
from verktyg.test import Client
import verktyg.http.cookies as cookies

META = {
    'level': 'proof',
    'files': ['verktyg/http/cookies.py', 'verktyg/responses.py'],
    'assumptions': ['in the proof of dump_cookie the quoting of values, the encoding of domains and of paths are '
                    'arbitrary functions; UTF-8 is an arbitrary injective encoding that leaves ASCII alone'],
}

K = 'verktyg.http.cookies:'
S = 'verktyg.responses:BaseResponse.'


class Latin(Response):
    charset = 'latin1'


def quoted(value):
    """The value as dump_cookie writes it."""
    return dump_cookie('k', value, path=None)[2:]


PATHS = [('/', '/'), ('/a b', '/a%20b'), ('/\xe9', '/%C3%A9'), ('', '')]
DOMAINS = [('example.org', 'example.org'), ('.x.y', '.x.y'), ('a.b:80', 'a.b')]


@harness(functions=[K + 'dump_cookie', K + '_make_cookie_domain'], uses=[
    Opaque(K + '_cookie_quote', ('bytes',), 'bytes')])
def h_dump(g):
    """A cookie is its name, the quoted value and exactly the attributes asked for, in a fixed order."""
    key = g.str('key', alphabet='abcXYZ-_', hints=['a', 'Foo'], nonempty=True)
    value = g.str('value', hints=['', 'a;b', 'x y', '\xe9'])
    path, domain = g.choice('where', [
        (None, None), (PATHS[0], None), (None, DOMAINS[0]), (PATHS[1], DOMAINS[1]), (PATHS[2], DOMAINS[2]),
        (PATHS[3], DOMAINS[0])])
    expires = g.opt('expires?', lambda g: g.str('expires', hints=['Thu, 01-Jan-1970 00:00:00 GMT'], alphabet='ab:'))
    age = g.opt('age?', lambda g: g.int('age', 0))
    g.assume(key.isascii() and (expires is None or expires.isascii()))
    secure = g.bool('secure')
    http = g.bool('http')
    want = key + '=' + quoted(value)
    if domain is not None:
        want += '; Domain=' + quoted(domain[1])
    if expires is not None:
        want += '; Expires=' + expires
    if age is not None:
        want += '; Max-Age=' + str(age)
    if secure:
        want += '; Secure'
    if http:
        want += '; HttpOnly'
    if path is not None:
        want += '; Path=' + path[1]
    got = dump_cookie(key, value, age, expires, None if path is None else path[0],
                      None if domain is None else domain[0], secure, http, sync_expires=False)
    g.check(same(got, want), 'cookie')


def told(key, value='', max_age=None, expires=None, path='/', domain=None, secure=False, httponly=False,
         charset='utf-8', sync_expires=True):
    """Stand-in for dump_cookie: any text that tells its arguments."""
    return '%s=%s; %s; %s; %s; %s; %s; %s; %s; %s' % (
        key, value, max_age, expires, path, domain, 'secure' if secure else '', 'http' if httponly else '',
        charset, 'sync' if sync_expires else '')


WORD = 'abcdefghijklmnopqrstuvwxyz0123456789'


@harness(functions=[S + 'set_cookie', S + 'delete_cookie'], uses=[Abstract(K + 'dump_cookie', told)])
def h_set(g):
    """Setting or deleting a cookie adds one header with what was asked for, and leaves all others alone."""
    items = g.list('items', lambda g: (g.str('name', hints=['X-A', 'Set-Cookie', 'set-cookie']),
                                       g.str('text', only=WORD, hints=['', 'a'])), max=3)
    cls = g.choice('class', [Response, Latin])
    r = cls()
    r.headers = Headers(items)
    key = g.str('key', only=WORD, nonempty=True)
    value = g.str('value', only=WORD)
    path = g.choice('path', [None, '/', '/p'])
    domain = g.choice('domain', [None, 'example.org'])
    if g.bool('deleted'):
        more = {}
        if path != '/':
            more['path'] = path
        if domain is not None:
            more['domain'] = domain
        r.delete_cookie(key, **more)
        want = dump_cookie(key, '', 0, 0, path, domain, charset=cls.charset)
    else:
        age = g.opt('age?', lambda g: g.int('age', 0, 99))
        expires = g.choice('expires', [0, 1000000000])
        secure, http = g.bool('secure'), g.bool('http')
        if g.bool('named'):
            r.set_cookie(key, value=value, max_age=age, expires=expires, path=path, domain=domain, secure=secure,
                         httponly=http)
        else:
            r.set_cookie(key, value, age, expires, path, domain, secure, http)
        want = dump_cookie(key, value, age, expires, path, domain, secure, http, cls.charset)
    g.check(same([kv for kv in r.headers], items + [('Set-Cookie', want)]), 'added')


# -- native -------------------------------------------------------------------

def first_part(header):
    """What a client sends back."""
    return header.split(';')[0]


@scenario(functions=[K + '_cookie_quote', K + '_cookie_unquote', K + 'parse_cookie', K + '_cookie_parse_impl'],
          n=800, note='pairs of bytes, alone and before a digit or a quote')
def s_pairs(g):
    """A value of any bytes is written in plain characters that cannot end it, and read back."""
    plain = [chr(c) for c in range(32, 127) if chr(c) not in ';,']
    tail = g.choice('tail', ['', '1', '"'])
    a = g.int('byte', 0, 255)
    for b in range(256):
        value = chr(a) + chr(b) + tail
        text = dump_cookie('k', value, path=None, charset='latin1')
        if not all(c in plain for c in text):
            g.check(False, 'plain')
        if parse_cookie('a=b; ' + text + '; c=d', charset='latin1') != {'a': 'b', 'k': value, 'c': 'd'}:
            g.check(False, 'read back')
    g.check(True, 'done')


PART = ['', 'a', ';', ',', '"', '\\', ' ', '=', '\n', '\r', '\x00', '\xe9', '\u20ac', '1', '073', '\\073', '\\"', ';x=y',
        '\x7f', '/', '(', '\t']
NAME = ['a', 'b', 'Foo', 'x-y', 'secureX', '$v', '\xe9']


@scenario(functions=[K + 'dump_cookie', K + 'parse_cookie', K + '_cookie_quote', K + '_cookie_unquote',
                     K + 'cookie_date', 'verktyg.requests:BaseRequest.cookies'], n=8000, note='header text')
def s_round(g):
    """Cookies that were set come back as they were, in order, whatever else the client sends between them."""
    charset = g.choice('charset', ['utf-8', 'utf-8', 'latin1'])
    pairs = [(g.choice('name', NAME), ''.join(g.choice('c', PART) for _ in range(g.int('len', 0, 5))))
             for _ in range(g.int('n', 0, 4))]
    g.assume(charset == 'utf-8' or not any('\u20ac' in v for n, v in pairs))
    parts = []
    for n, v in pairs:
        text = dump_cookie(n, v, charset=charset, path=g.choice('path', ['/', None]),
                           httponly=g.bool('http'))
        Headers().add('Set-Cookie', text)
        part = first_part(text)
        g.check(part.isascii() or '\xe9' in n, 'ASCII')
        if g.bool('junk'):
            parts.append(g.choice('junk text', ['foo', '', 'Secure', 'path=/', 'Expires=Thu', 'version=1', ' ']))
        parts.append(part)
    sep = g.choice('sep', ['; ', ';', ' ; '])
    header = sep.join(parts)
    got = parse_cookie(header, charset=charset, cls=MultiDict)
    want = MultiDict(pairs)
    g.check(list(got.lists()) == list(want.lists()), 'cookies')
    g.check(parse_cookie({'HTTP_COOKIE': header}, charset=charset) == dict(pairs), 'from an environ')
    g.check(parse_cookie(None) == {} and parse_cookie({}) == {}, 'none')
    if charset == 'utf-8':
        r = Request({'HTTP_COOKIE': header, 'REQUEST_METHOD': 'GET'}, populate_request=False)
        g.check(dict(r.cookies) == {n: want[n] for n in want} or dict(r.cookies) == dict(pairs), 'request')


@scenario(functions=[K + 'parse_cookie', K + '_cookie_parse_impl', K + '_cookie_unquote'], n=8000, note='any text')
def s_total(g):
    """No header makes the reader fail, and well formed cookies at its end are found after it."""
    text = ''.join(g.choice('c', ['a', '=', ';', '"', '\\', ' ', ',', '0', '\xff', '\xe2', '\\"', '\\07', '\\377', '\t', '\u20ac'])
                   for _ in range(g.int('len', 0, 14)))
    got = parse_cookie(text)
    g.check(all(type(k) is str and type(v) is str for k, v in got.items()), 'text')
    found = dict(got)
    got.clear()
    got['more'] = 'x'
    got = parse_cookie(text)
    g.check(got == found, 'the same again')
    text = text.replace('\u20ac', '?')
    raw = [p.strip() for p in text.split(';')]
    if '"' not in text and '\\' not in text:
        want = {}
        for p in raw:
            k, eq, v = p.partition('=')
            if eq and k.strip():
                want[k.strip().encode('latin1').decode('utf8', 'replace')] = \
                    v.strip().encode('latin1').decode('utf8', 'replace')
        if not any(p.startswith('=') for p in raw):
            g.check(got == want, 'plain cookies')
        g.check(parse_cookie(text + '; end=1').get('end') == '1', 'last')


@scenario(functions=['verktyg.responses:BaseResponse.set_cookie', 'verktyg.responses:BaseResponse.delete_cookie',
                     K + 'dump_cookie', K + 'cookie_date', 'verktyg.test:Client'], n=1500, note='whole requests')
def s_browser(g):
    """A client sends back the cookies that were set and not deleted."""
    jar = {}
    todo = []

    def app(environ, start_response):
        req = BaseRequest(environ)
        r = Response(repr(sorted(req.cookies.items())))
        for op in todo:
            if op[0] == 'set':
                r.set_cookie(op[1], op[2], max_age=op[3])
            else:
                r.delete_cookie(op[1])
        return r(environ, start_response)

    c = Client(app, Response)
    for _ in range(g.int('requests', 1, 3)):
        todo[:] = []
        for name in ['a', 'b']:
            op = g.choice('op', ['keep', 'set', 'delete'])
            if op == 'set':
                v = g.choice('value', ['x', '', 'a b', 'p;q', 'q"r', '\xe9', 'a,b', '\n', '1\\2'])
                todo.append(('set', name, v, g.choice('age', [None, 3600])))
            elif op == 'delete':
                todo.append(('delete', name))
        got = c.get('/').get_data(as_text=True)
        g.check(got == repr(sorted(jar.items())), 'sent')
        for op in todo:
            if op[0] == 'set':
                jar[op[1]] = op[2]
            else:
                jar.pop(op[1], None)
    todo[:] = []
    g.check(c.get('/').get_data(as_text=True) == repr(sorted(jar.items())), 'sent')
    # cookies for a domain and a path, given to the client itself
    c = Client(app, Response)
    d, path = g.choice('domain', [None, '.a.test', '.www.a.test']), g.choice('path', ['/', '/x'])
    base = 'http://www.a.test/'
    c.set_cookie('www.a.test', 'd', 'v', domain=d, path=path)
    g.check(c.get('/x', base).get_data(as_text=True) == repr([('d', 'v')]), 'sent to the domain')
    c.delete_cookie('www.a.test', 'd', domain=d, path=path)
    g.check(c.get('/x', base).get_data(as_text=True) == '[]', 'deleted')


@scenario(functions=[K + 'dump_cookie', K + 'cookie_date', K + '_make_cookie_domain'], n=1500, note='attributes')
def s_attributes(g):
    """Attributes say what was asked for."""
    age = g.choice('age', [None, 0, 60, datetime.timedelta(days=1, seconds=5)])
    when = g.opt('expires', lambda g: datetime.datetime(1990, 1, 1) + datetime.timedelta(seconds=g.int('s', 0, 10 ** 9)))
    domain = g.choice('domain', [None, 'example.org', '.example.org', 'b\xfccher.de', 'localhost', 'x.y:80'])
    secure, http = g.bool('secure'), g.bool('http')
    o = outcome(lambda: dump_cookie('k', 'v', age, when, g.choice('path', ['/', '/a b']), domain, secure, http))
    if domain == 'localhost':
        g.check(o == ('exc', ValueError), 'local domain')
        return
    parts = o[1].split('; ')
    at = dict(p.partition('=')[::2] for p in parts)
    g.check(len(at) == len(parts) and parts[0] == 'k=v', 'once')
    g.check(('Secure' in at) == secure and ('HttpOnly' in at) == http, 'flags')
    want = None if domain is None else {'b\xfccher.de': 'xn--bcher-kva.de', 'x.y:80': 'x.y'}.get(domain, domain)
    g.check(at.get('Domain') == want, 'domain')
    if age is None:
        g.check('Max-Age' not in at, 'no age')
    else:
        seconds = age if isinstance(age, int) else 86405
        g.check(at['Max-Age'] == str(seconds), 'age')
    if when is not None:
        g.check(parse_date(at['Expires']) == when and at['Expires'] == cookie_date(when), 'expires')
    elif age is not None:
        d = parse_date(at['Expires']) - datetime.datetime.utcnow()
        g.check(abs(d.total_seconds() - seconds) < 30, 'expires with its age')
    else:
        g.check('Expires' not in at, 'no date')
    g.check(at['Path'] in ('/', '/a%20b'), 'path')
