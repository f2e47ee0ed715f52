"""C31 — a request shows what the environ says."""
import datetime
import io
from urllib.parse import quote, unquote, urlsplit, parse_qsl
from pyvc.api import *
from verktyg.datastructures import MultiDict
from verktyg.http import (
    RequestCacheControl, parse_authorization_header, parse_cache_control_header, parse_date, parse_etags,
    parse_if_range_header, parse_options_header, parse_range_header, parse_set_header,
)
from verktyg.requests import Request
from verktyg.wsgi import get_current_url, get_host, get_path_info, get_query_string, get_script_name

META = {
    'level': 'proof',
    'files': ['verktyg/requests.py', 'verktyg/wsgi.py'],
    'assumptions': ['the encoding of environ values (str.encode, bytes.decode) is evaluated natively only; the '
                    'proofs take values that are the same in both encodings'],
}

Q = 'verktyg.requests:'
B = Q + 'BaseRequest.'
C = Q + 'CommonRequestDescriptorsMixin.'
W = 'verktyg.wsgi:'

DANCE = Contract(W + 'wsgi_decoding_dance', lambda s, charset='utf-8', errors='replace': s)
DATE = Opaque('verktyg.http.basic:parse_date', ('str',), 'tok')


def val(g, name):
    return g.str(name, max=6, hints=['', 'x', '5', 'XMLHttpRequest', 'a, b'], alphabet='abc /,1')


@harness(functions=[B + 'path', B + 'script_root', B + 'query_string', B + 'full_path', B + 'method'], uses=[DANCE])
def h_paths(g):
    """The path always starts with one slash, the root never ends with one; nothing else of them is lost."""
    p = g.str('path', max=4, alphabet='/a', hints=['/', '', 'a', '/a/', '//a'], only='/abcdefgh ?.')
    s = g.str('script', max=4, alphabet='/a', hints=['/', '', '/a', '/a/'], only='/abcdefgh ?.')
    q = g.str('query', max=4, alphabet='a=&', hints=['', 'a=b'], only='abcdefgh=&%+1234567890')
    env = {}
    if g.bool('path given'):
        env['PATH_INFO'] = p
    else:
        p = ''
    if g.bool('script given'):
        env['SCRIPT_NAME'] = s
    else:
        s = ''
    if g.bool('query given'):
        env['QUERY_STRING'] = q
    else:
        q = ''
    m = g.choice('method', [None, 'GET', 'post', 'Delete'])
    if m is not None:
        env['REQUEST_METHOD'] = m
    before = dict(env)
    r = Request(env, populate_request=False)
    g.check(r.path == '/' + p.lstrip('/'), 'path')
    g.check(r.script_root == s.rstrip('/'), 'script root')
    g.check(r.query_string == q, 'query')
    g.check(r.full_path == r.path + '?' + q, 'full path')
    g.check(r.method == (m or 'GET').upper(), 'method')
    g.check(same(env, before), 'environ unchanged')


PLAIN = [('content_type', 'CONTENT_TYPE'), ('content_encoding', 'HTTP_CONTENT_ENCODING'),
         ('content_md5', 'HTTP_CONTENT_MD5'), ('referrer', 'HTTP_REFERER'), ('remote_addr', 'REMOTE_ADDR'),
         ('remote_user', 'REMOTE_USER'), ('scheme', 'wsgi.url_scheme'), ('is_multithread', 'wsgi.multithread'),
         ('is_multiprocess', 'wsgi.multiprocess'), ('is_run_once', 'wsgi.run_once'), ('input_stream', 'wsgi.input'),
         ('app', 'verktyg.application')]


@harness(functions=[C + 'content_type', C + 'content_encoding', C + 'content_md5', C + 'referrer', B + 'remote_addr',
                    B + 'remote_user', B + 'scheme', B + 'is_multithread', B + 'is_multiprocess', B + 'is_run_once',
                    B + 'input_stream', B + 'app', B + '__init__'])
def h_plain(g):
    """What is taken from the environ as it is is that and nothing else; None if it is not there."""
    env = {}
    for attr, key in PLAIN:
        env[key] = attr
    env['HTTP_DATE'] = env['HTTP_ACCEPT'] = 'other'
    attr, key = g.choice('which', PLAIN)
    v = g.tok('value')
    if g.bool('given'):
        env[key] = v
    else:
        del env[key]
        v = None
    before = dict(env)
    shallow = g.bool('shallow')
    populate = g.bool('populate')
    r = Request(env, populate_request=populate, shallow=shallow)
    g.check(getattr(r, attr) == v, 'value')
    if populate and not shallow:
        g.check(env['verktyg.request'] is r, 'populated')
        del env['verktyg.request']
    g.check(same(env, before), 'environ unchanged')


@harness(functions=[C + 'max_forwards', C + 'content_length', B + 'is_secure', B + 'is_xhr'])
def h_converted(g):
    """Numbers are numbers or None, never an error; the flags are true exactly if they should."""
    env = {'wsgi.url_scheme': g.choice('scheme', ['http', 'https', 'HTTPS2'])}
    n = g.int('n', 0)
    kind = g.choice('kind', ['missing', 'number', 'text', 'empty'])
    if kind == 'number':
        env['HTTP_MAX_FORWARDS'] = env['CONTENT_LENGTH'] = str(n)
    if kind == 'text':
        env['HTTP_MAX_FORWARDS'] = env['CONTENT_LENGTH'] = g.choice('text', ['x', '1x', '1,2', ';'])
    if kind == 'empty':
        env['HTTP_MAX_FORWARDS'] = env['CONTENT_LENGTH'] = ''
    x = g.choice('xhr', [None, 'XMLHttpRequest', 'xmlhttprequest', 'XMLHTTP', ''])
    if x is not None:
        env['HTTP_X_REQUESTED_WITH'] = x
    r = Request(env, populate_request=False)
    g.check(r.max_forwards == (n if kind == 'number' else None), 'max forwards')
    g.check(r.content_length == (n if kind == 'number' else None), 'length')
    g.check(r.is_secure is (env['wsgi.url_scheme'] == 'https'), 'secure')
    g.check(r.is_xhr is (x is not None and x.lower() == 'xmlhttprequest'), 'xhr')


@harness(functions=[B + 'access_route'])
def h_route(g):
    """The access route is the forwarded addresses in order, else the address of the client, else nothing."""
    env = {}
    addrs = [g.str('addr', without=', \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0', max=4, nonempty=True, only='abc.:0123456789')
             for _ in range(g.choice('addrs', [0, 1, 2, 3]))]
    if addrs:
        env['HTTP_X_FORWARDED_FOR'] = g.choice('sep', [',', ', ', ' ,']).join(addrs)
    a = g.str('remote', max=4)
    if g.bool('remote given'):
        env['REMOTE_ADDR'] = a
        if not addrs:
            addrs = [a]
    r = Request(env, populate_request=False)
    g.check(same(list(r.access_route), addrs), 'route')
    try:
        r.access_route.append('x')
        g.check(False, 'read only')
    except TypeError:
        pass


class Note(object):
    def __init__(self, log, n):
        self.log = log
        self.n = n

    def __call__(self):
        self.log.append(self.n)


class Stored(object):
    def __init__(self, log, name):
        self.log = log
        self.name = name

    def close(self):
        self.log.append(self.name)


@harness(functions=[B + 'call_on_close', B + 'close', B + '__enter__', B + '__exit__'])
def h_close(g):
    """What is to be called when a request is closed is called, once, in order; not before."""
    log = []
    r = Request({}, populate_request=False)
    files = g.choice('files', [None, [], [('a', 1)], [('a', 1), ('b', 2), ('a', 3)]])
    if files is not None:
        # as the cached property of a class that reads forms
        r.__dict__['files'] = MultiDict([(k, Stored(log, 'file %d' % i)) for k, i in files])
    n = g.choice('n', [0, 1, 2, 3])
    for i in range(n):
        f = Note(log, i)
        g.check(r.call_on_close(f) is f, 'given back')
    g.check(log == [], 'not before')
    if g.bool('with'):
        with r as x:
            g.check(x is r and log == [], 'entered')
    else:
        r.close()
    closed = ['file %d' % i for k, i in files or []]
    g.check(sorted(x for x in log if isinstance(x, str)) == closed, 'files closed')
    g.check([x for x in log if isinstance(x, int)] == list(range(n)), 'called')


PARSED = [('if_match', 'HTTP_IF_MATCH', parse_etags), ('if_none_match', 'HTTP_IF_NONE_MATCH', parse_etags),
          ('if_modified_since', 'HTTP_IF_MODIFIED_SINCE', parse_date),
          ('if_unmodified_since', 'HTTP_IF_UNMODIFIED_SINCE', parse_date),
          ('if_range', 'HTTP_IF_RANGE', parse_if_range_header), ('range', 'HTTP_RANGE', parse_range_header),
          ('authorization', 'HTTP_AUTHORIZATION', parse_authorization_header), ('date', 'HTTP_DATE', parse_date),
          ('pragma', 'HTTP_PRAGMA', parse_set_header)]
E = Q + 'ETagRequestMixin.'
K = 'verktyg.http.cache_control:'


def eq(a, b):
    return a == b or type(a) is type(b) and outcome(lambda: str(a)) == outcome(lambda: str(b))


@harness(functions=[E + 'if_match', E + 'if_none_match', E + 'if_modified_since', E + 'if_unmodified_since',
                    E + 'if_range', E + 'range', Q + 'AuthorizationMixin.authorization', C + 'date', C + 'pragma'],
         uses=[DATE, Opaque(K + 'parse_etags', ('str',), 'tok'), Opaque(K + 'parse_if_range_header', ('str',), 'tok'),
               Opaque(K + 'parse_range_header', ('str',), 'tok'),
               Opaque('verktyg.http.auth:parse_authorization_header', ('str',), 'tok'),
               Opaque('verktyg.http.basic:parse_set_header', ('str',), 'tok')])
def h_parsed(g):
    """What is read from a header is the value of exactly this header, parsed; the same again when asked again."""
    env = {}
    for name, key, f in PARSED:
        env[key] = 'other'
    env['CONTENT_TYPE'] = env['HTTP_CONTENT_RANGE'] = 'other'
    attr, key, parse = g.choice('which', PARSED)
    v = g.str('value', hints=['', '"a"', 'w/"b", "c"', 'bytes=0-5', 'Basic dTpw', 'no-cache, x',
                              'Thu, 01 Jan 2015 03:04:05 GMT'])
    given = g.bool('given')
    if given:
        env[key] = v
    else:
        del env[key]
    before = dict(env)
    r = Request(env, populate_request=False)
    kind, got = outcome(lambda: getattr(r, attr))
    if not given:
        v = '' if attr == 'pragma' else None
    want = outcome(lambda: parse(v))
    g.check(kind == want[0] and eq(got, want[1]), 'value')
    if kind == 'ok':
        g.check(eq(getattr(r, attr), got), 'again')
    g.check(same(env, before), 'environ unchanged')
    # the environ of a request may be passed on changed
    more = dict(env)
    more[key] = 'none-match'
    kind, got = outcome(lambda: getattr(Request(more, populate_request=False), attr))
    want = outcome(lambda: parse('none-match'))
    g.check(kind == want[0] and eq(got, want[1]), 'changed environ')


def options(v):
    """Stand-in for a parser: some type and parameters that depend on the value alone."""
    return v + 'x', {'of': v}


def directives(v, on_update=None, cls=None):
    return cls({} if v is None else {'of': v}, on_update)


@harness(functions=[C + '_parse_content_type', C + 'mimetype', C + 'mimetype_params', E + 'cache_control'],
         uses=[Abstract('verktyg.http.basic:parse_options_header', options),
               Abstract(K + 'parse_cache_control_header', directives)])
def h_options(g):
    """The type, its parameters and the cache directives are those in the header; the type in lower case."""
    env = {'HTTP_CONTENT_TYPE': 'other', 'HTTP_PRAGMA': 'other'}
    v = g.str('type', hints=['', 'Text/HTML', 'text/plain; a=b', 'X/Y;Q=1'])
    c = g.str('directives', hints=['', 'no-cache', 'max-age=5', 'no-store, max-stale'])
    if g.bool('typed'):
        env['CONTENT_TYPE'] = v
    else:
        v = ''
    if g.bool('controlled'):
        env['HTTP_CACHE_CONTROL'] = c
    else:
        c = None
    mime, params = parse_options_header(v)
    want = parse_cache_control_header(c, None, RequestCacheControl)
    r = Request(env, populate_request=False)
    if g.bool('parameters first'):
        g.check(same(dict(r.mimetype_params), dict(params)), 'parameters')
    g.check(r.mimetype == mime.lower(), 'type')
    g.check(same(dict(r.mimetype_params), dict(params)), 'parameters')
    got = r.cache_control
    g.check(type(got) is RequestCacheControl and same(dict(got), dict(want)), 'directives')
    g.check(r.cache_control is got, 'the same again')


def located(environ, root_only=False, strip_querystring=False, host_only=False, trusted_hosts=None):
    """Stand-in for the URL of an environ: any text that tells its arguments."""
    return '%s %r %r %r %s' % (environ['url'], root_only, strip_querystring, host_only, trusted_hosts)


def hosted(environ, trusted_hosts=None):
    return '%s %s' % (environ['url'], trusted_hosts)


class Trusting(Request):
    trusted_hosts = ['example.org']


@harness(functions=[B + 'url', B + 'base_url', B + 'url_root', B + 'host_url', B + 'host'],
         uses=[Abstract(W + 'get_current_url', located), Abstract(W + 'get_host', hosted)])
def h_url(g):
    """The URLs of a request are those of its environ, within the trusted hosts."""
    env = {'wsgi.url_scheme': g.choice('scheme', ['http', 'https']), 'HTTP_HOST': g.choice('host', ['example.org', 'a.b']),
           'SCRIPT_NAME': '/app', 'PATH_INFO': '/p q', 'QUERY_STRING': 'a=b', 'url': g.str('url', max=3)}
    cls = g.choice('class', [Request, Trusting])
    r = cls(env, populate_request=False)
    t = cls.trusted_hosts
    for attr, kw in [('url', {}), ('base_url', {'strip_querystring': True}), ('url_root', {'root_only': True}),
                     ('host_url', {'host_only': True})]:
        want = outcome(lambda: get_current_url(env, trusted_hosts=t, **kw))
        g.check(same(outcome(lambda: getattr(r, attr)), want), attr)
    g.check(same(outcome(lambda: r.host), outcome(lambda: get_host(env, trusted_hosts=t))), 'host')


HEADERS = ['HTTP_X_A', 'HTTP_CONTENT_TYPE', 'CONTENT_TYPE', 'CONTENT_LENGTH', 'HTTP_CONTENT_LENGTH', 'HTTP_HOST',
           'REQUEST_METHOD', 'HTTP_', 'HTTP', 'CONTENT_MD5', 'XHTTP_A', 'HTTP_HTTP_A']
EH = W + 'EnvironHeaders.'


def named(key):
    """The name of the header of a key of an environ."""
    return (key[5:] if key.startswith('HTTP_') else key).replace('_', '-').title()


def is_header(key):
    if key.startswith('HTTP_'):
        return key not in ('HTTP_CONTENT_TYPE', 'HTTP_CONTENT_LENGTH')
    return key in ('CONTENT_TYPE', 'CONTENT_LENGTH')


@harness(functions=[EH + '__getitem__', EH + '__iter__', EH + 'copy', B + 'headers',
                    'verktyg.http.basic:ImmutableHeadersMixin.__setitem__'])
def h_headers(g):
    """The headers of a request are what its environ holds under the names of headers, whatever the environ."""
    env = g.dict('env', lambda g: g.str('key', hints=HEADERS), lambda g: g.str('value', hints=['', 'x']), max=4)
    h = Request(env, populate_request=False).headers
    want = [(named(k), v) for k, v in env.items() if is_header(k)]
    g.check(same([kv for kv in h], want), 'pairs')
    name = g.str('name', hints=['X-A', 'x-a', 'Content-Type', 'content-length', 'host', 'Host', 'x_a', ''])
    key = name.upper().replace('-', '_')
    if not key == 'CONTENT_TYPE' and not key == 'CONTENT_LENGTH':
        key = 'HTTP_' + key
    if key in env:
        g.check(same(h[name], env[key]) and same(h.get(name), env[key]), 'value')
    else:
        g.check(h.get(name) is None, 'missing')
        g.check(outcome(lambda: h[name])[0] == 'exc', 'no such header')
    g.check(same(outcome(lambda: h.copy()), ('exc', TypeError)), 'no copies')
    for f in (lambda: h.__setitem__('a', 'b'), lambda: h.add('a', 'b'), lambda: h.clear(), lambda: h.pop('a')):
        g.check(same(outcome(f), ('exc', TypeError)), 'read only')


# -- native -------------------------------------------------------------------

TEXTS = ['', 'a', 'a b', 'a/b', '%', '%41', 'ü', '日本', '?', '#', '&', '=', '+', ';', ':', '@', 'a\\b', '..', '%2F', 'a=b&c',
         'x' * 30, '~', '[', '"', '\x7f', '%ff']


def text(g, n, nonempty=False):
    s = g.choice(n, TEXTS) if g.bool('listed') else g.str(n, max=4, alphabet='ab%/?#&=+ ü;')
    try:
        s.encode('utf8')
    except UnicodeError:
        g.assume(False)
    g.assume(not set(s) & set('\t\r\n') and (s or not nonempty))
    return s


def wsgi(s):
    """As a server puts text into the environ."""
    return s.encode('utf8').decode('latin1')


@scenario(functions=[W + 'get_current_url', B + 'url', B + 'base_url', B + 'url_root', B + 'host_url', B + 'path',
                     B + 'script_root', B + 'args', W + 'get_query_string', 'verktyg.urls:uri_to_iri'],
          n=5000, note='URLs of requests')
def s_url(g):
    """The URL of a request names its scheme, host, root, path and query, in every text they may hold."""
    scheme = g.choice('scheme', ['http', 'https'])
    host = g.choice('host', ['a.test', 'a.test:8080', 'localhost', '127.0.0.1:80', '[::1]', '[::1]:8000'])
    script = '/'.join([''] + [text(g, 'root', True) for _ in range(g.int('roots', 0, 2))])
    path = '/' + '/'.join([text(g, 'segment') for _ in range(g.int('segments', 0, 3))])
    g.assume('//' not in script and not script.endswith('/') and not path.startswith('//'))
    pairs = [(text(g, 'key', True), text(g, 'value', True)) for _ in range(g.int('pairs', 0, 3))]
    query = '&'.join(quote(k, safe='') + '=' + quote(v, safe='') for k, v in pairs)
    env = {'wsgi.url_scheme': scheme, 'HTTP_HOST': host, 'SCRIPT_NAME': wsgi(script), 'PATH_INFO': wsgi(path),
           'QUERY_STRING': query, 'REQUEST_METHOD': 'GET', 'SERVER_NAME': 'other', 'SERVER_PORT': '1'}
    for k, empty in [('SCRIPT_NAME', ''), ('PATH_INFO', '/'), ('QUERY_STRING', '')]:
        if wsgi({'SCRIPT_NAME': script, 'PATH_INFO': path, 'QUERY_STRING': query}[k]) == empty and g.bool('left out'):
            del env[k]
    r = Request(env, populate_request=False)
    g.check(r.path == path and r.script_root == script and r.query_string == query, 'parts')
    g.check(get_script_name(env) == script and get_path_info(env) in (path, '') and get_query_string(env) == query, 'helpers')
    g.check(list(r.args.items(multi=True)) == [(k, v) for n, (k, v) in enumerate(sorted(
        pairs, key=lambda p: [q[0] for q in pairs].index(p[0])))], 'args')
    for attr, want, q in [('url', script + path, pairs), ('base_url', script + path, []), ('url_root', script + '/', []),
                          ('host_url', '/', [])]:
        u = urlsplit(getattr(r, attr))
        g.check(u.scheme == scheme and u.netloc == host, attr + ' host')
        g.check(unquote(u.path) == want and u.fragment == '', attr + ' path')
        g.check(parse_qsl(u.query) == q, attr + ' query')


@scenario(functions=[B + 'get_data', B + 'stream', B + 'headers', B + 'cookies', C + 'mimetype', C + 'mimetype_params',
                     C + 'date', C + 'pragma', Q + 'ETagRequestMixin.cache_control', Q + 'ETagRequestMixin.if_match',
                     Q + 'ETagRequestMixin.if_none_match', Q + 'ETagRequestMixin.if_modified_since',
                     Q + 'ETagRequestMixin.if_unmodified_since', Q + 'ETagRequestMixin.if_range',
                     Q + 'ETagRequestMixin.range', Q + 'AuthorizationMixin.authorization'],
          n=3000, note='headers of requests')
def s_headers(g):
    """Each accessor reads its own header, and no other."""
    body = g.bytes('body', max=6)
    extra = g.bytes('extra', max=3)
    env = {'REQUEST_METHOD': 'POST', 'wsgi.input': io.BytesIO(body + extra), 'CONTENT_LENGTH': str(len(body)),
           'wsgi.url_scheme': 'http'}
    d = [datetime.datetime(2015, 1, 1 + i, 3, 4, 5) for i in range(3)]
    http = ['Thu, 01 Jan 2015 03:04:05 GMT', 'Fri, 02 Jan 2015 03:04:05 GMT', 'Sat, 03 Jan 2015 03:04:05 GMT']
    given = {k: g.bool(k) for k in ['type', 'date', 'since', 'unmodified', 'match', 'none', 'range', 'cc', 'cookie',
                                    'auth', 'pragma', 'ifrange']}
    for k, name, v in [('type', 'CONTENT_TYPE', 'Text/HTML; charset="x;y"; q=1'), ('date', 'HTTP_DATE', http[0]),
                       ('since', 'HTTP_IF_MODIFIED_SINCE', http[1]), ('unmodified', 'HTTP_IF_UNMODIFIED_SINCE', http[2]),
                       ('match', 'HTTP_IF_MATCH', '"m", w/"w"'), ('none', 'HTTP_IF_NONE_MATCH', '"n"'),
                       ('range', 'HTTP_RANGE', 'bytes=1-4'), ('cc', 'HTTP_CACHE_CONTROL', 'max-age=3, no-store'),
                       ('cookie', 'HTTP_COOKIE', 'a=b; c="d e"'), ('auth', 'HTTP_AUTHORIZATION', 'Basic dTpw'),
                       ('pragma', 'HTTP_PRAGMA', 'no-cache, x'), ('ifrange', 'HTTP_IF_RANGE', '"r"')]:
        if given[k]:
            env[name] = v
    r = Request(env, populate_request=False)
    for name in ['date', 'if_modified_since', 'if_unmodified_since']:
        i = ['date', 'if_modified_since', 'if_unmodified_since'].index(name)
        g.check(getattr(r, name) == (d[i] if given[['date', 'since', 'unmodified'][i]] else None), name)
    g.check(r.mimetype == ('text/html' if given['type'] else ''), 'mimetype')
    g.check(dict(r.mimetype_params) == ({'charset': 'x;y', 'q': '1'} if given['type'] else {}), 'params')
    g.check(r.if_match.as_set(True) == ({'m', 'w'} if given['match'] else set()), 'if match')
    g.check(r.if_none_match.as_set(True) == ({'n'} if given['none'] else set()), 'if none match')
    g.check(bool(r.if_match) == given['match'] and bool(r.if_none_match) == given['none'], 'tags')
    g.check((r.range is not None) == given['range'] and (r.range is None or r.range.ranges == [(1, 5)]), 'range')
    g.check(r.if_range.etag == ('r' if given['ifrange'] else None) and r.if_range.date is None, 'if range')
    g.check(r.cache_control.max_age == (3 if given['cc'] else None), 'cache control')
    g.check(r.cache_control.no_store is given['cc'], 'no store')
    g.check(dict(r.cookies) == ({'a': 'b', 'c': 'd e'} if given['cookie'] else {}), 'cookies')
    g.check((r.authorization is not None) == given['auth'], 'authorization')
    g.check(not given['auth'] or (r.authorization.username, r.authorization.password) == ('u', 'p'), 'credentials')
    g.check(list(r.pragma) == (['no-cache', 'x'] if given['pragma'] else []), 'pragma')
    g.check(len(r.headers) == len([k for k in env if k.startswith('HTTP_') or k.startswith('CONTENT_')]), 'all headers')
    g.check(r.headers == Request(env, populate_request=False).headers and
            not r.headers == Request(dict(env), populate_request=False).headers, 'the same environ')
    g.check(outcome(r.headers.copy) == ('exc', TypeError), 'no copies')
    g.check(('cookie' in r.headers) == given['cookie'] and ('content-length' in r.headers), 'headers')
    how = g.choice('how', ['data', 'data twice', 'uncached', 'stream'])
    if how == 'stream':
        g.check(r.stream.read() == body, 'stream')
    elif how == 'uncached':
        g.check(r.get_data(cache=False) == body and r.get_data(cache=False) == b'', 'read')
    else:
        g.check(r.get_data() == body, 'data')
        if how == 'data twice':
            g.check(r.get_data() == body, 'again')
            try:
                want = body.decode('utf8')
            except UnicodeError:
                want = None
            g.check(want is None or r.get_data(as_text=True) == want, 'text')


@scenario(functions=[B + 'stream'], n=200, note='shallow requests')
def s_shallow(g):
    """A shallow request does not touch the body, nor the environ."""
    env = {'REQUEST_METHOD': 'POST', 'wsgi.input': io.BytesIO(b'abc'), 'CONTENT_LENGTH': '3'}
    before = dict(env)
    r = Request(env, shallow=True)
    for f in g.choice('how', [[lambda: r.stream], [lambda: r.get_data()], [lambda: r.get_data(as_text=True)]]):
        try:
            f()
            g.check(False, 'refused')
        except RuntimeError:
            pass
    g.check(env == before and env['wsgi.input'].tell() == 0, 'untouched')


class Lossy(Request):
    encoding_errors = 'ignore'


@scenario(functions=[B + 'path', B + 'script_root', B + 'args', W + 'get_path_info', W + 'get_script_name',
                     W + 'wsgi_decoding_dance'], n=1500, note='bytes that are not text')
def s_bytes(g):
    """Bytes that are not text are replaced, or left out, and the others are kept."""
    def some(name):
        return b''.join(g.choice('b', [b'a', b'x', b'\xc3\xa9', b'\xff', b'\xe2\x82', b'\xe2\x82\xac'])
                        for _ in range(g.int(name, 0, 4)))
    path, root, value = some('path'), some('root'), b'v' + some('value')
    env = {'REQUEST_METHOD': 'GET', 'wsgi.url_scheme': 'http', 'SERVER_NAME': 'a', 'SERVER_PORT': '80',
           'PATH_INFO': '/' + path.decode('latin1'), 'SCRIPT_NAME': '/' + root.decode('latin1'),
           'QUERY_STRING': 'k=' + quote(value) + '&l=1'}
    cls, errors = g.choice('class', [(Request, 'replace'), (Lossy, 'ignore')])
    r = cls(env, populate_request=False)
    g.check(r.path == '/' + path.decode('utf-8', errors), 'path')
    g.check(r.script_root == ('/' + root.decode('utf-8', errors)).rstrip('/'), 'root')
    g.check(r.args['k'] == value.decode('utf-8', errors) and r.args['l'] == '1', 'args')
    g.check(get_path_info(env) == '/' + path.decode('utf-8', 'replace'), 'helper')
    g.check(get_path_info(env, None) == b'/' + path and get_script_name(env, None) == b'/' + root, 'bytes')


READ = ['args', 'cookies', 'path', 'full_path', 'script_root', 'url', 'base_url', 'url_root', 'host_url', 'host',
        'method', 'query_string', 'is_secure', 'is_xhr', 'authorization', 'content_type', 'mimetype',
        'content_length', 'if_none_match', 'referrer', 'date', 'access_route', 'remote_addr', 'max_forwards', 'headers',
        'scheme', 'cache_control', 'input_stream']


def seen(r, name):
    v = getattr(r, name)
    if name == 'cookies':
        v = dict(v)
    elif name == 'args':
        v = list(v.items(multi=True))
    elif name == 'input_stream':
        v = type(v)
    elif name == 'headers':
        v = sorted(v)
    return v if isinstance(v, (str, int, bytes, list, dict, type(None), tuple, type)) else str(v)


def environs(g, n):
    from verktyg.test import create_environ
    q = g.choice('query', ['', 'a=1', 'b=2&a=3', 'a=1&a=2'])
    headers = [(k, v) for k, v in [('Cookie', 'c=%d' % n), ('If-None-Match', '"e%d"' % n), ('User-Agent', 'u%d' % n),
                                   ('Accept', ['text/html', 'image/png'][n]), ('Accept-Language', ['en', 'de'][n]),
                                   ('Authorization', ['Basic dTpw', 'Basic djpx'][n]), ('Referer', 'r%d' % n),
                                   ('Max-Forwards', str(n))] if g.bool('has ' + k)]
    data = g.choice('data', [None, {'f': 'x%d' % n}, {'f': ['y', 'z']}])
    return create_environ(['/p', '/q/r'][n] + ('?' + q if q else ''), ['http://a.test/', 'https://b.test/app'][n],
                          method=g.choice('method', ['POST', 'PUT']), headers=headers, data=data)


@scenario(functions=[B + 'args', B + 'cookies', B + 'path', B + 'script_root', B + 'url'],
          n=1200, note='one environ made from another')
def s_again(g):
    """A request made from the changed environ of another one tells of the changed environ."""
    first, second = environs(g, 0), environs(g, 1)
    plain = dict(second)
    data = second['wsgi.input'].read()
    plain['wsgi.input'], second['wsgi.input'] = io.BytesIO(data), io.BytesIO(data)
    keep = g.bool('populate')
    r = Request(first, populate_request=keep)
    for name in READ:
        if g.bool('read ' + name):
            seen(r, name)
    # as much as the first has left there that the second does not say
    changed = {k: v for k, v in first.items() if not k.startswith(('HTTP_', 'CONTENT_'))}
    changed.update(second)
    if not g.bool('copied'):
        first.clear()
        first.update(changed)
        changed = first
    a, b = Request(changed), Request(plain)
    for name in READ:
        g.check(seen(a, name) == seen(b, name), name)
    g.check(a.get_data() == b.get_data() == data, 'body')
