"""C32 — the test client asks what it is told to ask."""
import io
from urllib.parse import parse_qsl, quote, urlsplit
from pyvc.api import *
from verktyg.datastructures import MultiDict
from verktyg.http import FileStorage, Headers, parse_options_header
from verktyg.requests import Request
from verktyg.responses import Response
from verktyg.test import (
    Client, ClientRedirectError, EnvironBuilder, FileMultiDict, create_environ, encode_multipart, run_wsgi_app,
    stream_encode_multipart,
)

META = {
    'level': 'proof',
    'files': ['verktyg/test.py'],
    'assumptions': ['urllib.parse, http.cookiejar and mimetypes are the standard library'],
}

T = 'verktyg.test:'
E = T + 'EnvironBuilder.'
C = T + 'Client.'


class App(object):
    """An application that remembers how it was called."""
    def __init__(self, result):
        self.result = result
        self.calls = []

    def __call__(self, *args, **kwargs):
        self.calls.append((args, kwargs))
        return self.result


def split(url):
    """urlsplit of an absolute address without query."""
    scheme, _, rest = url.partition('://')
    host, slash, path = rest.partition('/')
    return scheme, host, slash + path, '', ''


def unsplit(parts):
    scheme, host, path, _, _ = parts
    return scheme + '://' + host + path


SPLIT = Contract('urllib.parse:urlsplit', split)
UNSPLIT = Contract('urllib.parse:urlunsplit', unsplit)
IRI = Contract('verktyg.urls:iri_to_uri', lambda iri: iri)
FIX = Contract('verktyg.urls:url_fix', lambda s, charset='utf-8': s)     # of plain addresses


@harness(functions=[E + '_get_base_url', E + '_set_base_url', E + 'server_name', E + 'server_port', E + '__init__'],
         uses=[FIX, IRI, SPLIT, UNSPLIT])
def h_base(g):
    """The base URL gives scheme, host, port and script root, and is made of them again."""
    scheme = g.choice('scheme', ['http', 'https'])
    name = g.str('name', max=4, only='a-z.', nonempty=True)
    port = g.opt('port', lambda g: g.int('number', 1, 65535))
    root = g.choice('root', ['', '/', '/app', '/a/b', '/a/b/', '/a//'])
    host = name if port is None else name + ':' + str(port)
    b = EnvironBuilder('/')
    b.base_url = scheme + '://' + host + root
    g.check(b.url_scheme == scheme and b.host == host, 'scheme and host')
    g.check(b.script_root == root.rstrip('/'), 'script root')
    g.check(b.server_name == name, 'server name')
    g.check(b.server_port == (port if port is not None else 443 if scheme == 'https' else 80), 'port')
    g.check(b.base_url == scheme + '://' + host + root.rstrip('/') + '/', 'base url')
    b.base_url = None
    g.check(b.base_url == 'http://localhost/' and b.server_port == 80, 'default')


@harness(functions=[E + '_get_query_string', E + '_set_query_string', E + '_get_args', E + '_set_args',
                    E + '_get_input_stream', E + '_set_input_stream', E + '__init__'])
def h_sources(g):
    """A query is a string or arguments, a body is a stream or fields: the one that was set last."""
    b = EnvironBuilder('/')
    args, form, files = MultiDict(), MultiDict(), FileMultiDict()
    stream = io.BytesIO(b'x')
    query, body = 'args', 'fields'
    q = g.str('query', max=3, only='a-z=')
    for i in range(3):
        what = g.choice('set', ['query', 'args', 'stream', 'form', 'files', 'no stream'])
        if what == 'query':
            b.query_string = q
            query = 'string'
        elif what == 'args':
            b.args = args
            query = 'args'
        elif what == 'stream':
            b.input_stream = stream
            body = 'stream'
        elif what == 'no stream':
            b.input_stream = None
            body = 'fields'
        elif what == 'form':
            b.form = form
            body = 'fields'
        else:
            b.files = files
            body = 'fields'
    refused = []
    for name in ('args', 'form', 'files'):
        try:
            g.check(isinstance(getattr(b, name), MultiDict), 'mapping')
        except AttributeError:
            refused.append(name)
    g.check(('args' in refused) == (query == 'string'), 'args')
    g.check(('form' in refused) == (body == 'stream') and ('files' in refused) == (body == 'stream'), 'fields')
    g.check((b.input_stream is stream) == (body == 'stream'), 'stream')
    if query == 'string':
        g.check(b.query_string == q, 'query')
    b.close()


@harness(functions=[E + '_get_content_type', E + '_set_content_type', E + '_get_content_length',
                    E + '_set_content_length'])
def h_types(g):
    """Type and length are those of the headers; without a type it is that of the fields."""
    b = EnvironBuilder('/', headers=[('X-Other', 'o')])
    t = g.opt('type', lambda g: g.str('given type', max=4, without='\r\n'))
    n = g.opt('length', lambda g: g.int('given length', 0))
    fields = g.choice('fields', ['none', 'form', 'file', 'both', 'stream'])
    if fields in ('form', 'both'):
        b.form['a'] = 'b'
    if fields in ('file', 'both'):
        b.files['f'] = FileStorage(filename='x')
    if fields == 'stream':
        b.input_stream = io.BytesIO(b'x')
    if g.bool('set before'):
        b.content_type, b.content_length = 'a/b', 7
    b.content_type = t
    b.content_length = n
    auto = {'none': None, 'form': 'application/x-www-form-urlencoded', 'stream': None}.get(fields, 'multipart/form-data')
    g.check(b.content_type == (t if t is not None else auto), 'type')
    g.check(b.content_length == n, 'length')
    g.check(b.headers['x-other'] == 'o' and len(b.headers) == 1 + (t is not None) + (n is not None), 'headers')
    b.close()


def encoded(query, doseq=False, safe='', encoding=None, errors=None, quote_via=None):
    """urlencode of plain words."""
    items = query.items() if isinstance(query, dict) else query
    return '&'.join([k + '=' + v for k, v in items])


class Stream(object):
    """io.BytesIO as it is read."""
    def __init__(self, data):
        self.data = data
        self.pos = 0

    def tell(self):
        return self.pos

    def seek(self, offset, whence=0):
        self.pos = offset + (self.pos if whence == 1 else len(self.data) if whence == 2 else 0)
        return self.pos

    def read(self, size=-1):
        end = len(self.data) if size is None or size < 0 else min(self.pos + size, len(self.data))
        data = self.data[self.pos:end]
        self.pos = end
        return data

    def close(self):
        pass


WORD = 'abcdefghijklmnopqrstuvwxyz0123456789_-'
ASCII = [Contract('urllib.parse:urlencode', encoded),
         Contract('verktyg.wsgi:wsgi_encoding_dance', lambda s, charset='utf-8', errors='replace': s),
         Contract('io:BytesIO', lambda data=b'': Stream(data))]


class Given(object):
    """A stream of which something has been read."""
    def __init__(self, first, rest):
        self.first = first
        self.rest = rest
        self.pos = 0

    def tell(self):
        return len(self.first) + self.pos

    def seek(self, offset, whence=0):
        self.pos = offset - len(self.first) + (len(self.first) + len(self.rest) if whence == 2 else 0)

    def read(self):
        return self.rest[self.pos:]

    def close(self):
        self.pos = None


@harness(functions=[E + '__init__', E + 'get_environ', E + '_get_query_string', E + 'get_request',
                    T + 'create_environ'], uses=ASCII)
def h_environ(g):
    """The environ has the method, path, query, headers, host and body that were asked for, and nothing else."""
    method = g.str('method', only='A-Z', nonempty=True)
    path, info, base, scheme, host, name, port, root = g.choice('where', [
        ('/', '/', None, 'http', 'localhost', 'localhost', '80', ''),
        ('/a/b c', '/a/b c', 'https://a.test/app', 'https', 'a.test', 'a.test', '443', '/app'),
        ('/x%20y', '/x y', 'http://a.test:8080/', 'http', 'a.test:8080', 'a.test', '8080', '')])
    q = g.str('q', only=WORD + '=&')
    u, v, w = g.str('u', without='\r\n'), g.str('v', without='\r\n'), g.str('w', only=WORD)
    headers = g.choice('headers', [[], [('X-A', u)], [('X-A', u), ('x-a', v), ('X-B-C', 'd')]])
    kw = {'method': method, 'base_url': base, 'headers': headers}
    query = ''
    ask = g.choice('ask', ['none', 'text', 'args', 'path'])
    if ask == 'text':
        kw['query_string'] = query = q
    elif ask == 'args':
        kw['query_string'] = {'k': w}
        query = 'k=' + w
    elif ask == 'path':
        path = path + '?' + q
        query = q
    body = g.choice('body', ['none', 'form', 'two', 'bytes', 'stream'])
    sent, kind, length = b'', '', '0'
    if body == 'form':
        kw['data'] = {'f': w}
        sent, kind = ('f=' + w).encode('ascii'), 'application/x-www-form-urlencoded'
        length = str(len(sent))
    elif body == 'two':
        kw['data'] = MultiDict([('f', w), ('f', 'x')])
        sent, kind = ('f=' + w + '&f=x').encode('ascii'), 'application/x-www-form-urlencoded'
        length = str(len(sent))
    elif body == 'bytes':
        kw['data'] = sent = g.bytes('sent')
        kw['content_type'] = kind = 'text/plain'
        length = str(len(sent)) if len(sent) > 0 else '0'
    elif body == 'stream':
        kw['input_stream'] = Given(g.bytes('first'), g.bytes('rest'))
        sent = kw['input_stream'].rest
        length = str(len(sent)) if len(sent) > 0 else '0'
    plain, over = g.choice('how', [(False, False), (True, True)])
    if over:
        kw['errors_stream'] = errors = g.tok('errors')
        kw['multithread'], kw['multiprocess'], kw['run_once'] = g.choice('flags', [
            (True, False, False), (False, True, False), (False, False, True)]) if body == 'none' else (True, True, True)
        kw['environ_base'] = {'base': 1, 'SERVER_NAME': 'lost'}
        kw['environ_overrides'] = {'more': 2, 'SERVER_PROTOCOL': 'HTTP/2'}
    given = len(headers)
    env = create_environ(path, **kw) if plain else EnvironBuilder(path, **kw).get_environ()
    want = {'REQUEST_METHOD': method, 'SCRIPT_NAME': root, 'PATH_INFO': info, 'QUERY_STRING': query, 'SERVER_NAME': name,
            'SERVER_PORT': port, 'HTTP_HOST': host, 'SERVER_PROTOCOL': 'HTTP/1.1', 'CONTENT_TYPE': kind,
            'CONTENT_LENGTH': length, 'wsgi.url_scheme': scheme, 'wsgi.version': (1, 0)}
    if len(headers) > 1:
        want['HTTP_X_A'] = u + ', ' + v
        want['HTTP_X_B_C'] = 'd'
    elif len(headers) > 0:
        want['HTTP_X_A'] = u
    if 'environ_base' in kw:
        want['base'], want['more'], want['SERVER_PROTOCOL'] = 1, 2, 'HTTP/2'
    for k in ('multithread', 'multiprocess', 'run_once'):
        want['wsgi.' + k] = kw.get(k, False)
    if over:
        want['wsgi.errors'] = errors
    for k in want:
        g.check(same(env.get(k), want[k]), 'as asked')
    if over:
        g.check(same(kw['environ_base'], {'base': 1, 'SERVER_NAME': 'lost'}), 'base not changed')
        g.check(same(kw['environ_overrides'], {'more': 2, 'SERVER_PROTOCOL': 'HTTP/2'}), 'overrides not changed')
    g.check(len(headers) == given, 'headers not changed')
    if body == 'form':
        g.check(same(kw['data'], {'f': w}), 'data not changed')
    if ask == 'args':
        g.check(same(kw['query_string'], {'k': w}), 'arguments not changed')
    if not over:
        g.check(hasattr(env['wsgi.errors'], 'write'), 'errors go somewhere')
    if body == 'stream':
        g.check(env['wsgi.input'] is kw['input_stream'] and kw['input_stream'].pos == 0, 'stream')
    extra = [k for k in env if k not in want]
    for k in extra:
        g.check(k in ('wsgi.input', 'wsgi.errors', 'wsgi.multithread', 'wsgi.multiprocess', 'wsgi.run_once',
                      'HTTP_CONTENT_TYPE', 'HTTP_CONTENT_LENGTH'), 'nothing else')
    g.check(same(env['wsgi.input'].read(), sent), 'body')


class Chain(object):
    """An application that answers each path in turn with what it is told to."""
    def __init__(self, answers, body):
        self.answers = answers
        self.body = body
        self.seen = []

    def __call__(self, environ, start_response):
        n = int(environ['PATH_INFO'][1:])
        self.seen.append((n, environ['REQUEST_METHOD'], environ['QUERY_STRING'], environ['HTTP_HOST'],
                          environ['wsgi.url_scheme']))
        code, to = self.answers[n]
        if code == 0:
            raise LookupError(n)
        start_response(str(code) + ' X', [('X-A', 'a')] + ([('Location', to)] if to is not None else []))
        return [self.body]


@harness(functions=[C + 'open', C + 'resolve_redirect', C + 'run_wsgi_app', C + '__init__'])
def h_follow(g):
    """Redirects are followed, with the method of each, until there is none, a loop, a failure or another host, and
    what is asked next is asked like the first."""
    first, second = g.choice('codes', [(302, 307), (307, 307), (301, 303), (305, 302), (200, 200), (304, 200)])
    end = g.choice('end', [200, 404, 302, 0])
    to = g.choice('to', ['http://a.test/2?y', 'http://sub.a.test/2?y', 'http://other.test/2?y', 'http://xa.test/2?y',
                         'http://a.test/0', 'https://a.test:444/2?y'])
    method = g.str('method', only='A-Z', nonempty=True)
    body = g.bytes('body')
    app = Chain([(first, 'http://a.test/1?x'), (second, to), (end, 'http://a.test/2?y' if end == 302 else None)], body)
    subs, follow = g.choice('how', [(False, True), (True, True), (False, False)])
    wrap = g.bool('wrapped')
    c = Client(app, (lambda it, status, headers: (b''.join(it), status, headers)) if wrap else None, use_cookies=False,
               allow_subdomain_redirects=subs)
    r, error = None, None
    try:
        r = c.open('/0', method=method, base_url='http://a.test', follow_redirects=follow)
    except (ClientRedirectError, RuntimeError, LookupError) as e:
        error = type(e)
    want = [(0, method, '', 'a.test', 'http')]
    wrong = None
    code = first
    if follow and first not in (200, 304):
        m = method if first == 307 else 'GET'
        want.append((1, m, 'x', 'a.test', 'http'))
        code = second
        if second not in (200, 304):
            m = m if second == 307 else 'GET'
            if 'other' in to or 'xa' in to or ('sub' in to and not subs):
                wrong = RuntimeError
            elif to == 'http://a.test/0':
                want.append((0, m, '', 'a.test', 'http'))
                wrong = ClientRedirectError
            else:
                host = 'sub.a.test' if 'sub' in to else 'a.test:444' if '444' in to else 'a.test'
                want.append((2, m, 'y', host, 'https' if 'https' in to else 'http'))
                code = end
                if end == 0:
                    wrong = LookupError
                if end == 302:
                    if (second, to) == (302, 'http://a.test/2?y'):
                        wrong = ClientRedirectError
                    elif host == 'sub.a.test':
                        wrong = RuntimeError
                    else:
                        want.append((2, 'GET', 'y', 'a.test', 'http'))
                        wrong = ClientRedirectError
    g.check(same(error, wrong), 'outcome')
    g.check(same(app.seen, want), 'requests')
    if error is None:
        data = r[0] if wrap else b''.join(r[0])
        g.check(same(data, body) and r[1] == str(code) + ' X' and r[2]['x-a'] == 'a', 'the last answer')
    app.answers[0] = (200, None)
    r = c.open('/0', base_url='http://a.test')
    data = r[0] if wrap else b''.join(r[0])
    g.check(same(data, body) and r[1] == '200 X', 'asked again')


@harness(functions=[C + m for m in ('get', 'post', 'head', 'put', 'delete', 'options', 'patch', 'trace')])
def h_methods(g):
    """Each method sends a request with that method and everything else that was given."""
    m = g.choice('method', ['get', 'post', 'head', 'put', 'delete', 'options', 'patch', 'trace'])
    result, path, data = g.tok('result'), g.tok('path'), g.tok('data')
    c = Client(None, use_cookies=False)
    c.open = App(result)
    kw = {'data': data}
    if g.bool('other method'):
        kw['method'] = 'OTHER'
    if g.bool('follow'):
        kw['follow_redirects'] = True
    want = dict(kw)
    want['method'] = m.upper()
    g.check(getattr(c, m)(path, **kw) == result, 'result')
    g.check(len(c.open.calls) == 1, 'once')
    a, k = c.open.calls[0]
    g.check(a == (path,) and same(sorted(k.items(), key=lambda x: x[0]), sorted(want.items(), key=lambda x: x[0])), 'arguments')


class Body(object):
    """What an application returns, remembering what happens to it."""
    def __init__(self, items, log):
        self.items = items
        self.log = log

    def __iter__(self):
        return iter(self.items)

    def close(self):
        self.log.append('close')


@harness(functions=[T + 'run_wsgi_app', 'verktyg.wsgi:ClosingIterator.__init__', 'verktyg.wsgi:ClosingIterator.close'])
def h_run(g):
    """The result is the status, headers and body of the application, what was written first, and it is closed once."""
    items = g.list('items', lambda g: g.tok('item'))
    written = [g.tok('written') for _ in range(g.choice('written', [0, 1, 2]))]
    log = []
    env = {}
    status = g.str('status', max=4)
    value = g.str('value', max=4, without='\r\n')
    buffered = g.bool('buffered')
    closes = g.bool('closes')
    twice = g.bool('twice')

    def app(environ, start_response):
        g.check(environ is env, 'environ')
        if twice:
            start_response('500 not this', [('X-Not', 'this')])
        write = start_response(status, [('X-A', value)])
        for x in written:
            write(x)
        return Body(items, log) if closes else items
    it, s, h = run_wsgi_app(app, env, buffered=buffered) if buffered else run_wsgi_app(app, env)
    g.check(s == status and isinstance(h, Headers) and len(h) == 1 and h['x-a'] == value, 'head')
    g.check(log == (['close'] if buffered and closes else []), 'closed early')
    if not buffered and closes and g.bool('close'):
        it.close()
        g.check(log == ['close'], 'closed once')
    else:
        g.check(same([x for x in it], written + items), 'body')


class Late(object):
    """A body that starts the response when its first item is asked for."""
    def __init__(self, items, log, start):
        self.items = items
        self.log = log
        self.start = start
        self.at = 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.at == 0:
            self.start()
        if self.at == len(self.items):
            raise StopIteration()
        self.at += 1
        return self.items[self.at - 1]

    def close(self):
        self.log.append('close')


@harness(functions=[T + 'run_wsgi_app', 'verktyg.wsgi:ClosingIterator.__init__', 'verktyg.wsgi:ClosingIterator.close',
                    'verktyg.wsgi:ClosingIterator.__next__'])
def h_run_late(g):
    """An application may start its response late: the body is still complete."""
    items = [g.tok('item') for _ in range(g.choice('items', [1, 2, 3]))]
    log = []
    status = g.str('status', max=4)
    buffered = g.bool('buffered')
    it, s, h = run_wsgi_app(lambda env, start_response: Late(items, log, lambda: start_response(status, [])), {},
                            buffered=buffered)
    g.check(s == status and len(h) == 0, 'head')
    g.check(same([x for x in it], items), 'body')
    if not buffered:
        g.check(log == [], 'not closed')
        it.close()
    g.check(log == ['close'], 'closed once')


# -- native -------------------------------------------------------------------

SEGMENTS = ['', 'a', 'b c', '\xfc', '\u65e5', '\U0001f600', '%', '%2F', '%C3%BC', '&', '=', '+', ';', '..', '"', '<', '@', '~',
            "'", '(', '\\', '$', ',']
WORDS = ['', 'a', 'b c', '\xfc', '\u65e5', '%', '%2F', '&', '=', '+', ';', '#', '?', '/', '"', '\n', 'a' * 20]


def pairs(g, name, values=WORDS, most=4):
    return [(g.choice(name + ' key', ['a', 'b', 'x y', '\xfc', '&', 'c[]']), g.choice(name + ' value', values))
            for _ in range(g.int(name + 's', 0, most))]


def given(g, items):
    """The items as a dict, if it can be, or as a multidict, and the order in which they come back."""
    kind = g.choice('as', ['multidict', 'dict', 'lists'])
    if kind == 'dict':
        g.assume(len(dict(items)) == len(items))
        return dict(items)
    if kind == 'lists':
        d = {}
        for k, v in items:
            d.setdefault(k, []).append(v)
        return d
    return MultiDict(items)


def lists(d):
    return {k: list(v) for k, v in d.lists()}


def group(items):
    d = {}
    for k, v in items:
        d.setdefault(k, []).append(v)
    return d


@scenario(functions=[E + '__init__', E + 'get_environ', E + '_get_query_string', E + 'get_request', T + 'create_environ'],
          n=4000, note='quoting')
def s_asked(g):
    """Method, path, query, headers and host are those asked for."""
    segments = [g.choice('segment', SEGMENTS) for _ in range(g.int('segments', 0, 3))]
    g.assume(not segments or segments[0] != '')
    plain = '/' + '/'.join(segments)
    quoted = g.bool('quoted')
    # a path is an IRI: what is not meant as an escape is quoted
    path = quote(plain) if quoted else plain.replace('%', '%25')
    args = pairs(g, 'arg')
    method = g.choice('method', ['GET', 'POST', 'PUT', 'X-ODD'])
    base = g.choice('base', [None, 'http://a.test', 'https://a.test:8080/app', 'http://a.test/\xfc/', 'https://b.test/x%20y'])
    headers = [(g.choice('header', ['X-A', 'x-a', 'X-B-C', 'User-Agent']), g.choice('header value', ['', 'a', 'b, c', '"q"']))
               for _ in range(g.int('headers', 0, 3))]
    kw = dict(method=method, base_url=base, headers=headers if g.bool('list') else Headers(headers))
    how = g.choice('query', ['args', 'string', 'path', 'bytes'])
    safe = g.choice('safe', ['', '?/:'])
    text = '&'.join(quote(k, safe='') + '=' + quote(v, safe=safe) for k, v in args)
    if how == 'args':
        kw['query_string'] = given(g, args)
    elif how == 'string':
        kw['query_string'] = text
    elif how == 'bytes':
        kw['query_string'] = text.encode('ascii')
    else:
        path += '?' + text
    over = g.choice('more', [None, {'my.key': 1}])
    if over:
        kw[g.choice('which', ['environ_base', 'environ_overrides'])] = over
    env = create_environ(path, **kw) if g.bool('plain') else EnvironBuilder(path, **kw).get_environ()
    r = Request(env, populate_request=False)
    g.check(r.method == method, 'method')
    g.check(r.path == plain, 'path')
    g.check(lists(r.args) == {k: [x for x in v if x] for k, v in group(args).items() if any(v)}, 'args')
    want = urlsplit(base or 'http://localhost')
    g.check(env['wsgi.url_scheme'] == want.scheme and r.host == want.netloc, 'host')
    g.check(env['SERVER_NAME'] == want.hostname, 'server name')
    g.check(env['SERVER_PORT'] == str(want.port or {'http': 80, 'https': 443}[want.scheme]), 'port')
    g.check(r.script_root == {'/x%20y': '/x y'}.get(want.path, want.path.rstrip('/')), 'root')
    for name, values in group([(k.lower(), v) for k, v in headers]).items():
        g.check(r.headers[name] == ', '.join(values), 'headers')
    g.check(set(k.lower() for k in r.headers.keys()) - {'host', 'content-type', 'content-length'}
            == set(k.lower() for k, v in headers), 'no other headers')
    g.check(r.get_data() == b'', 'no body')
    if over:
        g.check(env['my.key'] == 1, 'more')


class File(io.BytesIO):
    """A file that knows its name and whether it was closed."""
    def __init__(self, data, name):
        io.BytesIO.__init__(self, data)
        self.name = name

    def read(self, size=-1):
        # less than asked for, as a socket does
        return io.BytesIO.read(self, size if self.most is None or size < 0 else min(size, self.most))

    most = None


def parts(body, boundary, charset='utf8'):
    """The parts of a multipart body: name, file name, type, content."""
    pieces = (b'\r\n' + body).split(b'\r\n--' + boundary)
    assert pieces[0] == b'' and pieces[-1] == b'--\r\n', (pieces[0], pieces[-1])
    out = []
    for piece in pieces[1:-1]:
        assert piece[:2] == b'\r\n'
        head, content = piece[2:].split(b'\r\n\r\n', 1)
        name = filename = media = None
        for line in head.decode(charset).split('\r\n'):
            field, value = line.split(': ', 1)
            if field.lower() == 'content-disposition':
                assert value.startswith('form-data; name="') and value.endswith('"')
                name, _, filename = value[len('form-data; name="'):-1].partition('"; filename="')
                filename = filename if _ else None
            elif field.lower() == 'content-type':
                media = value
        out.append((name, filename, media, content))
    return out


def media_type(name, given, how):
    """The type a file is sent with: the one that was given or the one its name stands for."""
    if given is not None and how != 'stream':
        return given
    return {'a.txt': 'text/plain', 'b.png': 'image/png'}.get(name) if how != 'stream' else None


@scenario(functions=[E + '__init__', E + 'get_environ', E + 'close', E + '_add_file_from_data', T + '_iter_data',
                     T + 'FileMultiDict.add_file', T + 'stream_encode_multipart', T + 'encode_multipart'], n=4000,
          note='multipart and form encoding')
def s_body(g):
    """The application reads the data, the fields and the files that were given; files are closed afterwards."""
    kind = g.choice('kind', ['bytes', 'text', 'stream', 'form', 'files'])
    if kind in ('bytes', 'text'):
        data = g.choice('data', [b'', b'a', b'\x00\xff', 'd\xfc'.encode(), b'a=b&c'])
        given_data = data
        if kind == 'text':
            data = g.choice('text', ['', 'x', '\u65e5']).encode('utf8')
            given_data = data.decode('utf8')
        env = create_environ(method='POST', data=given_data, content_type='text/x')
        r = Request(env, populate_request=False)
        g.check(r.get_data() == data and r.content_type == 'text/x' and r.content_length == len(data), 'data')
        return
    if kind == 'stream':
        data = g.bytes('data', max=6)
        at = g.int('at', 0, len(data))
        s = io.BytesIO(data)
        s.seek(at)
        r = Request(create_environ(method='PUT', input_stream=s), populate_request=False)
        g.check(r.get_data() == data[at:] and r.content_length == len(data) - at, 'rest of the stream')
        return
    fields = pairs(g, 'field', most=5)
    files = []
    if kind == 'files':
        files = [(g.choice('file key', ['f', 'g', 'a']), g.choice('filename', ['a.txt', 'b.png', '\xfc.bin', 'plain']),
                  g.bytes('content', max=5) if g.bool('short') else b'\r\n--x' * 3000,
                  g.choice('type', [None, 'text/x']), g.choice('how', ['tuple', 'storage', 'stream']))
                 for _ in range(g.int('files', 1, 3))]
        g.assume(not {f[0] for f in files} & {k for k, v in fields})
    streams = [File(f[2], f[1]) for f in files]
    for s in streams:
        s.most = g.choice('at most', [None, None, 1000, 16383])
        if s.most == 1000 and len(s.getvalue()) < 100:
            s.most = 2
    g.assume(fields or files)
    data = group(fields)
    for f, s in zip(files, streams):
        key, name, content, media, how = f
        v = (s, name, media) if how == 'tuple' else s if how == 'stream' else FileStorage(s, name, key, media)
        data.setdefault(key, []).append(v)
    if g.bool('multidict'):
        data = MultiDict(data)
    env = create_environ(method='POST', data=data)
    r = Request(env, populate_request=False)
    body = r.get_data()
    g.check(r.content_length == len(body), 'length')
    # fields of one name come in order; different names in any order
    if not files:
        g.check(r.mimetype == 'application/x-www-form-urlencoded', 'type of forms')
        g.check(group(parse_qsl(body.decode('ascii'), keep_blank_values=True)) == group(fields), 'form')
    else:
        g.check(r.mimetype == 'multipart/form-data', 'type of uploads')
        sent = parts(body, r.mimetype_params['boundary'].encode('ascii'))
        g.check(group([(p[0], p[3].decode('utf8')) for p in sent if p[1] is None]) == group(fields), 'fields')
        got = group([(p[0], p[1:]) for p in sent if p[1] is not None])
        want = group([(k, (n, media_type(n, t, how), c)) for k, n, c, t, how in files])
        g.check(set(got) == set(want), 'names of files')
        for k in want:
            g.check([x[0] for x in got[k]] == [x[0] for x in want[k]], 'file names')
            g.check([x[2] for x in got[k]] == [x[2] for x in want[k]], 'content')
            g.check(all(b[1] is None or a[1] == b[1] for a, b in zip(got[k], want[k])), 'types')
    g.check(all(s.closed for s in streams), 'closed')


@scenario(functions=[T + 'stream_encode_multipart', T + 'encode_multipart'], n=1500, note='multipart encoding')
def s_encoded(g):
    """Fields and files are encoded the same in memory and on disk, whatever their size."""
    values = MultiDict()
    want = []
    charset = g.choice('charset', ['utf-8', 'latin1'])
    for i in range(g.int('values', 0, 4)):
        k = g.choice('key', ['a', 'b', 'f\xfc'])
        kind = g.choice('kind', ['text', 'bytes', 'number', 'file', 'unnamed'])
        content = g.choice('content', [b'', b'x', b'\r\n', '\xfc'.encode(), b'y' * 300, b'z' * 16384, b'--' * 9000])
        name = media = None
        if kind == 'text':
            v = content.decode('utf8')
            content = v.encode(charset)
        elif kind == 'number':
            v = g.int('number', 0, 99)
            content = str(v).encode()
        elif kind == 'file':
            name, media = g.choice('name', ['a.txt', 'b']), g.choice('media', [None, 'text/x'])
            v = FileStorage(io.BytesIO(content), name, k, media)
            media = media or {'a.txt': 'text/plain'}.get(name, 'application/octet-stream')
        elif kind == 'unnamed':
            v, media = io.BytesIO(content), 'application/octet-stream'
        else:
            v = content
        values.add(k, v)
        want.append((k, (name, media, content)))
    boundary = g.choice('boundary', [None, 'xyz'])
    how = g.choice('how', ['whole', 'stream', 'builder'])
    g.assume(how != 'builder' or (values and not any(isinstance(v, io.BytesIO) for k, v in values.items(multi=True))))
    if how == 'whole':
        b, body = encode_multipart(values, boundary=boundary, charset=charset)
    elif how == 'stream':
        stream, length, b = stream_encode_multipart(
            values, use_tempfile=g.bool('disk'), threshold=g.choice('threshold', [0, 1, 100, 400, 10 ** 6]), boundary=boundary,
            charset=charset)
        body = stream.read()
        g.check(length == len(body), 'length')
    else:
        env = EnvironBuilder('/', data=values, charset=charset, content_type='multipart/form-data').get_environ()
        kind, options = parse_options_header(env['CONTENT_TYPE'])
        g.check(kind == 'multipart/form-data', 'type')
        b = boundary = options['boundary']
        body = env['wsgi.input'].read()
        g.check(env['CONTENT_LENGTH'] == str(len(body)), 'length of the body')
        want = [p for p in want if p[1][0] is None] + [p for p in want if p[1][0] is not None]
    g.check(boundary is None or b == boundary, 'boundary')
    g.check(group([(p[0], p[1:]) for p in parts(body, b.encode('ascii'), charset)] if values else []) == group(want), 'values')


@scenario(functions=[T + 'Client.open', T + 'Client.resolve_redirect', T + 'Client.run_wsgi_app', T + 'run_wsgi_app'],
          n=2500, note='whole requests')
def s_redirects(g):
    """Redirects are followed on the same host until there is none; loops and other hosts are refused."""
    n = g.int('hops', 0, 4)
    codes = [g.choice('code', [301, 302, 303, 307]) for _ in range(n)]
    loop = g.choice('loop', [None, None, 0]) if n else None
    host = g.choice('host', ['localhost', 'localhost', 'a.test', 'www.a.test:8080'])
    away = g.choice('away', [None, None, 'http://other.test/', 'http://sub.' + host + '/', 'http://x' + host + '/',
                             'http://test/', 'http://a.test.x/'])
    end = g.choice('end', [200, 404, 304])
    seen = []

    def app(environ, start_response):
        r = Request(environ, populate_request=False)
        i = int(r.path[1:])
        seen.append((i, r.method, r.query_string, r.host))
        if i < n:
            to = 'http://%s/%d?q=%d' % (host, i + 1, i)
        elif i == n and loop is not None:
            to = 'http://%s/%d?q=%d' % (host, loop + 1, loop)
        elif i == n and away is not None:
            to = away + str(n + 1)
        else:
            return Response('end', status=end)(environ, start_response)
        return Response('go', status=codes[i] if i < n else 302, headers=[('Location', to)])(environ, start_response)
    subdomains = g.bool('subdomains')
    c = Client(app, lambda it, status, headers: (b''.join(it), status, headers), allow_subdomain_redirects=subdomains)
    method = g.choice('method', ['GET', 'POST'])
    if not g.bool('follow'):
        body, status, headers = c.open('/0', method=method, base_url='http://' + host)
        g.check(len(seen) == 1 and seen[0][:2] == (0, method), 'one request')
        return
    error = None
    try:
        body, status, headers = c.open('/0', method=method, base_url='http://' + host, follow_redirects=True)
    except (ClientRedirectError, RuntimeError) as e:
        error = type(e)
    methods = [method]
    for code in codes:
        methods.append(methods[-1] if code == 307 else 'GET')
    g.check([s[:2] for s in seen[:n + 1]] == list(enumerate(methods)), 'steps')
    g.check([s[2] for s in seen[1:n + 1]] == ['q=%d' % i for i in range(n)], 'queries')
    if loop is not None:
        g.check(error is ClientRedirectError, 'loop')
    elif away is not None and not (subdomains and away == 'http://sub.' + host + '/'):
        g.check(error is RuntimeError and len(seen) == n + 1, 'other host')
    elif away is not None:
        g.check(error is None and seen[-1][3] == 'sub.' + host and len(seen) == n + 2, 'subdomain')
    else:
        g.check(error is None and status[:3] == str(end) and len(seen) == n + 1, 'end')


@scenario(functions=[T + 'Client.set_cookie', T + 'Client.delete_cookie', T + '_TestCookieJar.inject_wsgi',
                     T + '_TestCookieJar.extract_wsgi', T + '_TestCookieHeaders.get_all', T + 'Client.run_wsgi_app'],
          n=2500, note='the cookie policy is the standard library')
def s_cookies(g):
    """Cookies are sent back until they are deleted, by the client or by the application, or never if they are disabled."""
    use = g.bool('use')
    todo = []

    def app(environ, start_response):
        r = Request(environ, populate_request=False)
        out = Response('')
        for what, k, v in todo:
            if what == 'set':
                out.set_cookie(k, v)
            else:
                out.delete_cookie(k)
        app.got = dict(r.cookies.items())
        return out(environ, start_response)
    c = Client(app, use_cookies=use)
    other = Client(app, use_cookies=g.bool('other uses'))
    have = {}
    for _ in range(g.int('steps', 1, 5)):
        what = g.choice('what', ['set', 'delete', 'client set', 'client delete', 'nothing'])
        k, v = g.choice('key', ['a', 'b']), g.choice('value', ['', 'x', '1 2', '\xfc', 'a;b', '"'])
        del todo[:]
        if what == 'client set' and use:
            c.set_cookie('localhost', k, v)
            have[k] = v
        elif what == 'client delete' and use:
            c.delete_cookie('localhost', k)
            have.pop(k, None)
        elif what in ('set', 'delete'):
            todo.append((what, k, v))
        c.get('/')
        g.check(app.got == (have if use else {}), 'cookies')
        if what == 'set':
            have[k] = v
        elif what == 'delete':
            have.pop(k, None)
    del todo[:]
    other.get('/')
    g.check(app.got == {}, 'cookies of another client')
    c.get('/')
    g.check(app.got == (have if use else {}), 'cookies kept')


@scenario(functions=[E + 'get_environ', E + '__init__', T + 'run_wsgi_app'], n=1500,
          note='charsets, and applications that start late')
def s_charset(g):
    """Fields are written in the charset that was asked for, the path is not; a late application is run to its end."""
    charset = g.choice('charset', ['utf-8', 'latin1'])
    fields = [(g.choice('key', ['a', '\xe9']), g.choice('value', ['', 'x y', '\xfc', '&'])) for _ in range(g.int('n', 0, 3))]
    path = g.choice('path', ['/', '/a/\xe9', '/x y'])
    env = create_environ(path, method='POST', data=MultiDict(fields), query_string=MultiDict(fields), charset=charset)
    want = group(fields)
    got = parse_qsl(env['wsgi.input'].read().decode('ascii'), keep_blank_values=True, encoding=charset)
    g.check(group(got) == want, 'form')
    got = parse_qsl(env['QUERY_STRING'], keep_blank_values=True, encoding=charset)
    g.check(group(got) == want, 'query')
    if charset != 'latin1' or path.isascii():
        g.check(Request(env, populate_request=False).path == path, 'path')
    empty = g.int('empty', 0, 3)
    items = [b'a', b'b']

    def app(environ, start_response):
        for _ in range(empty):
            yield b''
        start_response('200 OK', [('X-A', '1')])
        for x in items:
            yield x
    it, status, headers = run_wsgi_app(app, {}, buffered=g.bool('buffered'))
    g.check((b''.join(it), status, list(headers)) == (b'ab', '200 OK', [('X-A', '1')]), 'late')


class Plain(Request):
    pass


@scenario(functions=['verktyg.requests:BaseRequest.from_values', E + 'get_environ', E + 'get_request', E + '__init__',
                     E + 'close'], n=1500, note='one builder used more than once')
def s_again(g):
    """What is asked with the same values is the same, by whatever way and however often it is asked."""
    path = g.choice('path', ['/', '/a/b', '/x%20y', '/\xe9'])
    kw = {'method': g.choice('method', ['POST', 'PUT'])}
    if g.bool('base'):
        kw['base_url'] = g.choice('base url', ['https://a.test/app', 'http://b.test:81/'])
    if g.bool('query'):
        kw['query_string'] = g.choice('query', ['a=1&b=2', {'a': ['1', '2']}, {'b': '\xe9'}])
    if g.bool('headers'):
        kw['headers'] = g.choice('headers', [[('X-A', 'a')], {'X-A': 'b'}, [('X-A', 'a'), ('X-A', 'b')]])
    if g.bool('data'):
        kw['data'] = g.choice('data', [{'f': 'x'}, {'f': ['x', 'y'], 'g': '\xe9'}, b'abc', 'text'])
        if isinstance(kw['data'], (bytes, str)):
            kw['content_type'] = 'text/plain'
    if g.bool('more'):
        kw['environ_base'], kw['environ_overrides'] = {'my.base': 1}, {'my.key': 2}
    made = [create_environ(path, **kw), create_environ(path, **kw)]
    b = EnvironBuilder(path, **kw)
    if 'content_type' not in kw:      # a body that is a stream is read once
        made += [b.get_environ(), b.get_environ()]
    cls = g.choice('class', [Request, Plain])
    r = b.get_request(cls)
    g.check(type(r) is cls, 'class of request')
    made.append(r.environ)
    r = cls.from_values(path, **kw)
    g.check(type(r) is cls, 'class from values')
    made.append(r.environ)
    first = None
    for env in made:
        data = env['wsgi.input'].read()
        rest = {k: v for k, v in env.items() if k not in ('wsgi.input', 'verktyg.request')}
        if first is None:
            first = rest, data
            g.check(len(data) == int(env['CONTENT_LENGTH'] or 0), 'length')
        g.check((rest, data) == first, 'the same')
        # whatever an application leaves there is not found the next time
        env['my.left'] = 'x'
        env['QUERY_STRING'] = 'changed'
    f = io.BytesIO(b'abc')
    r = cls.from_values('/', method='POST', data={'f': (f, 'name.txt')})
    g.check(f.closed, 'file closed')
    body = r.get_data()
    g.check(b'abc' in body and b'name.txt' in body and r.content_length == len(body), 'upload')
