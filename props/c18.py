"""C18 — what a response sends."""
import sys
from pyvc.api import *
from verktyg.http import Headers, generate_etag
from verktyg.responses import Response, BaseResponse, ETagResponseMixin
from verktyg.test import create_environ, run_wsgi_app

META = {
    'level': 'proof',
    'files': ['verktyg/responses.py', 'verktyg/wsgi.py', 'verktyg/http/basic.py', 'verktyg/test.py'],
}

R = 'verktyg.responses:BaseResponse.'


class Log(object):
    def __init__(self):
        self.calls = []

    def __call__(self, *args):
        self.calls.append(args)


def total(parts):
    return sum(len(p) for p in parts)


@harness(functions=[R + 'get_wsgi_headers', R + 'get_app_iter', R + 'get_wsgi_response', R + '__call__',
                    R + '__init__', R + 'iter_encoded'], budget=90)
def h_plain(g):
    """A body of known length is announced with that length and sent as it is."""
    parts = g.list('parts', lambda g: g.bytes('part', hints=[b'a', b'bc']), max=3)
    method = g.str('method', hints=['GET', 'HEAD', 'POST'])
    status = g.int('status', 0, 999, hints=[0, 100, 200, 204, 304, 404])
    size = total(parts)
    r = BaseResponse(parts, status=status, direct_passthrough=g.bool('as it is'))
    start = Log()
    it = r({'REQUEST_METHOD': method}, start)
    sent = [p for p in it]
    empty = method == 'HEAD' or (100 <= status and status < 200) or status == 204 or status == 304
    g.check(same(sent, [] if empty else parts), 'body')
    g.check(len(start.calls) == 1, 'started once')
    line, headers = start.calls[0]
    h = Headers(headers)
    if (100 <= status and status < 200) or status == 204:
        g.check(same(h.getlist('Content-Length'), ['0']), 'no length')
    elif status == 304:
        g.check(same(h.getlist('Content-Length'), []), 'not modified')
    else:
        g.check(same(h.getlist('Content-Length'), [str(size)]), 'length')
    g.check('Content-Length' not in r.headers, 'response unchanged')


ENTITY = ['allow', 'content-encoding', 'content-language', 'content-length', 'content-md5', 'content-range',
          'content-type', 'last-modified']
NAMES = ['X-A', 'Content-Length', 'content-length', 'CONTENT-TYPE', 'Content-Type', 'Last-Modified', 'allow',
         'Expires', 'Content-MD5', 'ETag', 'content-range']


def some(g):
    items = g.list('items', lambda g: (g.str('k', hints=NAMES), g.str('v', hints=['1', 'text/plain'])), max=4)
    g.assume(forall(items, lambda kv: '\n' not in kv[1] and '\r' not in kv[1] and
                    not kv[0].lower() == 'location' and not kv[0].lower() == 'content-location'))
    return items


def made(body, status, items):
    r = BaseResponse(body, status=status)
    r.headers = Headers(items)
    return r


@harness(functions=[R + 'get_wsgi_headers', 'verktyg.http.basic:remove_entity_headers',
                    'verktyg.http.basic:is_entity_header', R + 'get_wsgi_response'], budget=60)
def h_not_modified(g):
    """A 304 sends the headers of the response except those that describe the body."""
    items = some(g)
    r = made([g.bytes('body', hints=[b'', b'abc'])], 304, items)
    kept = [(k, v) for k, v in items if not k.lower() in ENTITY]
    iterable, line, sent = r.get_wsgi_response({'REQUEST_METHOD': g.choice('method', ['GET', 'HEAD'])})
    g.check(same(sent, kept), 'kept')
    g.check(same([kv for kv in r.headers], items), 'response unchanged')


@harness(functions=[R + 'get_wsgi_headers', R + 'get_wsgi_response'], budget=90)
def h_empty(g):
    """A response that has no body by its status announces that, and sends its other headers."""
    items = some(g)
    status = g.choice('status', [100, 199, 204])
    r = made([g.bytes('body', hints=[b'', b'abc'])], status, items)
    f = first(items, lambda kv: kv[0].lower() == 'content-length')
    if f is None:
        want = items + [('Content-Length', '0')]
    else:
        want = f[0] + [('Content-Length', '0')] + [kv for kv in f[2] if not kv[0].lower() == 'content-length']
    iterable, line, sent = r.get_wsgi_response({'REQUEST_METHOD': 'GET'})
    g.check(same(sent, want), 'headers')
    g.check(same([kv for kv in r.headers], items), 'response unchanged')


@harness(functions=[R + 'get_wsgi_headers', R + 'get_wsgi_response'], budget=90)
def h_headers(g):
    """A length that was set is kept; otherwise the length is added where it is known; other headers are sent."""
    items = some(g)
    status = g.choice('status', [200, 404])
    kind = g.choice('kind', ['list', 'streamed', 'not automatic'])
    body = g.bytes('body', hints=[b'', b'abc'])
    r = made(iter([body]) if kind == 'streamed' else [body], status, items)
    if kind == 'not automatic':
        r.automatically_set_content_length = False
    given = exists(items, lambda kv: kv[0].lower() == 'content-length')
    iterable, line, sent = r.get_wsgi_response({'REQUEST_METHOD': 'GET'})
    if given or kind != 'list':
        g.check(same(sent, items), 'kept')
    else:
        g.check(same(sent, items + [('Content-Length', str(len(body)))]), 'computed')
    g.check(same([kv for kv in r.headers], items), 'response unchanged')


@harness(functions=[R + 'get_wsgi_response', R + 'get_wsgi_headers', R + 'get_app_iter', R + 'iter_encoded'])
def h_again(g):
    """A response that is sent again is sent as it is then."""
    first, second = g.bytes('first', hints=[b'', b'abc']), g.bytes('second', hints=[b'', b'de'])
    r = BaseResponse([first])
    get = {'REQUEST_METHOD': 'GET'}
    for turn in g.choice('turns', [['GET'], ['HEAD'], ['GET', 'HEAD'], ['GET', 'GET']]):
        it, line, sent = r.get_wsgi_response({'REQUEST_METHOD': turn})
        g.check(same(Headers(sent).getlist('Content-Length'), [str(len(first))]), 'length')
        g.check(same([p for p in it], [first] if turn == 'GET' else []), 'body')
    change = g.choice('change', ['append', 'replace', 'set', 'status', 'header', 'changed outside'])
    body, want = [first], [str(len(first))]
    if change == 'append':
        r.response.append(second)
        body, want = [first, second], [str(len(first) + len(second))]
    elif change == 'replace':
        r.response = [second]
        body, want = [second], [str(len(second))]
    elif change == 'set':
        r.set_data(second)
        body, want = [second], [str(len(second))]
    elif change == 'status':
        r.status_code = 304
        body, want = [], []
    elif change == 'header':
        r.headers['Content-Length'] = '7'
        want = ['7']
    else:
        sent.append(('Content-Length', '9'))
        sent.append(('X-Y', '9'))
    it, line, sent = r.get_wsgi_response(get)
    g.check(same(Headers(sent).getlist('Content-Length'), want), 'length again')
    g.check(same([p for p in it], body), 'body again')
    g.check('X-Y' not in Headers(sent), 'only its own headers')
    g.check(line == ('304 NOT MODIFIED' if change == 'status' else '200 OK'), 'status')


@harness(functions=[R + 'set_data', R + 'get_data', R + 'calculate_content_length', R + '_ensure_sequence',
                    R + 'make_sequence', R + 'freeze'])
def h_data(g):
    """Data that is set is the data read, its length is announced, and streams are kept when they are read."""
    first = g.bytes('first', hints=[b'', b'abc'])
    r = BaseResponse(first)
    g.check(same(r.get_data(), first), 'initial data')
    g.check(same(r.headers.getlist('Content-Length'), [str(len(first))]), 'initial length')
    second = g.bytes('second', hints=[b'', b'abcd'])
    r.set_data(second)
    g.check(same(r.get_data(), second), 'data')
    g.check(same(r.headers.getlist('Content-Length'), [str(len(second))]), 'length')
    g.check(same(r.calculate_content_length(), len(second)), 'calculated')
    parts = g.list('parts', lambda g: g.bytes('part', hints=[b'a', b'bc']), max=3)
    size = total(parts)
    s = BaseResponse(iter(parts))
    g.check(not s.is_sequence, 'streamed')
    g.check(same(s.calculate_content_length(), size), 'length of a stream')
    g.check(same([p for p in s.iter_encoded()], parts), 'stream kept')
    g.check(s.is_sequence, 'buffered')


class Body(object):
    def __init__(self, log):
        self.log = log

    def __iter__(self):
        return iter([b'x'])

    def close(self):
        self.log.append('body')


@harness(functions=[R + 'close', R + 'call_on_close', R + 'get_app_iter', 'verktyg.wsgi:ClosingIterator.__init__',
                    'verktyg.wsgi:ClosingIterator.close', R + 'make_sequence', R + '__exit__'])
def h_close(g):
    """Closing what is sent closes the body and runs every registered function (up to two here) once, in order."""
    log = []
    n = g.choice('functions', [[], ['a'], ['a', 'b']])

    r = BaseResponse(Body(log))
    for f in n:
        r.call_on_close(lambda f=f: log.append(f))
    method = g.choice('method', ['GET', 'HEAD'])
    read = g.bool('read')
    if read:
        g.check(same(r.get_data(), b'x'), 'data')
        g.check(len(log) == 0, 'still open')
    how = g.choice('how', ['iterator', 'response', 'with'])
    if how == 'iterator':
        it = r({'REQUEST_METHOD': method}, Log())
        sent = [p for p in it]
        g.check(same(sent, [] if method == 'HEAD' else [b'x']), 'sent')
        g.check(len(log) == 0, 'open')
        it.close()
    elif how == 'response':
        r.close()
    else:
        with r:
            pass
    g.check(same([x for x in log if x != 'body'], n), 'functions')
    g.check(len([x for x in log if x == 'body']) == 1, 'body')


@harness(functions=[R + '__init__'])
def h_status(g):
    """The status line starts with the code, which is what was set."""
    code = g.int('code', 0, 999, hints=[200, 404, 700])
    r = BaseResponse(status=200)
    r.status_code = code
    g.check(same(r.status_code, code), 'code')
    g.check(r.status.startswith(str(code) + ' '), 'line')



class Tagged(ETagResponseMixin, BaseResponse):
    pass


@harness(functions=[R + 'freeze', 'verktyg.responses:ETagResponseMixin.freeze',
                    'verktyg.responses:ETagResponseMixin.add_etag'],
         uses=[Opaque('verktyg.http.cache_control:generate_etag', ['bytes'], 'str')])
def h_freeze(g):
    """Freezing keeps the body, as a list, announces its length, and tags it unless it has a tag or shall have none."""
    parts = g.list('parts', lambda g: g.bytes('part', hints=[b'a', b'bc']), max=3)
    kind = g.choice('kind', ['streamed', 'listed'])
    tag = generate_etag(b''.join(parts))
    g.assume('"' not in tag and '\r' not in tag and '\n' not in tag)
    r = Tagged(iter(parts) if kind == 'streamed' else parts)
    had = g.bool('tagged')
    if had:
        r.set_etag('x')
    if g.bool('length was set'):
        r.headers['Content-Length'] = '7'
    bare = g.choice('no tag', [None, False, True])
    if bare is None:
        r.freeze()
    else:
        r.freeze(no_etag=bare)
    size = total(parts)
    g.check(r.is_sequence, 'buffered')
    g.check(same([p for p in r.iter_encoded()], parts), 'body')
    g.check(same(r.headers.getlist('Content-Length'), [str(size)]), 'length')
    if had:
        g.check(r.headers.getlist('ETag') == ['"x"'], 'tag kept')
    elif bare:
        g.check('ETag' not in r.headers, 'no tag')
    else:
        g.check(same(r.headers.getlist('ETag'), ['"' + tag + '"']), 'tag')


STREAM = 'verktyg.responses:ResponseStream.'


@harness(functions=[STREAM + 'write', STREAM + 'writelines', STREAM + 'close', STREAM + 'flush', STREAM + 'isatty',
                    STREAM + 'encoding', 'verktyg.responses:ResponseStreamMixin.stream'])
def h_stream(g):
    """What is written to the stream of a response is added to its body, until the stream is closed."""
    parts = g.list('parts', lambda g: g.bytes('part', hints=[b'a', b'bc']), max=3)
    kind = g.choice('kind', ['streamed', 'listed', 'tuple'])
    r = Response(iter(parts) if kind == 'streamed' else tuple(parts) if kind == 'tuple' else list(parts))
    if g.bool('length was set'):
        r.headers['Content-Length'] = '7'
    s = r.stream
    more = g.list('more', lambda g: g.bytes('more part', hints=[b'd']), max=3)
    one = g.bytes('one', hints=[b'', b'e'])
    g.check(s.isatty() is False and s.encoding == r.charset, 'open')
    s.flush()
    s.write(one)
    s.writelines(more)
    g.check(same([p for p in r.iter_encoded()], parts + [one] + more), 'body')
    g.check('Content-Length' not in r.headers, 'length forgotten')
    s.close()
    for f in (lambda: s.write(b'x'), lambda: s.flush(), lambda: s.isatty(), lambda: s.writelines([b'x'])):
        g.check(same(outcome(f), ('exc', ValueError)), 'closed')
    g.check(same([p for p in r.iter_encoded()], parts + [one] + more), 'as it was')


# -- native -------------------------------------------------------------------

class Latin(Response):
    charset = 'latin1'


class Manual(Response):
    automatically_set_content_length = False


class Strict(Response):
    implicit_sequence_conversion = False


TEXT = ['', 'abc', '\xe9t\xe9', b'', b'\xff\x00', b'data']


def enc(x, charset):
    return x.encode(charset) if isinstance(x, str) else bytes(x)


def env(method='GET'):
    return {'REQUEST_METHOD': method, 'wsgi.url_scheme': 'http', 'HTTP_HOST': 'example.org', 'SERVER_NAME': 'x',
            'SERVER_PORT': '80', 'SCRIPT_NAME': '/app'}


def stream(parts, log):
    try:
        for p in parts:
            yield p
    finally:
        log.append('closed')


@scenario(functions=[R + '__init__', R + '__call__', R + 'iter_encoded', R + 'get_data', R + 'set_data',
                     R + 'make_sequence', R + 'freeze', R + 'is_streamed', R + 'get_wsgi_headers',
                     R + 'calculate_content_length', R + 'force_type',
                     'verktyg.responses:ResponseStream.write', 'verktyg.responses:ResponseStream.writelines'],
          n=6000, note='whole responses')
def s_whole(g):
    """Whatever is done to a response, what is sent is its data, under its length."""
    cls = g.choice('class', [Response, BaseResponse, Latin, Manual, Strict])
    charset = cls.charset
    log = []
    kind = g.choice('kind', ['none', 'one', 'array', 'list', 'tuple', 'generator'])
    parts = []
    if kind == 'one':
        parts = [g.choice('text', TEXT)]
        body = parts[0]
    elif kind == 'array':
        parts = [g.choice('raw', [b'', b'abc'])]
        body = bytearray(parts[0])
    elif kind != 'none':
        parts = [g.choice('part', TEXT) for _ in range(g.int('parts', 0, 3))]
        body = list(parts) if kind == 'list' else tuple(parts) if kind == 'tuple' else stream(parts, log)
    else:
        body = None
    data = b''.join(enc(p, charset) for p in parts)
    explicit = g.choice('explicit', [None, None, '7']) if kind not in ('one', 'array') else None
    plain = all(isinstance(p, bytes) for p in parts)
    r = cls(body, headers=[('Content-Length', explicit)] if explicit else None,
            direct_passthrough=plain and g.bool('passed through'))
    through = r.direct_passthrough
    streamed = kind == 'generator'
    g.check(r.is_streamed == streamed and r.is_sequence == (not streamed), 'streamed')
    known = not streamed and cls is not Manual
    replaced = False
    for _ in range(g.int('ops', 0, 3)):
        op = g.choice('op', ['set', 'get', 'text', 'write', 'lines', 'freeze', 'length', 'sequence', 'force'])
        blocked = streamed and (cls is Strict or through)
        if op == 'set':
            x = g.choice('new', TEXT)
            r.set_data(x)
            data = enc(x, charset)
            streamed, replaced = False, True
            explicit = explicit if cls is Manual else None
            known = cls is not Manual
        elif op in ('get', 'text', 'length'):
            f = {'get': r.get_data, 'length': r.calculate_content_length,
                 'text': lambda: r.get_data(as_text=True)}[op]
            if blocked:
                o = outcome(f)
                g.check(o == (('ok', None) if op == 'length' else ('exc', RuntimeError)), 'not converted')
                continue
            streamed = False
            known = known or cls is not Manual
            if op == 'get':
                g.check(f() == data, 'data')
            elif op == 'length':
                g.check(f() == len(data), 'calculated')
            else:
                o = outcome(f)
                w = outcome(lambda: data.decode(charset))
                g.check(o == w, 'text')
        elif op in ('write', 'lines') and cls is not BaseResponse:
            xs = [g.choice('written', TEXT) for _ in range(1 if op == 'write' else 2)]
            if blocked:
                continue
            if through:
                xs = [enc(x, charset) for x in xs]
            r.stream.write(xs[0]) if op == 'write' else r.stream.writelines(xs)
            data += b''.join(enc(x, charset) for x in xs)
            streamed = False
            known = cls is not Manual
            explicit = None
        elif op == 'freeze':
            r.freeze()
            streamed = False
            known = True
            explicit = str(len(data)) if cls is Manual else None
        elif op == 'sequence':
            r.make_sequence()
            streamed = False
            known = known or cls is not Manual
        elif op == 'force':
            class Other(cls):
                pass
            q = Other.force_type(r)
            g.check(q is r and type(r) is Other, 'forced')
    g.check(r.is_sequence == (not streamed), 'sequence')
    method = g.choice('method', ['GET', 'HEAD', 'POST', 'PUT'])
    status = g.choice('status', [200, 404, 204, 304, 100, 206, 500])
    r.status_code = status
    calls = []
    it = r(env(method), lambda s, h: calls.append((s, h)))
    sent = b''.join(it)
    bare = method == 'HEAD' or status in (204, 304, 100)
    g.check(sent == (b'' if bare else data), 'body')
    g.check(len(calls) == 1 and calls[0][0].startswith('%d ' % status), 'status line')
    g.check(type(calls[0][1]) is list and all(type(k) is str and type(v) is str for k, v in calls[0][1]), 'pairs')
    length = [v for k, v in calls[0][1] if k.lower() == 'content-length']
    if status == 304:
        g.check(length == [], 'no length')
    elif status in (100, 204):
        g.check(length == ['0'], 'zero')
    elif explicit is not None:
        g.check(length == [explicit], 'explicit length')
    elif known:
        g.check(length == [str(len(data))], 'length')
    else:
        g.check(length in ([], [str(len(data))]), 'never a wrong length')
    if hasattr(it, 'close'):
        it.close()
    if kind == 'generator' and not replaced:
        g.check(log in ([], ['closed']), 'closed')
        g.check(next(body, None) is None, 'nothing left')


REASONS = {
    100: 'Continue', 101: 'Switching Protocols', 102: 'Processing', 200: 'OK', 201: 'Created', 202: 'Accepted',
    203: 'Non Authoritative Information', 204: 'No Content', 205: 'Reset Content', 206: 'Partial Content',
    207: 'Multi Status', 226: 'IM Used', 300: 'Multiple Choices', 301: 'Moved Permanently', 302: 'Found',
    303: 'See Other', 304: 'Not Modified', 305: 'Use Proxy', 307: 'Temporary Redirect', 400: 'Bad Request',
    401: 'Unauthorized', 402: 'Payment Required', 403: 'Forbidden', 404: 'Not Found', 405: 'Method Not Allowed',
    406: 'Not Acceptable', 407: 'Proxy Authentication Required', 408: 'Request Timeout', 409: 'Conflict',
    410: 'Gone', 411: 'Length Required', 412: 'Precondition Failed', 413: 'Request Entity Too Large',
    414: 'Request URI Too Long', 415: 'Unsupported Media Type', 416: 'Requested Range Not Satisfiable',
    417: 'Expectation Failed', 418: "I'm a teapot", 422: 'Unprocessable Entity', 423: 'Locked',
    424: 'Failed Dependency', 426: 'Upgrade Required', 428: 'Precondition Required', 429: 'Too Many Requests',
    431: 'Request Header Fields Too Large', 449: 'Retry With', 500: 'Internal Server Error', 501: 'Not Implemented',
    502: 'Bad Gateway', 503: 'Service Unavailable', 504: 'Gateway Timeout', 505: 'HTTP Version Not Supported',
    507: 'Insufficient Storage', 510: 'Not Extended'}


def plain_text(text):
    return ''.join(c for c in text.lower() if c.isalnum())


@scenario(functions=[R + '_set_status_code'], n=1500, note='every registered code')
def s_reason(g):
    """A status set as number is sent with its registered reason."""
    code = g.choice('code', sorted(REASONS)) if g.int('registered', 0, 3) else g.int('any', 100, 599)
    r = Response('', status=code) if g.bool('init') else Response('')
    r.status_code = code
    number, _, reason = r.status.partition(' ')
    g.check(r.status_code == code and number == str(code), 'code')
    g.check(reason != '', 'a reason')
    if code in REASONS:
        g.check(plain_text(reason) == plain_text(REASONS[code]), 'its reason')


@scenario(functions=[R + '__init__', R + 'set_data', R + 'get_data'], n=1000, note='data that can be changed')
def s_kept(g):
    """The body is the data as it was when it was set, whatever holds it."""
    data = b''.join(g.choice('part', [b'a', b'\xff', b'\r\n', b'']) for _ in range(g.int('parts', 0, 4)))
    given = bytearray(data)
    cls = g.choice('class', [Response, BaseResponse, Latin])
    how = g.choice('how', ['init', 'set', 'view'])
    if how == 'init':
        r = cls(given)
    else:
        r = cls('other')
        r.set_data(given if how == 'set' else memoryview(bytes(data)))
    if g.bool('changed'):
        given += b'more'
        given[:1] = b'z'
    got, status, headers = run_wsgi_app(r, create_environ('/'))
    got = list(got)
    g.check(all(type(p) is bytes for p in got) and b''.join(got) == data, 'sent')
    g.check(r.get_data() == data and type(r.get_data()) is bytes, 'data')
    g.check(headers['content-length'] == str(len(data)), 'length')


@scenario(functions=[R + '__init__'], n=2000, note='status and content type')
def s_status(g):
    """A status given as text is sent as it is, its number is the code, and text is labelled with its charset."""
    code = g.int('code', 0, 999)
    reason = g.choice('reason', ['OK', 'Not Found', 'a b c', ''])
    text = ('%03d %s' % (code, reason)) if g.bool('reasoned') else '%03d' % code
    r = Response('', status=text) if g.bool('init') else Response('')
    r.status = text
    g.check(r.status == text and r.status_code == code, 'number')
    r.status = 'wrong'
    g.check(r.status == '0 wrong' and r.status_code == 0, 'no number')
    cls = g.choice('class', [Response, Latin])
    how = g.choice('how', ['default', 'mimetype', 'type', 'header', 'headers'])
    mime = g.choice('mime', ['text/html', 'application/xml', 'application/x+xml', 'image/png', 'application/json'])
    full = mime + '; charset=' + cls.charset if mime in ('text/html', 'application/xml', 'application/x+xml') else mime
    headers = None
    if how == 'default':
        r = cls('x')
        full = 'text/plain; charset=' + cls.charset
    elif how == 'mimetype':
        r = cls('x', mimetype=mime)
    elif how == 'type':
        r = cls('x', content_type=mime)
        full = mime
    elif how == 'header':
        r = cls('x', headers=[('content-type', mime)])
        full = mime
    else:
        headers = Headers([('Content-Type', mime)])
        r = cls('x', headers=headers)
        full = mime
        g.check(r.headers is headers, 'its own headers')
    g.check(r.headers.getlist('Content-Type') == [full], 'type')
    g.check(r.content_type == full and r.mimetype == full.split(';')[0], 'attributes')
    r.mimetype = 'text/css'
    g.check(r.headers.getlist('Content-Type') == ['text/css; charset=' + cls.charset], 'assigned')


LOCATIONS = [
    ('/x', 'http://example.org/x'), ('x', 'http://example.org/app/x'), ('http://other/y?a=b', 'http://other/y?a=b'),
    ('//h/p', 'http://h/p'), ('/\xe9', 'http://example.org/%C3%A9'), ('/a b', 'http://example.org/a%20b'),
    ('../up', 'http://example.org/up'), ('?q=1', 'http://example.org/app/?q=1'), ('/%20', 'http://example.org/%20'),
    ('itms-services://?action=1', 'itms-services://?action=1'),
]


@scenario(functions=[R + 'get_wsgi_headers', 'verktyg.wsgi:get_current_url', 'verktyg.urls:iri_to_uri'], n=800,
          note='location headers')
def s_location(g):
    """The location sent is absolute and ASCII; the response keeps what was set."""
    given, want = g.choice('location', LOCATIONS)
    r = Response('', status=g.choice('status', [201, 302]))
    r.location = given
    auto = g.bool('auto')
    if not auto:
        r.autocorrect_location_header = False
    cl = g.choice('content location', [None, '/\xe9', '/x'])
    if cl is not None:
        r.content_location = cl
    sent = Headers(r.get_wsgi_response(env(g.choice('method', ['GET', 'POST', 'HEAD'])))[2])
    if auto:
        g.check(sent.getlist('Location') == [want], 'absolute')
    else:
        g.check(sent['Location'].isascii() and len(sent.getlist('Location')) == 1, 'as given')
        g.check(not given.isascii() or ' ' in given or sent['Location'] == given, 'as given')
    g.check(sent.getlist('Content-Location') == ([] if cl is None else [cl.replace('\xe9', '%C3%A9')]),
            'content location')
    g.check(r.location == given and r.content_location == cl, 'response unchanged')


class Iter(object):
    def __init__(self, parts, log):
        self.it = iter(parts)
        self.log = log

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def close(self):
        self.log.append('closed')


@scenario(functions=[R + 'from_app', R + 'force_type', 'verktyg.test:run_wsgi_app', R + 'close'], n=3000,
          note='applications as responses')
def s_from_app(g):
    """A response made from an application has its status, headers and body, and closes it."""
    parts = [g.choice('part', [b'', b'a', b'bc']) for _ in range(g.int('parts', 0, 3))]
    written = [g.choice('written', [b'', b'w', b'xy']) for _ in range(g.int('writes', 0, 2))]
    status = g.choice('status', ['200 OK', '404 Nope', '201 Made'])
    headers = [('X-A', '1'), ('x-a', '2'), ('Content-Type', 'text/x')]
    log = []
    late = g.bool('late') and parts
    kind = g.choice('kind', ['list', 'iter', 'generator'])

    def app(environ, start_response):
        def start():
            write = start_response(status, list(headers))
            for w in written:
                write(w)
        if late:
            def gen():
                start()
                for p in parts:
                    yield p
            return gen() if kind != 'iter' else Iter(gen(), log)
        start()
        if kind == 'list':
            return list(parts)
        return Iter(parts, log) if kind == 'iter' else (p for p in parts)

    how = g.choice('how', ['app', 'buffered', 'force'])
    g.assume(not late or not written or how == 'buffered')
    if how == 'force':
        r = Response.force_type(app, env())
    else:
        r = Response.from_app(app, env(), buffered=how == 'buffered')
    g.check(type(r) is Response and r.status == status and r.status_code == int(status[:3]), 'status')
    g.check(list(r.headers) == headers, 'headers')
    g.check(r.is_sequence == (how == 'buffered'), 'buffered')
    g.check(r.get_data() == b''.join(written + parts), 'body')
    g.check(log == (['closed'] if how == 'buffered' and kind == 'iter' else []), 'open')
    r.close()
    g.check('closed' in log or kind != 'iter', 'closed')
    g.check(outcome(lambda: Response.force_type(app)) == ('exc', TypeError), 'needs an environ')

    def failing(environ, start_response):
        try:
            raise KeyError('x')
        except KeyError as e:
            info = sys.exc_info()
            start_response('500 No', [], info if g.bool('same') else (KeyError, KeyError('y'), info[2]))
        return []
    g.check(outcome(lambda: run_wsgi_app(failing, env())) == ('exc', KeyError), 'error')
