"""C10 — no header value can smuggle a line break."""
from pyvc.api import *
from verktyg.http import Headers
from verktyg.responses import Response
from verktyg.utils import redirect

META = {
    'level': 'proof',
    'files': ['verktyg/http/basic.py', 'verktyg/http/cookies.py', 'verktyg/responses.py',
              'verktyg/utils.py'],
    'assumptions': ['header names are chosen by the application and are not checked'],
}

H = 'verktyg.http.basic:Headers.'
VALS = ['a', 'a\r\nSet-Cookie: x=1', '\n', '\r', 'x\ny', 'x\r', '', 'ok, fine', '\x0b', '\u2028']
KEYS = ['X-A', 'x-a', 'Foo', 'Location', 'content-type']


def key(g, name='key'):
    return g.str(name, hints=KEYS)


def clean(v):
    return '\n' not in v and '\r' not in v


def text(g, name='value'):
    return g.str(name, hints=VALS)


def items(g):
    def one(g):
        v = text(g, 'v')
        g.assume(clean(v))
        return (key(g, 'k'), v)
    return g.list('items', one, max=4)


def view(h):
    return [kv for kv in h]


def refuse(g, h, before, bad, fn, label):
    """fn(h) stores the value, or raises ValueError and changes nothing if bad."""
    r = outcome(fn)
    if bad:
        g.check(same(r, ('exc', ValueError)), label + ' refused')
        g.check(same(view(h), before), label + ' unchanged')
    else:
        g.check(r[0] == 'ok', label + ' accepted')
    g.check(forall(view(h), lambda kv: clean(kv[1])), label + ' clean')


@harness(functions=[H + 'add', H + '_validate_value', 'verktyg.http.basic:unicodify_header_value'])
def h_add(g):
    """add and add_header refuse values with line breaks, also given as bytes."""
    it = items(g)
    before = [(a, b) for a, b in it]
    h = Headers(it)
    k, v = key(g), text(g)
    kind = g.choice('kind', ['add', 'add_header', 'bytes'])
    if kind == 'add':
        refuse(g, h, before, not clean(v), lambda: h.add(k, v), 'add')
    elif kind == 'add_header':
        refuse(g, h, before, not clean(v), lambda: h.add_header(k, v), 'add_header')
    else:
        b = g.bytes('b', hints=[b'a', b'a\r\nb', b'\n', b'\r'])
        t = b.decode('latin-1')
        refuse(g, h, before, not clean(t), lambda: h.add(k, b), 'add bytes')


@harness(functions=[H + 'set', H + '__setitem__', H + '_validate_value'])
def h_set(g):
    """set and item assignment refuse values with line breaks."""
    it = items(g)
    before = [(a, b) for a, b in it]
    h = Headers(it)
    k, v = key(g), text(g)
    if g.bool('item'):
        def put():
            h[k] = v
        refuse(g, h, before, not clean(v), put, 'item')
    else:
        refuse(g, h, before, not clean(v), lambda: h.set(k, v), 'set')


@harness(functions=[H + 'setdefault', H + 'set'])
def h_setdefault(g):
    """setdefault refuses a default with line breaks when it would be stored."""
    it = items(g)
    before = [(a, b) for a, b in it]
    h = Headers(it)
    k, v = key(g), text(g)
    present = k in h
    refuse(g, h, before, not clean(v) and not present, lambda: h.setdefault(k, v), 'setdefault')


@harness(functions=[H + '__setitem__'])
def h_index(g):
    """Assigning a pair by index or slice refuses line breaks."""
    it = items(g)
    g.assume(len(it) > 0)
    before = [(a, b) for a, b in it]
    h = Headers(it)
    k, v = key(g), text(g)
    if g.bool('slice'):
        def put():
            h[0:] = [(k, v)]
    else:
        def put():
            h[0] = (k, v)
    refuse(g, h, before, not clean(v), put, 'index')


@harness(functions=[H + '__setitem__'])
def h_slice(g):
    """Assigning several pairs to a slice refuses a line break in any of them."""
    pairs = g.list('pairs', lambda g: (key(g, 'k'), text(g, 'v')), max=4)
    want = [(k, v) for k, v in pairs]
    bad = exists(pairs, lambda kv: not clean(kv[1]))
    h = Headers([('a', '1')])

    def put():
        h[0:1] = pairs
    r = outcome(put)
    if bad:
        g.check(same(r, ('exc', ValueError)), 'refused')
        g.check(same(view(h), [('a', '1')]), 'unchanged')
    else:
        g.check(r[0] == 'ok' and same(view(h), want), 'stored')


@harness(functions=[H + '__init__', H + 'extend'])
def h_init(g):
    """The constructor and extend refuse any pair with a line break."""
    pairs = g.list('pairs', lambda g: (key(g, 'k'), text(g, 'v')), max=4)
    bad = exists(pairs, lambda kv: not clean(kv[1]))
    if g.bool('extend'):
        h = Headers()
        r = outcome(lambda: h.extend(pairs))
        g.check(forall(view(h), lambda kv: clean(kv[1])), 'extend clean')
    else:
        r = outcome(lambda: Headers(pairs))
        if r[0] == 'ok':
            g.check(forall(view(r[1]), lambda kv: clean(kv[1])), 'init clean')
    if bad:
        g.check(same(r, ('exc', ValueError)), 'refused')
    else:
        g.check(r[0] == 'ok', 'accepted')


def all_clean(headers):
    return all(isinstance(v, str) and clean(v) for k, v in headers)


@scenario(functions=[H + f for f in ('__init__', 'extend', 'add', 'set', '__setitem__',
                                     'setdefault')], n=4000, note='every entry point, mixed types')
def s_entry_points(g):
    """No entry point leaves a value with a line break behind."""
    h = Headers()
    for _ in range(g.int('n', 1, 5)):
        k = key(g)
        v = g.oneof('v', text, lambda g: g.bytes('b', hints=[b'a\nb', b'\r', b'x']),
                    lambda g: g.int('i'))
        op = g.choice('op', ['add', 'kw', 'set', 'setkw', 'item', 'extl', 'extd', 'extdl', 'default',
                             'index', 'slice', 'newl', 'newd', 'newh', 'header', 'gen', 'dictcopy'])
        try:
            if op == 'add':
                h.add(k, v)
            elif op == 'header':
                h.add_header(k, 'x', opt=v)
            elif op == 'kw':
                h.add(k, 'x', filename=v)
            elif op == 'set':
                h.set(k, v)
            elif op == 'setkw':
                h.set(k, 'x', **{'a_b': v})
            elif op == 'item':
                h[k] = v
            elif op == 'extl':
                h.extend([('A', 'b'), (k, v)])
            elif op == 'extd':
                h.extend({k: v})
            elif op == 'extdl':
                h.extend({k: ['fine', v]})
            elif op == 'gen':
                h.extend((p for p in [(k, v)]))
            elif op == 'default':
                h.setdefault(k, v)
            elif op == 'index' and len(h):
                h[-1] = (k, v)
            elif op == 'slice':
                h[:1] = [(k, v)]
            elif op == 'newl':
                h = Headers(list(h) + [(k, v)])
            elif op == 'newd':
                h = Headers({k: v})
            elif op == 'newh':
                h = Headers(h)
            elif op == 'dictcopy':
                h = h.copy()
        except (ValueError, TypeError):
            pass
        g.check(all(clean(v if isinstance(v, str) else v.decode('latin1') if isinstance(v, bytes)
                          else str(v)) for _, v in h), 'clean')


@scenario(functions=['verktyg.responses:Response.set_cookie', 'verktyg.utils:redirect',
                     'verktyg.responses:BaseResponse.get_wsgi_headers'], n=2500,
          note='through the response object')
def s_response(g):
    """Headers sent by a response built from arbitrary values have no line breaks."""
    t = text(g)
    u = text(g, 'other')
    op = g.choice('op', ['cookie', 'location', 'redirect', 'ctype', 'headers', 'etag', 'www',
                         'delete', 'lang', 'disp', 'mimetype', 'status'])
    try:
        if op == 'redirect':
            r = redirect(t)
        elif op == 'headers':
            r = Response('x', headers=[('A', t), ('B', u)])
        elif op == 'ctype':
            r = Response('x', content_type=t)
        elif op == 'mimetype':
            r = Response('x', mimetype='text/' + t)
        else:
            r = Response('x')
            if op == 'cookie':
                r.set_cookie(u or 'k', t, path=u, domain=None)
            elif op == 'delete':
                r.delete_cookie('k', path=t)
            elif op == 'location':
                r.location = t
            elif op == 'etag':
                r.set_etag(t)
            elif op == 'www':
                r.www_authenticate.set_basic(t)
            elif op == 'lang':
                r.content_language.add(t)
            elif op == 'disp':
                r.headers.add('Content-Disposition', 'attachment', filename=t)
            elif op == 'status':
                r.vary.add(t)
                r.cache_control['x'] = t
        out = r.get_wsgi_headers({'wsgi.url_scheme': 'http', 'SERVER_NAME': 'h', 'HTTP_HOST': 'h',
                                  'SERVER_PORT': '80', 'SCRIPT_NAME': '', 'PATH_INFO': '/',
                                  'REQUEST_METHOD': 'GET'})
    except (ValueError, TypeError, UnicodeError, IndexError):
        return
    g.check(all_clean(list(out)), 'clean')
