"""C20 — header values: quoting, lists, dicts, options, credentials."""
from pyvc.api import *
from verktyg.http import (
    quote_header_value, unquote_header_value, dump_header, parse_list_header, parse_dict_header, parse_set_header,
    dump_options_header, parse_options_header, parse_authorization_header, parse_www_authenticate_header,
    WWWAuthenticate, Headers, HeaderSet,
)

META = {
    'level': 'proof',
    'files': ['verktyg/http/basic.py', 'verktyg/http/auth.py'],
}

B = 'verktyg.http.basic:'
A = 'verktyg.http.auth:'
TOKEN = "!#$%&'*+-.0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ^_`abcdefghijklmnopqrstuvwxyz|~"


@harness(functions=[B + 'quote_header_value', B + 'unquote_header_value'])
def h_quote(g):
    """Text (with up to three quotes and backslashes anywhere) is left alone or put between quotes, and read back."""
    v = g.str('value', hints=['', 'a', 'a b', 'x;y', "it's"], without='"\\')
    n = g.choice('specials', [0, 1, 2, 3])
    for i in range(n):
        v = v + g.choice('special', ['"', '\\']) + g.str('more', hints=['', 'a', ' '], without='"\\')
    token = g.bool('token')
    q = quote_header_value(v, allow_token=token)
    g.check(same(unquote_header_value(q), v), 'round trip')
    if n == 0:
        g.check(same(q, v) or same(q, '"' + v + '"'), 'quoted or not')
        g.check(implies(v == '' or not token, same(q, '"' + v + '"')), 'quoted')


@harness(functions=[B + 'dump_header', B + 'quote_header_value'])
def h_list(g):
    """A list is written as its quoted items, in order, between commas."""
    items = g.list('items', lambda g: g.str('item', hints=['', 'a', 'a b', 'x,y'], without='"\\'))
    token = g.bool('token')
    want = ', '.join([quote_header_value(x, allow_token=token) for x in items])
    how = g.choice('how', ['list', 'tuple', 'iterator'])
    given = items if how == 'list' else tuple(items) if how == 'tuple' else (x for x in items)
    g.check(dump_header(given, token) == want, 'items')


@harness(functions=[B + 'HeaderSet.to_header', B + 'HeaderSet.__str__'])
def h_set(g):
    """A header set is written as its quoted names, in order."""
    items = g.list('items', lambda g: g.str('item', hints=['', 'a', 'a b', 'x,y'], without='"\\'),
                   distinct=lambda n: n.lower())
    want = ', '.join([quote_header_value(x) for x in items])
    s = HeaderSet(items)
    g.check(s.to_header() == want, 'names')
    g.check(str(s) == want, 'text')


def pair(k, v, token=True):
    return k if v is None else k + '=' + quote_header_value(v, allow_token=token)


def options(g):
    return g.dict('options', lambda g: g.str('key', hints=['a', 'b', 'c', 'charset'], without='"\\'),
                  lambda g: g.opt('value?', lambda g: g.str('value', hints=['', 'a', 'a b', 'x;y'], without='"\\')), max=4)


@harness(functions=[B + 'dump_header', B + 'quote_header_value'])
def h_dict(g):
    """A dict is written as its keys with their quoted values, in order."""
    d = options(g)
    token = g.bool('token')
    want = ', '.join([pair(k, v, token) for k, v in d.items()])
    g.check(dump_header(d, allow_token=token) == want, 'pairs')


@harness(functions=[B + 'dump_options_header', B + 'quote_header_value'])
def h_options(g):
    """A value with options is written as the value and its options between semicolons."""
    d = options(g)
    head = g.opt('value?', lambda g: g.str('head', hints=['', 'a', 'text/html']))
    want = '; '.join(([] if head is None else [head]) + [pair(k, v) for k, v in d.items()])
    g.check(dump_options_header(head, d) == want, 'options')


@harness(functions=[A + 'WWWAuthenticate.to_header', A + 'WWWAuthenticate.__init__', A + 'WWWAuthenticate.set_basic'])
def h_basic(g):
    """A basic challenge names its realm, always quoted."""
    realm = g.str('realm', hints=['', 'a', 'login required'], without='"\\')
    w = WWWAuthenticate()
    w.set_basic(realm)
    g.check(w.to_header() == 'Basic realm="' + realm + '"', 'header')
    g.check(w.type == 'basic' and w.realm == realm, 'attributes')


# -- native -------------------------------------------------------------------

CH = ['a', 'B', '1', ' ', ',', ';', '=', '"', '\\', '\xe9', '/', '(', '\t', "'", '%', '\\"', '""', '\u20ac', ':']


def text(g, name='text', max=6):
    return ''.join(g.choice('c', CH) for _ in range(g.int('len', 0, max)))


@scenario(functions=[B + 'quote_header_value', B + 'unquote_header_value'], n=6000, note='values')
def s_quote(g):
    """Values are read back; tokens are left alone, everything else is put between quotes."""
    v = text(g)
    extra = g.choice('extra', ['', ' /', '"'])
    g.assume('"' not in extra or '"' not in v)
    token = g.bool('token')
    q = quote_header_value(v, extra, token)
    g.check(unquote_header_value(q) == v, 'round trip')
    plain = v != '' and all(c in TOKEN + extra for c in v)
    g.check(q == v if plain and token else q[0] == q[-1] == '"' and len(q) >= 2, 'quoted unless a token')
    g.check(quote_header_value(42) == '42' and quote_header_value(b'a b') == '"a b"', 'other types')
    inner = q[1:-1] if q[:1] == '"' else ''
    i = 0
    while i < len(inner):
        if inner[i] == '\\':
            g.check(i + 1 < len(inner), 'escape at the end')
            i += 2
        else:
            g.check(inner[i] != '"', 'quote inside')
            i += 1


@scenario(functions=[B + 'dump_header', B + 'parse_list_header', B + 'parse_set_header', B + 'HeaderSet.to_header'],
          n=6000, note='lists')
def s_list(g):
    """A list is read back as it was written: every item, in order."""
    items = [text(g, max=4) for _ in range(g.int('n', 0, 4))]
    token = g.bool('token')
    h = dump_header(items, allow_token=token)
    g.check(parse_list_header(h) == items, 'list')
    g.check(parse_list_header(h.replace(', ', ' ,  ')) == items or ', ' in ''.join(items), 'spaces')
    s = parse_set_header(h)
    low = []
    for i in items:
        if i.lower() not in low:
            low.append(i.lower())
    g.check([x.lower() for x in s] == low, 'set')
    g.check([x.lower() for x in parse_set_header(s.to_header())] == low, 'set read back')


NAMES = ['a', 'b', 'realm', 'x-y', 'Foo']


@scenario(functions=[B + 'dump_header', B + 'parse_dict_header'], n=6000, note='dicts')
def s_dict(g):
    """A dict is read back as it was written."""
    d = {}
    for _ in range(g.int('n', 0, 4)):
        d[g.choice('name', NAMES)] = g.opt('value', lambda g: text(g, max=4))
    h = dump_header(d, allow_token=g.bool('token'))
    got = parse_dict_header(h)
    g.check(got == d and list(got) == list(d), 'dict')
    g.check('\u20ac' in h or parse_dict_header(h.encode('latin1')) == d, 'bytes')

    class Other(dict):
        pass
    g.check(type(parse_dict_header(h, cls=Other)) is Other, 'class')


@scenario(functions=[B + 'dump_options_header', B + 'parse_options_header', B + 'Headers.add', B + 'Headers.set',
                     'verktyg.requests:CommonRequestDescriptorsMixin.mimetype_params',
                     'verktyg.responses:CommonResponseDescriptorsMixin.mimetype_params'],
          n=6000, note='options')
def s_options(g):
    """A value with options is read back as it was written."""
    name = g.choice('value', ['text/html', 'attachment', 'form-data', 'a'])
    d = {}
    for _ in range(g.int('n', 0, 4)):
        d[g.choice('name', NAMES + ['filename', 'charset'])] = g.opt('value', lambda g: text(g, max=4))
    g.assume(not (d.get('filename') or '').startswith('\\'))
    h = dump_options_header(name, d)
    g.check(parse_options_header(h) == (name, d), 'options')
    g.check(dump_options_header(None, d) == '; '.join(h.split('; ')[1:]) or '; ' in ''.join(v or '' for v in d.values()),
            'without a value')
    hs = Headers()
    kw = {k.replace('-', '_'): v for k, v in d.items()}
    hs.add('X-Y', name, **kw)
    g.check(parse_options_header(hs['X-Y']) == (name, d), 'added')
    hs.set('X-Y', name, **kw)
    g.check(parse_options_header(hs['X-Y']) == (name, d), 'set')
    g.check(h.replace('; ', ';') if ' ' not in ''.join(v or '' for v in d.values()) else True, 'spaces')


@harness(functions=[B + 'unquote_header_value'])
def h_network(g):
    """The name of a file on another machine is read as it stands, every other quoted text is unquoted."""
    server = g.str('server', hints=['server', 'a b'], without='"\\')
    name = g.str('name', hints=['file.txt', ''], without='"\\')
    path = '\\\\' + server + '\\' + name
    g.check(same(unquote_header_value('"' + path + '"', True), path), 'network path')
    g.check(same(unquote_header_value('"' + path + '"'), '\\' + server + '\\' + name), 'other value')
    if len(server) > 0:
        drive = server + ':\\' + name
        g.check(same(unquote_header_value('"' + drive + '"', True), drive), 'other file')


@scenario(functions=[B + 'parse_options_header'], n=300, note='file names')
def s_network(g):
    """The name of a file sent by a browser as a network path is read as it stands."""
    path = '\\\\' + '\\'.join(g.choice('part', ['server', 'a', 'b c', 'x.txt']) for _ in range(g.int('n', 1, 4)))
    h = 'form-data; name="f"; filename="%s"' % path
    h += g.choice('more', ['', '; x=y', '; name2="\\\\a"'])
    name, options = parse_options_header(h)
    g.check(name == 'form-data' and options['filename'] == path and options['name'] == 'f', 'name')
    g.check(options.get('name2', '\\a') == '\\a', 'other option')


ANY = ['a', '=', ',', ';', '"', '\\', ' ', '/', 'Basic ', 'Digest ', '\xff', '0', '\t', '*', 'realm="x"', 'YTpi', ':',
       'username=a, realm=b, nonce=c, uri=d, response=e', '\x0b', '==']


@scenario(functions=[B + 'parse_list_header', B + 'parse_dict_header', B + 'parse_options_header',
                     B + 'parse_set_header', B + 'unquote_header_value', A + 'parse_authorization_header',
                     A + 'parse_www_authenticate_header'], n=10000, note='any text')
def s_total(g):
    """No text makes a reader fail."""
    t = ''.join(g.choice('c', ANY) for _ in range(g.int('len', 0, 8)))
    g.check(all(type(x) is str for x in parse_list_header(t)), 'list')
    d = parse_dict_header(t)
    g.check(all(type(k) is str and (v is None or type(v) is str) for k, v in d.items()), 'dict')
    name, options = parse_options_header(t)
    g.check(type(name) is str and all(type(k) is str and (v is None or type(v) is str)
                                      for k, v in options.items()), 'options')
    list(parse_set_header(t))
    g.check(type(unquote_header_value(t)) is str, 'unquoted')
    a = parse_authorization_header(t)
    g.check(a is None or a.type in ('basic', 'digest') and type(a.username) is str, 'credentials')
    w = parse_www_authenticate_header(t)
    g.check(type(w.to_header()) is str, 'challenge')


def spoil(x):
    """Change a result in every way it allows."""
    if isinstance(x, tuple):
        for y in x:
            spoil(y)
    for change in (lambda: x.append('more'), lambda: x.add('more'), lambda: x.update({'more': 'x', 'a': 'z'}),
                   lambda: x.clear(), lambda: setattr(x, 'realm', 'other')):
        try:
            change()
        except (AttributeError, TypeError, KeyError):
            pass


@scenario(functions=[B + 'parse_list_header', B + 'parse_dict_header', B + 'parse_options_header',
                     B + 'parse_set_header', A + 'parse_authorization_header', A + 'parse_www_authenticate_header'],
          n=4000, note='read twice')
def s_again(g):
    """What is done with one result does not change what the same header gives the next time."""
    readers = [(parse_list_header, list), (parse_dict_header, dict), (parse_options_header, lambda r: (r[0], dict(r[1]))),
               (parse_set_header, list), (parse_authorization_header, lambda r: r and (r.type, dict(r))),
               (parse_www_authenticate_header, lambda r: (r.type, dict(r)))]
    texts = [''.join(g.choice('c', ANY) for _ in range(g.int('len', 0, 6))) for _ in range(g.int('n', 1, 2))]
    first = [[seen(read(t)) for read, seen in readers] for t in texts]
    for _ in range(g.int('changes', 1, 3)):
        spoil(g.choice('reader', readers)[0](g.choice('text', texts)))
    g.check([[seen(read(t)) for read, seen in readers] for t in texts] == first, 'same again')


@scenario(functions=[A + 'parse_authorization_header', A + 'Authorization', 'verktyg.requests:AuthorizationMixin'],
          n=4000, note='credentials')
def s_authorization(g):
    """Credentials are read as they were sent, or not at all."""
    import base64
    from verktyg.requests import Request
    user = ''.join(g.choice('u', ['a', 'B', ' ', '\xe9', '@', '"', ';']) for _ in range(g.int('ulen', 0, 4)))
    word = ''.join(g.choice('p', ['a', ':', ' ', '\xe9', '=', ',']) for _ in range(g.int('plen', 0, 4)))
    raw = (user + ':' + word).encode('latin1')
    value = g.choice('scheme', ['Basic ', 'basic ', 'BASIC  ']) + base64.b64encode(raw).decode('ascii')
    a = parse_authorization_header(value)
    g.check(a is not None and a.type == 'basic' and a.username == user and a.password == word, 'basic')
    b = Request({'HTTP_AUTHORIZATION': value, 'REQUEST_METHOD': 'GET'}, populate_request=False).authorization
    g.check(b == a, 'request')
    g.check(parse_authorization_header('Basic ' + base64.b64encode(b'nocolon').decode('ascii')) is None, 'no password')
    g.check(parse_authorization_header(g.choice('bad', ['', None, 'Basic', 'Basic ', 'Bearer x', 'Basic !'])) is None,
            'malformed')
    d = {k: text(g, max=3) for k in ['username', 'realm', 'nonce', 'uri', 'response', 'opaque', 'qop', 'nc', 'cnonce']
         if g.bool('with')}
    g.assume('\u20ac' not in ''.join(d.values()))
    c = parse_authorization_header('Digest ' + dump_header(d, allow_token=g.bool('token')))
    need = all(k in d for k in ['username', 'realm', 'nonce', 'uri', 'response'])
    need = need and ('qop' not in d or bool(d.get('nc') and d.get('cnonce')))
    g.check((c is not None) == need, 'complete')
    if need:
        g.check(c.type == 'digest' and dict(c) == d, 'digest')
        g.check(c.realm == d['realm'] and c.nonce == d['nonce'] and c.uri == d['uri'] and
                c.response == d['response'] and c.username == d['username'] and c.opaque == d.get('opaque') and
                c.nc == d.get('nc') and c.cnonce == d.get('cnonce'), 'attributes')


@scenario(functions=[A + 'WWWAuthenticate', A + 'parse_www_authenticate_header',
                     'verktyg.responses:WWWAuthenticateMixin.www_authenticate'], n=4000, note='challenges')
def s_challenge(g):
    """A challenge is read back as it was written."""
    w = WWWAuthenticate()
    realm = text(g, max=4)
    if g.bool('digest'):
        qop = g.choice('qop', [('auth',), ('auth', 'auth-int')])
        nonce = text(g, max=3)
        opaque = g.opt('opaque', lambda g: text(g, max=3))
        algorithm = g.choice('algorithm', [None, 'MD5', 'MD5-sess'])
        stale = g.bool('stale')
        w.set_digest(realm, nonce, qop, opaque, algorithm, stale)
        r = parse_www_authenticate_header(w.to_header())
        g.check(r.type == 'digest' and r.realm == realm and r.nonce == nonce and r.opaque == opaque and
                r.algorithm == algorithm and bool(r.stale) == stale, 'read back')
        g.check(sorted(r.qop) == sorted(qop), 'qop')
    else:
        w.set_basic(realm)
        r = parse_www_authenticate_header(w.to_header())
        g.check(r.type == 'basic' and r.realm == realm, 'read back')
    g.check(dict(r) == dict(w), 'all of it')
    g.check(w.to_header().lower().startswith(w.type + ' '), 'type first')
