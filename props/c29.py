"""C29 — converting between IRIs and URIs keeps what they name."""
import re
from urllib.parse import parse_qsl, quote, unquote, urlsplit
from pyvc.api import *
from verktyg.urls import decode_idna, encode_idna, iri_to_uri, uri_to_iri, url_fix

META = {
    'level': 'proof',
    'files': ['verktyg/urls.py'],
    'assumptions': ['urllib.parse.urlsplit, urlunsplit and quote, and the idna codec, are the standard library; '
                    'the proofs take them as arbitrary functions'],
}

U = 'verktyg.urls:'
SAFE_ALWAYS = '-._~'
HOSTS = [('a.test', 'a.test'), ('localhost', 'localhost'), ('127.0.0.1', '127.0.0.1'), ('::1', '::1'),
         ('\u2603.net', 'xn--n3h.net'), ('b\xfccher.a.test', 'xn--bcher-kva.a.test'), ('x-1.y', 'x-1.y')]
TEXTS = ['', 'a', 'a b', '%', '%41', '\xfc', '\u65e5\u672c', '?', '#', '&', '=', '+', ';', ':', '@', 'a\\b', '.', '/', '[', ']',
         '"', '\x7f', '<a>', '\x00', '\n', '\t', 'a\rb', "'", '!$,*()', '|', '{}', '^', '`', '~']


def text(g, n, nonempty=False, without=''):
    s = g.choice(n, TEXTS) if g.bool('listed') else g.str(n, max=4, alphabet='ab%/?#&=+ \xfc;:@')
    try:
        s.encode('utf8')
    except UnicodeError:
        g.assume(False)
    g.assume((s or not nonempty) and not set(s) & set(without))
    return s


class Parts(object):
    """What a URL names."""


def parts(g):
    p = Parts()
    p.scheme = g.choice('scheme', ['http', 'https', 'ftp', ''])
    p.host = g.choice('host', HOSTS) if p.scheme or g.bool('network') else None
    p.port = g.choice('port', [None, 1, 80, 8080, 65535]) if p.host else None
    p.user = text(g, 'user', True) if p.host and g.bool('user given') else None
    p.password = text(g, 'password', True) if p.host and g.bool('password given') else None
    p.segments = [text(g, 'segment') for _ in range(g.int('segments', 0, 3))]
    p.query = [(text(g, 'key', True), text(g, 'value')) for _ in range(g.int('pairs', 0, 2))]
    p.fragment = text(g, 'fragment') if g.bool('fragment given') else ''
    if not p.host:
        # neither a scheme nor a host may appear out of nowhere
        g.assume(not p.segments or p.segments[0] != '')
    return p


def own(s):
    """Every byte that is not unreserved as an escape."""
    return ''.join(chr(b) if chr(b).isalnum() and b < 128 or chr(b) in SAFE_ALWAYS else '%%%02X' % b
                   for b in s.encode('utf8'))


def build(p, host, enc):
    out = p.scheme + ':' if p.scheme else ''
    if p.host:
        out += '//'
        if p.user is not None or p.password is not None:
            out += enc(p.user or '') + (':' + enc(p.password) if p.password is not None else '') + '@'
        out += '[%s]' % host if ':' in host else host
        if p.port is not None:
            out += ':%d' % p.port
    out += ''.join('/' + enc(s) for s in p.segments)
    if p.query:
        out += '?' + '&'.join(enc(k) + '=' + enc(v) for k, v in p.query)
    if p.fragment:
        out += '#' + enc(p.fragment)
    return out


def names(g, url, p, host, label, fragment=True):
    """The URL names exactly these parts."""
    u = urlsplit(url)
    g.check(u.scheme == p.scheme, label + ' scheme')
    g.check((u.hostname or None) == (host if p.host else None), label + ' host')
    g.check(u.port == p.port, label + ' port')
    g.check((unquote(u.username) if u.username else None) == p.user, label + ' user')
    g.check((unquote(u.password) if u.password else None) == p.password, label + ' password')
    got = [unquote(s) for s in u.path.split('/')] if u.path else ['']
    g.check(got == [''] + p.segments, label + ' path')
    g.check(parse_qsl(u.query, keep_blank_values=True) == p.query, label + ' query')
    if fragment:
        g.check(unquote(u.fragment) == p.fragment, label + ' fragment')


class Split(object):
    def __init__(self, scheme, path, query, fragment, username, password, hostname, port):
        self.scheme = scheme
        self.path = path
        self.query = query
        self.fragment = fragment
        self.username = username
        self.password = password
        self.hostname = hostname
        self.port = port


def spec_split(url, scheme='', allow_fragments=True):
    """urlsplit, for lower case hosts that are names."""
    rest, _, fragment = url.partition('#')
    rest, _, query = rest.partition('?')
    scheme, sep, rest = rest.partition('://')
    netloc, slash, path = rest.partition('/')
    auth, at, host = netloc.rpartition('@')
    username = password = None
    if at:
        username, colon, password = auth.partition(':')
        if not colon:
            password = None
    host, colon, port = host.partition(':')
    return Split(scheme, slash + path, query, fragment, username, password, host, int(port) if colon else None)


def spec_unsplit(parts):
    scheme, netloc, path, query, fragment = parts
    return scheme + '://' + netloc + path + ('?' + query if query else '') + ('#' + fragment if fragment else '')


def spec_quote(s, safe='/', encoding=None, errors=None):
    """quote, for text without reserved characters."""
    return s


def spec_same(s, *args, **kw):
    return s


SPLIT = Contract('urllib.parse:urlsplit', spec_split)
UNSPLIT = Contract('urllib.parse:urlunsplit', spec_unsplit)
QUOTE = Contract('urllib.parse:quote', spec_quote)
QUOTE_PLUS = Contract('urllib.parse:quote_plus', spec_quote)
UNQUOTE = Contract(U + '_safe_urlunquote', spec_same)
WORD = 'a-z0-9._-'


@harness(functions=[U + 'iri_to_uri', U + 'uri_to_iri', U + 'url_fix', U + '_encode_netloc', U + 'encode_idna',
                    U + 'decode_idna'], uses=[SPLIT, UNSPLIT, QUOTE, QUOTE_PLUS, UNQUOTE])
def h_structure(g):
    """A URL of plain words is left as it is: none of its parts gets lost or changes its place."""
    def word(n, nonempty=True):
        return g.str(n, only=WORD, alphabet='ab1', max=4, nonempty=nonempty)
    url = 'http://'
    auth = g.choice('auth', ['none', 'user', 'both', 'password'])
    if auth != 'none':
        url += ((word('user') if auth != 'password' else '') +
                (':' + word('password') if auth != 'user' else '') + '@')
    url += 'a.test'
    url += g.choice('port', ['', ':8080'])
    if g.bool('path'):
        url += '/' + word('segment', False) + g.choice('more', ['', '/x'])
    if g.bool('query'):
        url += '?' + word('key') + g.choice('value', ['', '=1&b=%2F'])
    if g.bool('fragment'):
        url += '#' + word('fragment')
    f = g.choice('function', [iri_to_uri, url_fix, uri_to_iri])
    g.check(f(url) == url, 'kept')


@scenario(functions=[U + 'uri_to_iri', U + 'iri_to_uri', U + '_encode_netloc', U + '_safe_urlunquote'], n=6000,
          note='whole URLs')
def s_uri(g):
    """The IRI of a URI, and the URI of that IRI, name the same; converting twice is converting once."""
    p = parts(g)
    uri = build(p, p.host[1] if p.host else None, own)
    iri = uri_to_iri(uri)
    names(g, iri, p, p.host[0] if p.host else None, 'iri')
    g.check(uri_to_iri(iri) == iri, 'iri of iri')
    back = iri_to_uri(iri)
    g.check(back.isascii(), 'ascii')
    names(g, back, p, p.host[1] if p.host else None, 'back')
    g.check(iri_to_uri(back) == back, 'uri of uri')
    g.check(uri_to_iri(back) == iri, 'iri again')
    names(g, iri_to_uri(uri), p, p.host[1] if p.host else None, 'uri')


def plain(s):
    """Only what has a meaning in a URL, or is no character of one, as an escape."""
    return ''.join(quote(c, safe='') if c in ':/?#[]@&=+;%\\' or c <= ' ' else c for c in s)


@scenario(functions=[U + 'iri_to_uri', U + '_encode_netloc', U + 'encode_idna'], n=4000, note='whole URLs')
def s_iri(g):
    """The URI of an IRI is ASCII and names the same."""
    p = parts(g)
    iri = build(p, p.host[0] if p.host else None, plain)
    uri = iri_to_uri(iri)
    g.check(uri.isascii() and not set(uri) & set(' "<>\\^`{|}\x7f'), 'ascii')
    names(g, uri, p, p.host[1] if p.host else None, 'uri')
    g.check(iri_to_uri(uri) == uri, 'uri of uri')


@scenario(functions=[U + 'url_fix', U + '_encode_netloc'], n=4000, note='whole URLs')
def s_fix(g):
    """A fixed URL is ASCII, names what was meant, and needs no further fixing."""
    p = parts(g)
    g.assume(p.scheme in ('http', 'https') or not p.host)
    raw = build(p, p.host[0] if p.host else None, lambda s: ''.join(
        quote(c, safe='') if c in ':/?#[]@&=+;%\\\t\r\n' or c < ' ' else c for c in s))
    g.assume(raw.strip() == raw)
    url = url_fix(raw)
    g.check(url.isascii() and ' ' not in url, 'ascii')
    names(g, url, p, p.host[1] if p.host else None, 'fixed', fragment=' ' not in p.fragment)
    g.check(url_fix(url) == url, 'twice')
    if p.host and not p.query and not p.fragment:
        slash = raw.replace('/', '\\')
        g.check(url_fix(slash) == url, 'backslashes')


@scenario(functions=[U + 'url_fix'], n=1500, note='charsets')
def s_charset(g):
    """A fixed URL is in the charset asked for, whatever it has been asked for before."""
    word = ''.join(g.choice('c', ['a', '\xe4', '\xdf', ' ']) for _ in range(g.int('length', 1, 4)))
    where = g.choice('where', ['http://a.test/%s/b', 'http://a.test/?%s=1', 'http://a.test/x#%s', '/%s'])
    for _ in range(2):
        charset = g.choice('charset', ['utf-8', 'latin-1', 'cp437', None])
        url = url_fix(where % word) if charset is None else url_fix(where % word, charset)
        codec = charset or 'utf-8'
        g.check(url.isascii(), 'ascii')
        left, right = where.split('%s')
        middle = url[len(left):len(url) - len(right)]
        g.check(url == left + middle + right, 'rest kept')
        g.check(unquote(middle.replace('+', '%20'), codec) == word, 'charset')


PIECES = ['%', '%g', '%zz', '%4', '%%', '%\xfc', '%-1', '% 1', 'a', 'sure', '%20', '%41', '%7e', '%C3%BC', '%c3%bc', '%e6%97%a5',
          'x%20', 'q.', '7']


def unquoted(s):
    """Escapes of ordinary characters as the characters; everything else as it is."""
    out = b''
    b = s.encode('utf8')
    i = 0
    while i < len(b):
        if b[i:i + 1] == b'%' and re.fullmatch(b'[0-9a-fA-F]{2}', b[i + 1:i + 3]):
            out += bytes([int(b[i + 1:i + 3], 16)])
            i += 3
        else:
            out += b[i:i + 1]
            i += 1
    return out.decode('utf8')


@scenario(functions=[U + 'uri_to_iri', U + '_safe_urlunquote', U + '_safe_urlunquote_to_bytes'], n=4000,
          note='texts with escapes')
def s_escapes(g):
    """Escapes that are not valid stay as they are and take nothing else with them."""
    s = ''.join(g.choice('piece', PIECES) for _ in range(g.int('pieces', 1, 6)))
    try:
        want = unquoted(s)
    except UnicodeError:
        g.assume(False)
    # what a valid escape stands for must be an ordinary character
    g.assume(not any(chr(int(e, 16)) in '%/;?:@&=+,$#[]' or int(e, 16) < 32 for e in re.findall('%([0-9a-fA-F]{2})', s)))
    g.check(uri_to_iri('http://a.test/' + s) == 'http://a.test/' + want, 'path')
    g.check(uri_to_iri('http://a.test/?' + s) == 'http://a.test/?' + want, 'query')
    g.check(uri_to_iri('http://a.test/#' + s) == 'http://a.test/#' + want, 'fragment')
    g.check(uri_to_iri('http://%s@a.test/' % s) == 'http://%s@a.test/' % want, 'user')


@scenario(functions=[U + 'encode_idna', U + 'decode_idna'], n=300, note='domain names')
def s_idna(g):
    """Domain names are encoded and decoded part by part."""
    parts = [g.choice('part', HOSTS[:2] + HOSTS[4:]) for _ in range(g.int('parts', 1, 3))]
    u = '.'.join(p[0] for p in parts)
    a = '.'.join(p[1] for p in parts)
    g.check(encode_idna(u) == a.encode('ascii') and encode_idna(a) == a.encode('ascii'), 'encoded')
    g.check(encode_idna(a.encode('ascii')) == a.encode('ascii'), 'bytes')
    g.check(decode_idna(a) == u and decode_idna(a.encode('ascii')) == u and decode_idna(u) == u, 'decoded')
    bad = g.choice('undecodable', ['xn--a', 'xn--\x7f-', 'xn--999999999'])
    g.check(decode_idna(a + '.' + bad) == u + '.' + bad, 'what is not a domain name is kept')
    g.check(uri_to_iri('http://%s.%s/x' % (bad, a)) == 'http://%s.%s/x' % (bad, u), 'in a URL')
