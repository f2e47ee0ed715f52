"""C21 — only trusted hosts get through host validation."""
from pyvc.api import *
from verktyg.wsgi import host_is_trusted, get_host, get_current_url
from verktyg.urls import encode_idna
from verktyg.exceptions import SecurityError
from verktyg.requests import Request

META = {
    'level': 'proof',
    'files': ['verktyg/wsgi.py', 'verktyg/urls.py', 'verktyg/requests.py'],
    'assumptions': ['IDNA encoding of host names is taken as given (the contracts compare encoded '
                    'names)'],
}

W = 'verktyg.wsgi:'
HOSTS = ['example.org', 'sub.example.org', 'evilexample.org', 'example.org.evil', 'org', 'example',
         'a.b', 'b', 'xb', '.b', 'b.', 'localhost', 'EXAMPLE.org', 'm\xfcller.de', 'www.m\xfcller.de',
         '', '.', '..b']


def host(g, name='host'):
    """Anything but a port separator, a list separator or blanks."""
    return g.str(name, max=4, alphabet='ab.', hints=HOSTS, without=':,' + BLANK)


IDNA = Opaque('verktyg.urls:encode_idna', ['str'], 'bytes')


def port(g, name='port'):
    return g.choice(name, ['', ':80', ':8080', ':', ':x'])


def bare(h):
    """The name without its port."""
    if ':' in h:
        return h.rsplit(':', 1)[0]
    return h


def spec_one(h, ref):
    if ref.startswith('.'):
        r = encode_idna(bare(ref[1:]))
        return r == h or h.endswith(b'.' + r)
    return encode_idna(bare(ref)) == h


def spec_trusted(h, refs):
    if not h:
        return False
    n = encode_idna(bare(h))
    return exists(refs, lambda ref: spec_one(n, ref))


LABELS = ['example', 'sub', 'a', 'b', 'org', 'evil', 'm\xfcller', 'EXAMPLE']
TAILS = ['', '.org', '.example.org', '.b', '.', '.evil', '.de']


def name(g, n):
    """A host name that does not start with a dot (and is not empty)."""
    return (g.str(n, max=2, alphabet='ab', hints=LABELS, without='.:,' + BLANK, nonempty=True) +
            g.str(n + ' tail', max=3, alphabet='ab.', hints=TAILS, without=':,' + BLANK))


def refs(g):
    return g.list('trusted', lambda g: (
        g.choice('dot', ['', '.']) + name(g, 'ref') + g.choice('refport', ['', ':80'])), max=4)


def any_refs(g):
    return g.list('trusted', lambda g: (
        g.choice('dot', ['', '.']) + host(g, 'ref') + port(g, 'refport')), max=4)


@harness(functions=[W + 'host_is_trusted'], uses=[IDNA])
def h_trusted(g):
    """A host is trusted exactly when, ports aside, it is a listed name or a
    subdomain of a name listed with a leading dot."""
    h = g.oneof('host kind', lambda g: host(g), lambda g: name(g, 'host')) + port(g)
    rs = refs(g)
    w = outcome(lambda: spec_trusted(h, rs))
    g.assume(w[0] == 'ok')
    g.check(same(outcome(lambda: bool(host_is_trusted(h, rs))), w), 'trusted')


@scenario(functions=[W + 'host_is_trusted', 'verktyg.urls:encode_idna'],
          note='listed names of unusual form (empty, several leading dots, bare ports)')
def s_trusted_odd(g):
    """The same for odd entries of the trust list."""
    h = host(g) + port(g)
    rs = any_refs(g)
    w = outcome(lambda: spec_trusted(h, rs))
    g.assume(w[0] == 'ok')
    g.check(same(outcome(lambda: bool(host_is_trusted(h, rs))), w), 'trusted')


@scenario(functions=[W + 'host_is_trusted', W + 'get_host'], n=1500, note='addresses instead of names')
def s_addresses(g):
    """An address is trusted exactly if that address is listed, whatever the ports."""
    hosts = ['[::1]', '[::2]', '[2001:db8::1]', '[2001:db8::2]', '[2001:db8::1:1]', '127.0.0.1', '127.0.0.2', 'a.test']
    ports = ['', ':80', ':8080']
    h = g.choice('host', hosts)
    listed = [g.choice('listed', hosts) for _ in range(g.int('refs', 0, 3))]
    refs = [r + g.choice('listed port', ports) for r in listed]
    asked = h + g.choice('port', ports)
    g.check(bool(host_is_trusted(asked, refs)) == (h in listed), 'trusted')
    r = outcome(lambda: get_host({'HTTP_HOST': asked, 'wsgi.url_scheme': 'http', 'SERVER_NAME': 's', 'SERVER_PORT': '80'},
                                 refs))
    g.check(r == (('ok', asked) if h in listed else ('exc', SecurityError)), 'host')


@harness(functions=[W + 'host_is_trusted'], uses=[IDNA])
def h_trusted_single(g):
    """A single trusted name may be given without a list."""
    h = host(g) + port(g)
    r = g.choice('dot', ['', '.']) + name(g, 'ref')
    w = outcome(lambda: spec_trusted(h, [r]))
    g.assume(w[0] == 'ok')
    g.check(same(outcome(lambda: bool(host_is_trusted(h, r))), w), 'trusted')


TRUST = Contract('verktyg.wsgi:host_is_trusted', lambda h, refs: spec_trusted(h, refs))


def environ(g):
    env = {'wsgi.url_scheme': g.choice('scheme', ['http', 'https']),
           'SERVER_NAME': host(g, 'server'),
           'SERVER_PORT': g.choice('sport', ['80', '443', '8080'])}
    if g.bool('has host'):
        env['HTTP_HOST'] = host(g, 'hh') + port(g, 'hp')
    if g.bool('has forwarded'):
        env['HTTP_X_FORWARDED_HOST'] = host(g, 'fh') + g.choice('ft', ['', ', proxy', ' ', ',x,y', ',']) 
    return env


def spec_host(env):
    if 'HTTP_X_FORWARDED_HOST' in env:
        return env['HTTP_X_FORWARDED_HOST'].split(',', 1)[0].strip()
    if 'HTTP_HOST' in env:
        return env['HTTP_HOST']
    h = env['SERVER_NAME']
    std = {'http': '80', 'https': '443'}[env['wsgi.url_scheme']]
    if env['SERVER_PORT'] != std:
        h = h + ':' + env['SERVER_PORT']
    return h


@harness(functions=[W + 'get_host'])
def h_get_host(g):
    """Without a trust list the host is the first forwarded host, else the Host
    header, else the server name with its non-standard port."""
    env = environ(g)
    g.check(same(outcome(lambda: get_host(env)), ('ok', spec_host(env))), 'host')


@harness(functions=[W + 'get_host'], uses=[TRUST, IDNA])
def h_get_host_trusted(g):
    """With a trust list an untrusted host is never returned: it raises, and a
    trusted one is returned unchanged."""
    env = {'wsgi.url_scheme': 'http', 'SERVER_NAME': name(g, 'server'),
           'SERVER_PORT': g.choice('sport', ['80', '8080'])}
    src = g.choice('source', ['server', 'host', 'forwarded'])
    if src == 'host':
        env['HTTP_HOST'] = name(g, 'hh') + g.choice('hp', ['', ':80'])
    if src == 'forwarded':
        env['HTTP_HOST'] = name(g, 'hh')
        env['HTTP_X_FORWARDED_HOST'] = name(g, 'fh') + g.choice('ft', ['', ', proxy'])
    rs = g.list('trusted', lambda g: g.choice('dot', ['', '.']) + name(g, 'ref'), max=4)
    w = spec_host(env)
    t = outcome(lambda: spec_trusted(w, rs))
    g.assume(t[0] == 'ok')
    r = outcome(lambda: get_host(env, rs))
    if t[1]:
        g.check(same(r, ('ok', w)), 'returned')
    else:
        g.check(r[0] == 'exc' and issubclass(r[1], SecurityError), 'rejected')


@scenario(functions=[W + 'get_current_url', 'verktyg.requests:BaseRequest.host'],
          note='goes through URL quoting, the per-host decision is proved above')
def s_request(g):
    """Every URL attribute of a request with a trust list refuses an untrusted host."""
    env = environ(g)
    env.update({'SCRIPT_NAME': g.choice('sn', ['', '/app']), 'PATH_INFO': g.choice('pi', ['/', '/x']),
                'QUERY_STRING': '', 'REQUEST_METHOD': 'GET'})
    for key in ('SCRIPT_NAME', 'PATH_INFO', 'QUERY_STRING'):
        if g.int('left out', 0, 9) == 0:
            del env[key]
    rs = any_refs(g)
    w = spec_host(env)
    t = outcome(lambda: spec_trusted(w, rs))
    g.assume(t[0] == 'ok')
    req = Request(env)
    req.trusted_hosts = rs
    attr = g.choice('attr', ['host', 'url', 'base_url', 'url_root', 'host_url'])
    r = outcome(lambda: getattr(req, attr))
    if t[1]:
        if attr == 'host':
            g.check(same(r, ('ok', w)), 'host')
        else:
            g.check(r[0] == 'ok' or not issubclass(r[1], SecurityError), 'no refusal')
    else:
        g.check(r[0] == 'exc' and issubclass(r[1], SecurityError), 'refused ' + attr)
