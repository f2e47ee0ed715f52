"""C06 — matching a path to a route."""
from pyvc.api import *
from verktyg.routing import (
    BaseConverter, Route, URLMap, MapAdapter, RequestRedirect, IntegerConverter, FloatConverter, ValidationError,
)
from verktyg.exceptions import NotFound

META = {
    'level': 'proof',
    'files': ['verktyg/routing.py'],
    'assumptions': ['in the proofs routes are stand-ins with an arbitrary result of Route.match; the regular '
                    'expressions behind Route.match are covered by native evaluation only'],
    'note': 'The search over routes, hosts and number conversion are proved; pattern matching by regular '
            'expression is evaluated natively against an independent matcher.',
}

R = 'verktyg.routing:'


class FakeRoute(object):
    """A route whose match is already decided."""
    redirect_to = None
    defaults = None
    build_only = False

    def __init__(self, kind, endpoint, values):
        self.kind = kind
        self.endpoint = endpoint
        self.values = values

    def match(self, path):
        if self.kind == 0:
            return None
        return self.values


class Asked(FakeRoute):
    def match(self, path):
        self.path = path
        return {}


class FakeRouter(object):
    host_matching = False
    redirect_defaults = False
    charset = 'utf-8'
    _routes_by_endpoint = {}

    def __init__(self, routes):
        self._routes = routes

    def update(self):
        pass


def fake(g):
    return FakeRoute(g.int('match', 0, 1), g.str('endpoint', hints=['a', 'b']), {'v': g.tok('values')})


#: parts of the code without which the stand-ins mean nothing
GONE = [name for obj, names in ((Route('/'), ['match', 'redirect_to', 'endpoint']),
                                (URLMap(), ['_routes', 'update', 'host_matching', 'redirect_defaults']))
        for name in names if not hasattr(obj, name)]


def guard():
    if GONE:
        raise Missing(GONE[0])


@harness(functions=[R + 'MapAdapter.match', R + 'MapAdapter.__init__'])
def h_first(g):
    """The first route that matches decides; without one the path is not found."""
    guard()
    rs = g.list('routes', fake, max=4)
    hit = first(rs, lambda r: r.kind != 0)
    a = MapAdapter(FakeRouter(rs), 'example.org', '/', '', 'http', None)
    path = g.str('path', hints=['/', 'a', '/a/b'])
    route = g.bool('route')
    o = outcome(lambda: a.match(path, return_route=route))
    if hit is None:
        g.check(same(o, ('exc', NotFound)), 'not found')
    else:
        g.check(o[0] == 'ok', 'found')
        if o[0] == 'ok':
            r, values = o[1]
            g.check((r is hit[1]) if route else same(r, hit[1].endpoint), 'first match')
            g.check(same(values, hit[1].values), 'its values')


@harness(functions=[R + 'MapAdapter.match', R + 'MapAdapter.__init__'])
def h_asked(g):
    """A route is asked about the subdomain (or host) and the path with one leading slash."""
    guard()
    r = Asked(1, 'e', {})
    router = FakeRouter([r])
    router.host_matching = g.bool('host_matching')
    sub = g.str('subdomain', hints=['', 'www'])
    host = g.str('host', hints=['example.org'], nonempty=True)
    a = MapAdapter(router, host, '/', sub, 'http', None)
    path = g.str('path', hints=['/', 'a', '/a/b', '//x'])
    a.match(path)
    g.check(same(r.path, (host if router.host_matching else sub) + '|/' + path.lstrip('/')), 'asked')


@harness(functions=[R + 'MapAdapter.test', R + 'MapAdapter.match'])
def h_test(g):
    """test() tells whether match() would find something."""
    guard()
    rs = g.list('routes', fake, max=3)
    a = MapAdapter(FakeRouter(rs), 'example.org', '/', '', 'http', None)
    g.check(same(a.test('/x'), exists(rs, lambda r: r.kind != 0)), 'test')


@harness(functions=[R + 'NumberConverter.__init__', R + 'NumberConverter.to_python'])
def h_number(g):
    """A number is accepted exactly when it has the fixed number of digits and lies in the range."""
    text = g.str('text', only='0123456789', nonempty=True, hints=['0', '7', '007', '42'])
    digits = g.int('digits', 0, hints=[0, 1, 2, 3])
    lo = g.opt('min?', lambda g: g.int('min', hints=[0, 5, 42]))
    hi = g.opt('max?', lambda g: g.int('max', hints=[0, 5, 42]))
    c = IntegerConverter(None, digits, lo, hi)
    o = outcome(lambda: c.to_python(text))
    n = int(text)
    if (digits == 0 or len(text) == digits) and (lo is None or n >= lo) and (hi is None or n <= hi):
        g.check(same(o, ('ok', n)), 'accepted')
    else:
        g.check(same(o, ('exc', ValidationError)), 'refused')


def joined(a, b):
    """posixpath.join of plain words."""
    return b if a == '' else a + b if a[-1:] == '/' else a + '/' + b


def written(parts):
    """urlunparse of plain parts."""
    scheme, netloc, path, _, query, _ = parts
    if path[:1] != '/' and path != '':
        path = '/' + path
    return (scheme + ':' if scheme else '') + '//' + netloc + path + ('?' + query if query else '')


def encoded(query, doseq=False, safe='', encoding=None, errors=None, quote_via=None):
    """urlencode of plain words."""
    items = query.items() if isinstance(query, dict) else query
    return '&'.join([k + '=' + (v if isinstance(v, str) else str(v)) for k, v in items])


def below(base, url, allow_fragments=True):
    """urljoin of a directory and what is below it."""
    return base + (url[2:] if url[:2] == './' else url)


def parsed(scheme, netloc, path, params, query, fragment):
    return scheme, netloc, path, params, query, fragment


WORD = 'abcdefghijklmnopqrstuvwxyz0123456789_-'
PLAIN = [Contract('urllib.parse:quote', lambda s, safe='/', encoding=None, errors=None: s),
         Contract('urllib.parse:urlencode', encoded), Contract('urllib.parse:urlunparse', written),
         Contract('posixpath:join', joined), Contract('urllib.parse:urljoin', below),
         Contract('urllib.parse:ParseResult', parsed)]


@harness(functions=[R + 'MapAdapter.make_redirect_url', R + 'MapAdapter.encode_query_args', R + 'MapAdapter.match',
                    R + 'MapAdapter.make_alias_redirect_url', R + 'MapAdapter.get_default_redirect',
                    R + 'Route.provides_defaults_for', R + 'MapAdapter.get_host', R + 'Route.build'], uses=PLAIN)
def h_redirect(g):
    """A redirect leads to the canonical URL on the same host below the script name, with the query."""
    server = g.str('server', only=WORD, nonempty=True)
    sub = g.choice('sub', ['', 'www'])
    script, scheme = g.choice('bound', [('/', 'http'), ('/app', 'https'), ('/app/sub/', 'http')])
    q = g.str('q', only=WORD + '=', nonempty=True)
    query, tail = g.choice('query', [(None, ''), ('', ''), (q, '?' + q), ({'a': q}, '?a=' + q)])
    redirects = g.bool('redirects')
    m = URLMap([Route('/b/', endpoint='b', subdomain='www'), Route('/b/', endpoint='b'), Route('/b/<int:n>/', endpoint='c'),
                Route('/all/', endpoint='all', defaults={'n': 1}), Route('/all/page/<int:n>', endpoint='all'),
                Route('/w/<word>', endpoint='w', subdomain='www'), Route('/old/<word>', endpoint='w', alias=True),
                Route('/gone/<word>', redirect_to='w/<word>'),
                Route('/call/<word>', redirect_to=lambda adapter, word: 'w/' + word)], redirect_defaults=redirects)
    a = MapAdapter(m, server, script, sub, scheme, None)
    below = {'/': '', '/app': '/app', '/app/sub/': '/app/sub'}[script]
    here = scheme + '://' + ('www.' if sub == 'www' else '') + server + below
    there = scheme + '://www.' + server + below
    bare = scheme + '://' + server + below
    path = g.choice('path', ['/b', 'b', '/b/', '/b/7', '/all/page/1', '/all/page/2', '/all', '/old/x', '/gone/x',
                             '/call/x', '/none'])
    to = None
    got = None
    try:
        got = a.match(path, query_args=query)
    except RequestRedirect as e:
        to = e.new_url
    except NotFound:
        pass
    want, found = None, None
    if path == '/b' or path == 'b':
        want = here + '/b/' + tail
    elif path == '/b/':
        found = ('b', {})
    elif sub != '':
        pass
    elif path == '/b/7':
        want = bare + '/b/7/' + tail
    elif path == '/all':
        want = bare + '/all/' + tail
    elif path == '/all/page/1' and redirects:
        want = bare + '/all/' + tail
    elif path == '/all/page/1':
        found = ('all', {'n': 1})
    elif path == '/all/page/2':
        found = ('all', {'n': 2})
    elif path == '/old/x' and redirects:
        want = there + '/w/x' + tail
    elif path == '/old/x':
        found = ('w', {'word': 'x'})
    elif path == '/gone/x' or path == '/call/x':
        want = bare + '/w/x'
    g.check(same(to, want), 'redirect')
    g.check(same(got, found), 'match')


@harness(functions=[R + 'URLMap.bind_to_environ', R + 'URLMap.bind', R + 'MapAdapter.__init__'],
         uses=[Contract('verktyg.wsgi:wsgi_decoding_dance', lambda s, charset='utf-8', errors='replace': s)])
def h_environ(g):
    """Binding to an environ uses its host, its path, its script name and its query."""
    scheme, port = g.choice('at', [('http', '80'), ('https', '443'), ('https', '80'), ('http', '8080')])
    name = g.choice('name', ['a.test', 'A.B.a.Test', 'b.test', 'xa.test', 'test'])
    script = g.str('script', only=WORD)
    path = g.str('path', only=WORD)
    query = g.str('query', only=WORD)
    env = {'SERVER_NAME': name, 'SERVER_PORT': port, 'wsgi.url_scheme': scheme, 'SCRIPT_NAME': '/' + script,
           'PATH_INFO': '/' + path}
    if g.bool('query?'):
        env['QUERY_STRING'] = query
    asked = name + ('' if (scheme, port) in [('http', '80'), ('https', '443')] else ':' + port)
    if g.bool('host?'):
        asked = name + g.choice('host port', ['', ':8080'])
        env['HTTP_HOST'] = asked
    server = g.choice('server', [None, 'a.test', 'A.test:8080'])
    given = g.choice('given', [None, 'www'])
    m = URLMap([])
    a = m.bind_to_environ(env, server_name=server, subdomain=given)
    g.check(a.server_name == (asked if server is None else server).lower(), 'server name')
    if server is None or given is not None:
        sub = '' if given is None else given
    else:
        parts = asked.lower().split('.')
        mine = server.lower().split('.')
        if parts[-len(mine):] == mine:
            sub = '.'.join(parts[:-len(mine)])
        else:
            sub = '<invalid>'
    g.check(a.subdomain == sub, 'subdomain')
    g.check(a.url_scheme == scheme, 'scheme')
    g.check(same(a.path_info, '/' + path), 'path')
    g.check(same(a.query_args, query if 'QUERY_STRING' in env else None), 'query')
    g.check(same(a.script_name, '/' if script == '' else '/' + script + '/'), 'script')


# -- an independent matcher ---------------------------------------------------

import re as _re
import uuid as _uuid


class Lit(object):
    def __init__(self, text):
        self.text = text
        self.rule = text


class Var(object):
    """One variable: its rule, which texts it takes and what it makes of them."""
    def __init__(self, name, spec):
        self.name = name
        self.kind, self.args = spec
        conv = {'default': '', 'string': 'string', 'int': 'int', 'float': 'float', 'path': 'path',
                'any': 'any', 'uuid': 'uuid'}[self.kind]
        if self.kind == 'any':
            a = '(%s)' % ', '.join(self.args)
        elif self.args:
            a = '(%s)' % ', '.join('%s=%s' % kv for kv in sorted(self.args.items()))
        else:
            a = ''
        self.rule = '<%s>' % (conv + a + ':' + name if conv else name)

    weight = property(lambda self: {'int': 50, 'float': 50, 'path': 200}.get(self.kind, 100))

    def fits(self, t):
        """The shape of the text is right."""
        k, a = self.kind, self.args
        if k == 'default':
            return len(t) >= 1 and '/' not in t
        if k == 'string':
            n = a.get('length')
            if n is not None:
                return len(t) == n and '/' not in t
            return '/' not in t and a.get('minlength', 1) <= len(t) <= a.get('maxlength', 10 ** 6)
        if k == 'int':
            return len(t) >= 1 and all(c in '0123456789' for c in t)
        if k == 'float':
            p = t.split('.')
            return len(p) == 2 and all(x and all(c in '0123456789' for c in x) for x in p)
        if k == 'path':
            return len(t) >= 1 and t[0] != '/'
        if k == 'any':
            return t in a
        p = t.split('-')
        return [len(x) for x in p] == [8, 4, 4, 4, 12] and \
            all(c in '0123456789abcdefABCDEF' for x in p for c in x)

    def value(self, t):
        """What the text stands for; ValueError if the converter refuses it."""
        if self.kind == 'int':
            a = self.args
            if a.get('fixed_digits') and len(t) != a['fixed_digits']:
                raise ValueError
        if self.kind in ('int', 'float'):
            n = int(t) if self.kind == 'int' else float(t)
            if n < self.args.get('min', 0) or n > self.args.get('max', 10 ** 9):
                raise ValueError
            return n
        if self.kind == 'uuid':
            return _uuid.UUID(t)
        return t


VARS = [('default', {}), ('default', {}), ('string', {'length': 2}), ('string', {'minlength': 2, 'maxlength': 3}),
        ('string', {'maxlength': 4}), ('int', {}), ('int', {'min': 5, 'max': 20}), ('int', {'fixed_digits': 3}),
        ('float', {}), ('float', {'max': 9}), ('path', {}), ('any', ('a', 'bc', 'x1')), ('uuid', {})]
UUID = '12345678-1234-5678-1234-56781234567a'
WORDS = ['a', 'b', 'bc', 'abc', '12', '7', '007', '1.5', '10.25', 'x.y', 'a-b', '\xe9', 'x y', 'a+b', UUID, 'x1', '|']


def ways(parts, text, pos=0):
    """All ways of laying the parts over the whole text."""
    if not parts:
        return [{}] if pos == len(text) else []
    p = parts[0]
    if isinstance(p, Lit):
        return ways(parts[1:], text, pos + len(p.text)) if text.startswith(p.text, pos) else []
    out = []
    for end in range(pos, len(text) + 1):
        if p.fits(text[pos:end]):
            for w in ways(parts[1:], text, end):
                w = dict(w)
                w[p.name] = (p, text[pos:end])
                out.append(w)
    return out


def rank(parts, defaults=()):
    ws = []
    for p in parts:
        if isinstance(p, Lit):
            ws += [(0, -len(s)) for s in p.text.split('/') if s]
        else:
            ws.append((1, p.weight))
    return (any(isinstance(p, Var) for p in parts) or bool(defaults), -len(ws), ws)


def pattern(g, names):
    """Parts of a route: segments, some of them variables or a mix of both."""
    segs = []
    for _ in range(g.int('segments', 0, 3)):
        kind = g.choice('seg', ['lit', 'lit', 'var', 'var', 'mix'])
        if kind == 'lit':
            seg = [Lit(g.choice('w', WORDS[:14]))]
        else:
            v = Var(names.pop(), g.choice('v', VARS))
            seg = [v]
            if kind == 'mix' and v.kind != 'path':
                seg = [Lit(g.choice('pre', ['p', 'v.', '-']))] + seg
                if g.bool('tail'):
                    seg.append(Lit('.x'))
        segs.append(seg)
    parts = [Lit('/')]
    for i, seg in enumerate(segs):
        if i:
            parts.append(Lit('/'))
        parts += seg
    merged = []
    for p in parts:
        if merged and isinstance(p, Lit) and isinstance(merged[-1], Lit):
            merged[-1] = Lit(merged[-1].text + p.text)
        else:
            merged.append(p)
    return merged


class Spec(object):
    """What the route is said to be."""
    def __init__(self, g, i, names):
        self.parts = pattern(g, names)
        self.branch = g.bool('branch') or len(self.parts) == 1 and self.parts[0].text == '/'
        self.strict = g.choice('strict', [None, None, True, False])
        self.build_only = g.int('build only', 0, 6) == 0
        self.sub = g.choice('sub', ['', '', '', 'www'])
        self.defaults = {'d%d' % i: i} if g.int('defaults', 0, 4) == 0 else None
        self.endpoint = 'e%d' % i
        rule = ''.join(p.rule for p in self.parts)
        if rule != '/' and self.branch:
            rule += '/'
        self.rule = rule
        self.rank = rank(([Lit(self.sub)] if self.sub else []) + self.parts, self.defaults or ())

    def route(self):
        return Route(self.rule, endpoint=self.endpoint, strict_slashes=self.strict, build_only=self.build_only,
                     subdomain=self.sub or None, defaults=self.defaults)

    def body(self):
        """The parts without the slash at the end of a branch."""
        ps = list(self.parts)
        if len(ps) == 1 and ps[0].text == '/':
            return [Lit('')]
        return ps

    def judge(self, sub, path, strict):
        """('no',), ('slash',), ('ok', [possible values]) or ('maybe', ...)"""
        if self.build_only or sub != self.sub:
            return ('no',)
        strict = strict if self.strict is None else self.strict
        whole = ways(self.body(), path)
        # a last slash that is not part of the pattern
        cut = ways(self.body(), path[:-1]) if path.endswith('/') and not path[:-1].endswith('/') else []
        if not self.branch and strict:
            found, slash = whole, False
        elif self.branch and strict:
            found = cut
            slash = [w for w in whole if not path.endswith('/')]
            if not cut and slash:
                return ('slash',)
            if not cut and whole:
                return ('maybe', [])
        else:
            found = cut + [w for w in whole if not path.endswith('/')]
            if not found and whole:
                return ('maybe', [])
        if not found:
            return ('no',)
        good, bad = [], False
        for w in found:
            try:
                vals = {n: p.value(t) for n, (p, t) in w.items()}
                vals.update(self.defaults or {})
                good.append(vals)
            except ValueError:
                bad = True
        if bad:
            return ('maybe', good) if good else ('no',)
        return ('ok', good)


def sample(g, spec):
    """A path the pattern may take."""
    out = ''
    for p in spec.parts:
        if isinstance(p, Lit):
            out += p.text
        elif p.kind == 'path':
            out += g.choice('pv', ['a', 'a/b', 'x/12/y', 'a/'])
        elif p.kind == 'any':
            out += g.choice('av', ['a', 'bc', 'x1', 'b'])
        elif p.kind == 'uuid':
            out += g.choice('uv', [UUID, UUID.upper(), UUID[:-1]])
        elif p.kind in ('int', 'float'):
            out += g.choice('nv', ['7', '12', '007', '1.5', '10.25', '19', '5', '20', '21', '123'])
        else:
            out += g.choice('sv', WORDS)
    return out


@scenario(functions=[R + 'Route.compile', R + 'Route.match', R + 'Route.match_compare_key', R + 'URLMap.add_routes',
                     R + 'URLMap.update', R + 'URLMap.bind', R + 'MapAdapter.match', R + 'parse_route',
                     R + 'parse_converter_args', R + 'UnicodeConverter', R + 'AnyConverter', R + 'PathConverter',
                     R + 'IntegerConverter', R + 'FloatConverter', R + 'UUIDConverter',
                     R + 'MapAdapter.make_redirect_url'],
          n=9000, note='random route tables and paths against an independent matcher')
def s_table(g):
    """The route of highest priority that fits decides, with its converted values."""
    names = ['n%d' % i for i in range(30)]
    specs = [Spec(g, i, names) for i in range(g.int('routes', 1, 4))]
    strict = g.choice('map strict', [True, True, False])
    m = URLMap(strict_slashes=strict)
    if g.bool('late'):
        m.add_routes(specs[0].route())
        outcome(lambda: m.bind('example.org').match('/a'))
        m.add_routes(*[s.route() for s in specs[1:]])
    else:
        m.add_routes(*[s.route() for s in specs])
    order = sorted(specs, key=lambda s: s.rank)
    for _ in range(3):
        near = g.choice('near', specs)
        path = sample(g, near)
        path += g.choice('end', ['', '', '', '/', '/', 'x', '/b', '\n'])
        if g.int('cut', 0, 5) == 0:
            path = path[1:]
        full = '/' + path.lstrip('/')
        if any(p.kind == 'path' for s in specs for p in s.parts if isinstance(p, Var)) and '\n' in path:
            continue
        sub = g.choice('at', [near.sub, near.sub, '', 'www', 'other'])
        a = m.bind('example.org', script_name=g.choice('script', ['/', '/app', '/app/', None]), subdomain=sub)
        query = g.choice('query', [None, '', 'a=1&b=2'])
        try:
            got = ('ok', a.match(path, query_args=query))
        except RequestRedirect as e:
            got = ('slash', e.new_url)
        except NotFound:
            got = ('no',)
        for s in order:
            j = s.judge(sub, full, strict)
            if j[0] == 'maybe':
                if got[0] == 'ok' and got[1][0] == s.endpoint or got[0] == 'slash':
                    break
                continue
            if j[0] == 'no':
                continue
            if j[0] == 'slash':
                g.check(got[0] == 'slash', 'redirect to the slash')
                from urllib.parse import urlparse, unquote
                u = urlparse(got[1])
                g.check(u.scheme == 'http' and u.netloc == (sub + '.' if sub else '') + 'example.org', 'same host')
                base = a.script_name.rstrip('/')
                g.check(unquote(u.path) == base + full + '/', 'path with slash')
                g.check(u.query == (query or ''), 'query kept')
                g.check(outcome(lambda: a.match(unquote(u.path)[len(base):]))[0] == 'ok' or
                        any(isinstance(p, Var) for t in specs for p in t.parts), 'redirect leads somewhere')
            else:
                g.check(got[0] == 'ok', 'matches')
                g.check(got[1][0] == s.endpoint, 'the right route')
                g.check(any(same(sorted(got[1][1].items()), sorted(v.items())) for v in j[1]), 'its values')
                if g.bool('changed'):
                    got[1][1].clear()
                    got[1][1]['more'] = 1
            break
        else:
            g.check(got == ('no',), 'nothing matches')
        g.check(a.test(path) == (got[0] != 'no'), 'test agrees')


def answer(a, path):
    try:
        endpoint, values = a.match(path)
        answered = endpoint, dict(values)
        values.clear()
        return answered
    except RequestRedirect as e:
        return e.new_url
    except NotFound:
        return None


@scenario(functions=[R + 'URLMap.add_routes', R + 'URLMap.update', R + 'URLMap.iter_routes', R + 'MapAdapter.match',
                     R + 'MapAdapter.build'], n=800, note='routes added over time')
def s_added(g):
    """It does not matter when a route is added, nor what was asked before."""
    texts = [('/all', None), ('/<name>', None), ('/<int:n>', None), ('/<path:rest>', None), ('/a/<name>', None),
             ('/one', {'n': 1}), ('/1', {'n': 1}), ('/b/', None), ('/<name>/', None)]
    chosen = [g.choice('route', texts) for _ in range(g.int('routes', 1, 5))]
    ends = [g.choice('endpoint', ['e', 'e', 'f']) for _ in chosen]
    redirect = g.bool('redirect')

    def made():
        return [Route(t, defaults=d and dict(d), endpoint=e) for (t, d), e in zip(chosen, ends)]
    whole = URLMap(made(), redirect_defaults=redirect)
    grown = URLMap(redirect_defaults=redirect)
    paths = ['/all', '/x', '/1', '/one', '/a/x', '/b', '/b/', '/2/', '/a/x/y']
    for r in made():
        grown.add_routes(r)
        what = g.choice('between', ['nothing', 'match', 'build', 'list', 'test'])
        a = grown.bind('example.org')
        if what == 'match':
            answer(a, g.choice('before', paths))
        elif what == 'build':
            outcome(lambda: a.build(g.choice('built', ['e', 'f']), {'n': 1}))
        elif what == 'list':
            list(grown.iter_routes())
            outcome(lambda: list(grown.iter_routes('e')))
        elif what == 'test':
            a.test(g.choice('tested', paths))
    a, b = whole.bind('example.org'), grown.bind('example.org')
    for p in paths:
        g.check(answer(a, p) == answer(b, p), 'same answer')
        g.check(a.test(p) == b.test(p), 'same test')
    for e in ['e', 'f']:
        for values in ({}, {'n': 1}, {'n': 2}, {'name': 'x'}, {'rest': 'y/z', 'q': '1'}):
            g.check(outcome(lambda: a.build(e, values)) == outcome(lambda: b.build(e, values)), 'same link')
    g.check([r.route for r in whole.iter_routes()] == [r.route for r in grown.iter_routes()], 'same order')


@scenario(functions=[R + 'MapAdapter.get_default_redirect', R + 'Route.provides_defaults_for',
                     R + 'MapAdapter.make_alias_redirect_url', R + 'MapAdapter.encode_query_args',
                     R + 'MapAdapter.match', R + 'MapAdapter.get_host'], n=2500,
          note='redirects to the canonical URL')
def s_redirects(g):
    """Defaults, aliases and redirect_to lead to the canonical URL with the query kept."""
    page = g.int('page', 0, 6)
    default = g.int('default', 0, 3)
    word = g.choice('word', ['x', 'a b', '\xe9', 'a%b', 'q?r'])
    rd = g.bool('redirect_defaults')
    host = g.bool('host')
    kw = {'host': 'h.example.org'} if host else {}
    routes = [Route('/all/', defaults={'page': default}, endpoint='all', **kw),
              Route('/all/page/<int:page>', endpoint='all', **kw),
              Route('/w/<word>', endpoint='w', **kw),
              Route('/old/<word>', endpoint='w', alias=True, **kw),
              Route('/gone/<word>', redirect_to='w/<word>', **kw),
              Route('/call/<word>', redirect_to=lambda adapter, word: 'w/' + str(len(word)), **kw)]
    if g.bool('other order'):
        routes = routes[::-1]
    m = URLMap(routes, redirect_defaults=rd, host_matching=host)
    script = g.choice('script', ['/', '/app', '/app/sub/'])
    server = 'h.example.org' if host else 'example.org'
    a = m.bind(server, script_name=script, url_scheme=g.choice('scheme', ['http', 'https']))
    base = a.url_scheme + '://' + server + script.rstrip('/')
    query = g.choice('query', [None, 'a=1', {'a': '1'}, ''])
    tail = '?a=1' if query else ''
    from urllib.parse import quote, unquote, urlparse

    def reads(url):
        u = urlparse(url)
        return u.scheme + '://' + u.netloc + unquote(u.path), u.query

    def go(path):
        try:
            return ('ok', a.match(path, query_args=query))
        except RequestRedirect as e:
            return ('redirect', e.new_url)
        except NotFound:
            return ('no',)
    r = go('/all/page/%d' % page)
    if rd and page == default:
        g.check(r == ('redirect', base + '/all/' + tail), 'default redirect')
    else:
        g.check(r == ('ok', ('all', {'page': page})), 'no redirect')
    g.check(go('/all/') == ('ok', ('all', {'page': default})), 'the default itself')
    g.check(go('/all') == ('redirect', base + '/all/' + tail), 'slash')
    r = go('/old/' + word)
    if rd:
        g.check(r[0] == 'redirect' and reads(r[1]) == (base + '/w/' + word, tail[1:]), 'alias')
        g.check(r[1].isascii() and ' ' not in r[1], 'alias quoted')
    else:
        g.check(r == ('ok', ('w', {'word': word})), 'alias is a route')
    g.check(go('/w/' + word) == ('ok', ('w', {'word': word})), 'canonical')
    if not host:
        g.check(go('/call/' + word) == ('redirect', base + '/w/%d' % len(word)), 'redirect_to function')
        r = go('/gone/' + word)
        g.check(r[0] == 'redirect' and r[1].isascii() and reads(r[1]) == (base + '/w/' + word, ''),
                'redirect_to pattern')
    else:
        g.check(go('/gone/' + word)[0] == go('/call/' + word)[0] == 'redirect', 'redirect_to')
    charset = g.choice('charset', ['utf-8', 'latin1'])
    c = URLMap([Route('/x/', endpoint='x')], charset=charset).bind('example.org')
    try:
        c.match('/x', query_args={'k': ['\xe9', 'b'], 'l': 'c'})
        g.check(False, 'slash redirect')
    except RequestRedirect as e:
        g.check(e.new_url == 'http://example.org/x/?k=' + quote('\xe9', encoding=charset) + '&k=b&l=c', 'query encoded')
    b = m.bind('other.example.org' if host else 'example.org', subdomain=None if host else 'www')
    g.check(outcome(lambda: b.match('/all/')) == ('exc', NotFound), 'other host')
    sub = g.choice('sub', ['www', 'de', 'xn--9ca'])
    asked = g.choice('asked', [sub, sub.upper()] + (['\xe9'] if sub == 'xn--9ca' else []))
    d = URLMap([Route('/w/<word>', endpoint='w', subdomain=sub), Route('/v/', endpoint='v', subdomain=sub),
                Route('/gone/<word>', redirect_to='w/<word>', subdomain=sub)]).bind(
        'Example.org', script_name=script, subdomain=asked, url_scheme=a.url_scheme)
    below = a.url_scheme + '://' + sub + '.example.org' + script.rstrip('/')
    g.check(outcome(lambda: d.match('/w/x')) == ('ok', ('w', {'word': 'x'})), 'case of the subdomain')
    for path, want in (('/gone/x', '/w/x'), ('/v', '/v/')):
        try:
            d.match(path)
            g.check(False, 'redirect of a subdomain')
        except RequestRedirect as e:
            g.check(e.new_url == below + want, 'redirect of a subdomain')


@scenario(functions=[R + 'MapAdapter.get_default_redirect', R + 'Route.provides_defaults_for',
                     R + 'Route.suitable_for', R + 'MapAdapter.make_alias_redirect_url',
                     R + 'MapAdapter.make_redirect_url', R + 'MapAdapter.match'], n=4000,
          note='redirects end at the canonical URL, whatever the subdomains')
def s_canonical(g):
    """Redirects for defaults and aliases end, without a loop, at the same endpoint and values."""
    from urllib.parse import urlparse, unquote
    specs = []
    for i in range(g.int('routes', 2, 5)):
        end = g.choice('endpoint', ['e', 'e', 'f'])
        args = ['x', 'y'] if end == 'e' else ['x']
        kind = g.choice('kind', ['plain', 'defaults', 'defaults', 'alias']) if any(
            s[1] == end for s in specs) else 'plain'
        dflt = {n: g.int('dv', 0, 1) for n in args if g.bool('default')} if kind == 'defaults' else {}
        specs.append((i, end, [n for n in args if n not in dflt], dflt, kind == 'alias',
                      g.choice('sub', ['', 'a', 'b']), kind == 'defaults' and g.int('bo', 0, 4) == 0,
                      g.bool('slash')))

    def table(rd):
        rs = [Route('/r%d' % i + ''.join('/<int:%s>' % n for n in args) + ('/' if slash else ''), endpoint=end,
                    defaults=dflt or None, alias=alias, subdomain=sub or None, build_only=bo)
              for i, end, args, dflt, alias, sub, bo, slash in specs]
        return URLMap(rs, redirect_defaults=rd)
    i, end, args, dflt, alias, sub, bo, slash = g.choice('asked', specs)
    values = dict({n: g.int('v', 0, 1) for n in args}, **dflt)
    path = '/r%d' % i + ''.join('/%d' % values[n] for n in args) + ('/' if slash else '')
    script = g.choice('script', ['/', '/app/'])
    query = g.choice('query', [None, 'q=1', {'q': '1'}])
    tail = 'q=1' if query else ''

    def go(rd, sub, path, **kw):
        a = table(rd).bind('example.org', script_name=script, subdomain=sub)
        try:
            return ('ok',) + a.match(path, **kw)
        except RequestRedirect as e:
            return ('redirect', e.new_url)
        except NotFound:
            return ('no',)
    r = go(False, sub, path, query_args=query)
    g.check(r == (('no',) if bo else ('ok', end, values)), 'without redirects')
    if bo:
        g.check(go(True, sub, path) == ('no',), 'build only')
        return
    order = sorted([s for s in specs if s[1] == end], key=lambda s: (s[4], -len(s[3])))
    first = [s for s in order if all(values[n] == d for n, d in s[3].items()) and not s[4]][0]
    g.assume(not (alias and first[6]))
    n = 0
    at, where = sub, path
    r = go(True, at, where, query_args=query)
    g.check(alias or (r[0] == 'redirect') == any(
        not s[6] and s[3] and all(values[n] == d for n, d in s[3].items())
        for s in order[:[s[0] for s in order].index(i)]), 'redirect when there is a better route')
    while r[0] == 'redirect' and n < 6:
        n += 1
        u = urlparse(r[1])
        g.check(u.scheme == 'http' and u.query == tail, 'query kept')
        g.check(u.netloc.endswith('example.org'), 'host')
        at = u.netloc[:-len('example.org')].rstrip('.')
        base = script.rstrip('/')
        g.check(u.path.startswith(base + '/'), 'below the script name')
        r = go(True, at, unquote(u.path[len(base):]), query_args=query)
    g.check(r == ('ok', end, values), 'same endpoint and values')
    if first[3] and not first[6]:
        g.check(at == first[5], 'canonical subdomain')


@scenario(functions=[R + 'URLMap.bind_to_environ', R + 'URLMap.bind'], n=2500,
          note='where a request is looked up')
def s_environ(g):
    """Binding to an environ uses its host, subdomain, script name, path and query."""
    server = g.choice('server', ['example.org', 'example.org:8080', 'localhost', 'a.example.org'])
    prefix = g.choice('prefix', ['', '', 'www.', 'a.b.', 'WWW.', 'not'])
    host = prefix + server
    path = g.choice('path', ['/', '/x', '/\xe9', '/x/'])
    script = g.choice('script', ['', '/app'])
    use_host = g.bool('host header')
    charset = g.choice('charset', ['utf-8', 'utf-8', 'latin1'])
    name, _, port = host.partition(':')
    env = {'SERVER_NAME': name, 'SERVER_PORT': port or '80', 'wsgi.url_scheme': 'http',
           'SCRIPT_NAME': script, 'PATH_INFO': path.encode(charset).decode('latin1'), 'QUERY_STRING': 'q=1'}
    if use_host:
        env['HTTP_HOST'] = host
    m = URLMap([Route(r, endpoint=r, subdomain=s) for r in ['/x', '/\xe9', '/x/y/']
                for s in ['www', 'a.b', '']], charset=charset)
    named = g.bool('named')
    try:
        a = m.bind_to_environ(env, server_name=server if named else None)
    except UnicodeError:
        g.assume(False)
    if not named:
        g.check(a.server_name == host.lower(), 'server name')
        sub = ''
    else:
        g.check(a.server_name == server, 'server name given')
        sub = '<invalid>' if prefix == 'not' else prefix.lower().rstrip('.')
    g.check(a.subdomain == sub, 'subdomain')
    g.check(a.path_info == path and a.query_args == 'q=1', 'path and query')
    try:
        got = ('ok', a.match())
    except NotFound:
        got = ('no',)
    except RequestRedirect as e:
        got = ('redirect', e.new_url)
    if path in ('/x', '/\xe9') and sub in ('', 'www', 'a.b'):
        g.check(got == ('ok', (path, {})), 'match')
    else:
        g.check(got == ('no',), 'no match')


class Remembers(BaseConverter):
    """Keeps what it is made with."""
    made = []

    def __init__(self, url_map, *args, **kw):
        BaseConverter.__init__(self, url_map)
        self.made.append((args, kw))


TEXTS = ['a', 'ab', 'abc', 'a.b', 'axb', 'x|y', 'x', 'y', '(a)', 'a+', 'aa', 'a*', '', '\xe9', 'a b', '0', '1', '12', '012',
         '1.5', '1.25', '0.5', '2.0', '2.75', '10.0', '1.', '.5', '-1', '-1.5', '1e3', '1_0', 'a/b', 'a/', '/a', '[a]', '^', 'b$']
ITEMS = ['a', 'ab', 'a.b', 'x|y', '(a)', 'a+', 'a*', '[a]', 'a b', '^', 'b$', '12', '1.5', '\xe9']


@scenario(functions=[R + 'UnicodeConverter.__init__', R + 'AnyConverter.__init__', R + 'NumberConverter.__init__',
                     R + 'FloatConverter.__init__', R + 'NumberConverter.to_python', R + 'PathConverter'], n=4000,
          note='one converter and one path')
def s_converters(g):
    """A converter takes exactly the texts that it is meant for, with the bounds it was given."""
    kind = g.choice('kind', ['string', 'any', 'int', 'float', 'path'])
    text = g.choice('text', TEXTS)
    args = {}
    items = ()
    want = None
    if kind == 'string':
        for k in g.choice('given', [(), ('length',), ('minlength',), ('maxlength',), ('minlength', 'maxlength')]):
            args[k] = g.int(k, 1, 4)
        g.assume(args.get('minlength', 1) <= args.get('maxlength', 9))
        if 'length' in args:
            fits = len(text) == args['length']
        else:
            fits = args.get('minlength', 1) <= len(text) <= args.get('maxlength', 99)
        if fits and text and '/' not in text:
            want = text
    elif kind == 'any':
        items = tuple(g.choice('item', ITEMS) for _ in range(g.int('items', 1, 4)))
        if text in items:
            want = text
    elif kind == 'path':
        if text and text[0] != '/':
            want = text
    else:
        number = int if kind == 'int' else float
        for k in g.choice('given', [(), ('min',), ('max',), ('min', 'max')]):
            args[k] = g.choice(k, [0, 1, 2, 12] if kind == 'int' else [0.0, 1.0, 1.5, 2.5, 10.0])
        if kind == 'int' and g.int('fixed', 0, 3) == 0:
            args['fixed_digits'] = g.int('digits', 1, 3)
        shape = _re.fullmatch('[0-9]+' if kind == 'int' else '[0-9]+[.][0-9]+', text)
        if shape and len(text) == args.get('fixed_digits', len(text)):
            n = number(text)
            if args.get('min', n) <= n <= args.get('max', n):
                want = n
    inside = ', '.join(['"%s"' % i for i in items] + ['%s=%s' % kv for kv in args.items()])
    before, after = g.choice('around', [('/', ''), ('/x-', ''), ('/', '.txt'), ('/d/', '')])
    m = URLMap([Route(before + '<%s%s:v>' % (kind, '(%s)' % inside if inside else '') + after, endpoint='e')])
    full = before + text + after
    g.assume('//' not in full and not (text.endswith('/') and not after))
    o = outcome(lambda: m.bind('example.org').match(full))
    if want is None:
        g.check(o == ('exc', NotFound), 'refused')
    else:
        g.check(o == ('ok', ('e', {'v': want})) and type(o[1][1]['v']) is type(want), 'taken')


@scenario(functions=[R + 'parse_route', R + 'parse_converter_args', R + '_pythonize', R + 'Route.get_converter'],
          n=2500, note='patterns')
def s_arguments(g):
    """Converters are made with the arguments written in the pattern; malformed patterns are refused."""
    args, kw, written = [], {}, []
    for i in range(g.int('count', 0, 4)):
        kind = g.choice('kind', ['int', 'float', 'double', 'single', 'word', 'const', 'name'])
        if kind == 'int':
            v = g.choice('int', [0, 7, 42, 100])
            t = str(v)
        elif kind == 'float':
            v = g.choice('float', [0.5, 1.25, 10.0])
            t = str(v)
        elif kind in ('double', 'single'):
            v = g.choice('text', ['a', 'a b', 'x,y', 'a=b', 'x1', '-'])
            t = '"%s"' % v if kind == 'double' else "'%s'" % v
        elif kind == 'const':
            v = g.choice('const', [True, False, None])
            t = str(v)
        else:
            v = t = g.choice('word', ['abc', 'x_1', 'Trueish', 'nix'])
        if kind == 'name' or g.bool('named'):
            kw['k%d' % i] = v
            t = 'k%d%s%s' % (i, g.choice('equals', ['=', ' = ']), t)
        else:
            args.append(v)
        written.append(t)
    bad = g.choice('malformed', [None, None, None, '<', '>', 'a>b', 'a<b', '<>', '<1x>', '<x:>', 'twice'])
    text = '/a/<keep(%s):v>' % g.choice('comma', [', ', ',']).join(written)
    if bad is not None:
        o = outcome(lambda: URLMap([Route('/b/<w>/' + ('<w>' if bad == 'twice' else bad), endpoint='e')],
                                   converters={'keep': Remembers}))
        g.check(o[0] == 'exc' and issubclass(o[1], ValueError), 'refused')
        return
    more = g.choice('more', ['', '/', '/x'])
    del Remembers.made[:]
    m = URLMap([Route(text + more, endpoint='e')], converters={'keep': Remembers})
    r = m.bind('a.test').match('/a/it' + more)
    g.check(r == ('e', {'v': 'it'}), 'matches')
    g.check(same(Remembers.made, [(tuple(args), kw)]), 'arguments')
