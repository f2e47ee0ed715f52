"""C08 — building URLs, and matching what was built."""
from pyvc.api import *
from verktyg.datastructures import MultiDict
from verktyg.routing import Route, URLMap, MapAdapter, BuildError, IntegerConverter
from verktyg.exceptions import NotFound
from props.c06 import Lit, Var, VARS, UUID, PLAIN, WORD, rank

META = {
    'level': 'proof',
    'files': ['verktyg/routing.py'],
    'assumptions': ['dot segments, empty segments and empty values are outside what a path can carry',
                    'quoting by urllib.parse is trusted'],
    'note': 'Which route is built, for which host and how numbers are written is proved; quoting and the '
            'round trip through the matcher are evaluated natively.',
}

R = 'verktyg.routing:'

GONE = [n for n in ('suitable_for', 'arguments', 'defaults') if not hasattr(Route('/'), n)] + \
    [n for n in ('get_host', 'build') if not hasattr(MapAdapter, n)] + \
    [n for n in ('_routes_by_endpoint', 'update', 'host_matching') if not hasattr(URLMap(), n)]


def guard():
    if GONE:
        raise Missing(GONE[0])


class FakeRouter(object):
    charset = 'utf-8'
    sort_key = None

    def __init__(self, host_matching, routes):
        self.host_matching = host_matching
        self._routes_by_endpoint = {'e': routes}

    def update(self):
        pass


class FakeRoute(object):
    """A route whose suitability and URL are already decided."""
    def __init__(self, suitable, result):
        self.suitable = suitable
        self.result = result

    def suitable_for(self, values):
        return self.suitable

    def build(self, values, append_unknown=True):
        return self.result


def fake(g):
    return FakeRoute(g.bool('suitable'),
                     g.opt('built?', lambda g: (g.str('domain', hints=['', 'www']), '/' + g.str('url', hints=['a']))))


@harness(functions=[R + 'MapAdapter.get_host'])
def h_host(g):
    """The host of a URL is that of the domain part, below the server name unless hosts are matched."""
    guard()
    sub = g.str('sub', hints=['', 'www'])
    server = g.str('server', hints=['example.org'])
    hosts = g.bool('hosts')
    a = MapAdapter(FakeRouter(hosts, []), server, '/', sub, 'http', None)
    part = g.opt('part?', lambda g: g.str('part', hints=['', 'api']))
    r = a.get_host(part)
    if hosts:
        g.check(same(r, server if part is None else part), 'host')
    else:
        p = sub if part is None else part
        g.check(same(r, server if p == '' else p + '.' + server), 'subdomain')


@harness(functions=[R + 'MapAdapter.build'])
def h_none(g):
    """A URL is built exactly when some route of the endpoint is suitable and can be built."""
    guard()
    rs = g.list('routes', fake, max=4)
    a = MapAdapter(FakeRouter(False, rs), 'example.org', '/', 'elsewhere!', 'http', None)
    some = exists(rs, lambda r: r.suitable and r.result is not None)
    name = g.choice('endpoint', ['e', 'unknown'])
    if name == 'e' and some:
        g.cover('built')
    else:
        o = outcome(lambda: a.build(name, {}))
        g.check(same(o, ('exc', BuildError)), 'refused')


@harness(functions=[R + 'Route.suitable_for'])
def h_suitable(g):
    """A route can be built from values that give every argument without a default and contradict none."""
    guard()
    args = g.list('arguments', lambda g: g.str('a', hints=['x', 'y']), max=3)
    defaults = g.dict('defaults', lambda g: g.str('d', hints=['x', 'z']), lambda g: g.int('dv', 0, 2), max=2)
    values = g.dict('values', lambda g: g.str('v', hints=['x', 'y', 'z']), lambda g: g.int('vv', 0, 2), max=3)
    r = Route('/')
    r.arguments = args
    r.defaults = defaults
    missing = exists(args, lambda k: k not in defaults and k not in values)
    clash = exists([k for k in defaults], lambda k: k in values and values[k] != defaults[k])
    g.check(same(r.suitable_for(values), not missing and not clash), 'suitable')


@harness(functions=[R + 'NumberConverter.to_url', R + 'NumberConverter.to_python'])
def h_number(g):
    """What is written for a number is read back as that number."""
    n = g.int('n', 0, hints=[0, 7, 42, 1000])
    c = IntegerConverter(None)
    g.check(same(c.to_python(c.to_url(n)), n), 'round trip')


@harness(functions=[R + 'Route.build', R + 'MapAdapter.build', R + 'Route.suitable_for', R + 'MapAdapter.get_host',
                    R + 'BaseConverter.to_url', R + 'NumberConverter.to_url', R + 'URLMap.iter_routes'], uses=PLAIN)
def h_written(g):
    """A built URL has the values where the pattern has their names, and the rest in the query."""
    rule, sub = g.choice('rule', [('/a/<x>', None), ('/a/<x>/<int:n>/', None), ('/<int:n>-<x>', 'api'), ('/a', '<x>'),
                                  ('/<any(de, en):l>/<x>', None), ('/a', None)])
    x = g.str('x', only=WORD, nonempty=True)
    n = g.int('n', 0)
    lang = g.choice('l', ['de', 'en'])
    q = g.str('q', only=WORD, nonempty=True)
    server = g.str('server', only=WORD, nonempty=True)
    script, here = g.choice('bound', [('/', ''), ('/app', 'api'), ('/app/sub/', '')])
    ext, unknown = g.choice('how', [(False, True), (True, True), (False, False)])
    m = URLMap([Route(rule, endpoint='e', subdomain=sub), Route('/other/<y>', endpoint='f')])
    a = MapAdapter(m, server, script, here, 'http', None)
    values = {}
    if '<x>' in rule or sub == '<x>':
        values['x'] = x
    if '<int:n>' in rule:
        values['n'] = n
    if 'any' in rule:
        values['l'] = lang
    path = {'/a/<x>': '/a/' + x, '/a/<x>/<int:n>/': '/a/' + x + '/' + str(n) + '/', '/<int:n>-<x>': '/' + str(n) + '-' + x,
            '/<any(de, en):l>/<x>': '/' + lang + '/' + x, '/a': '/a'}[rule]
    what = g.choice('what', ['exact', 'more', 'none', 'missing'])
    if what == 'more':
        values['q'] = q
        if unknown:
            path = path + '?q=' + q
    elif what == 'none':
        values['q'] = None
    elif what == 'missing':
        if len(values) > 0:
            del values[[k for k in values][0]]
            g.check(same(outcome(lambda: a.build('e', values, ext, unknown)), ('exc', BuildError)), 'refused')
        return
    domain = x if sub == '<x>' else '' if sub is None else sub
    before = dict(values)
    got = a.build('e', values, force_external=ext, append_unknown=unknown)
    g.check(same(values, before), 'values kept')
    base = {'/': '', '/app': '/app', '/app/sub/': '/app/sub'}[script]
    if not ext and domain == here:
        g.check(same(got, base + path), 'relative')
    else:
        g.check(same(got, 'http://' + (domain + '.' if domain != '' else '') + server + base + path), 'external')


@harness(functions=[R + 'Route.build', R + 'MapAdapter.build', R + 'Route.suitable_for', R + 'Route.build_compare_key',
                    R + 'URLMap.update', R + 'URLMap.is_endpoint_expecting'], uses=PLAIN)
def h_pick(g):
    """Of the routes of an endpoint the canonical one with the most arguments that are given is built."""
    x = g.str('x', only=WORD, nonempty=True)
    n = g.int('n', 0)
    routes = [Route('/all', endpoint='e', defaults={'n': 1}), Route('/all/<int:n>', endpoint='e'),
              Route('/old/<int:n>', endpoint='e', alias=True), Route('/<x>/<int:n>', endpoint='e'),
              Route('/bare', endpoint='e')]
    order = g.choice('order', [[0, 1, 2, 3, 4], [4, 3, 2, 1, 0], [2, 0, 3, 1, 4], [1, 2, 4, 0, 3]])
    m = URLMap([routes[i] for i in order])
    a = MapAdapter(m, 'h', '/', '', 'http', None)
    values = g.choice('given', [{}, {'n': n}, {'x': x, 'n': n}, {'x': x}])
    if 'x' in values and 'n' in values:
        want = '/' + x + '/' + str(n)
    elif 'n' in values:
        want = '/all' if n == 1 else '/all/' + str(n)
    elif 'x' in values:
        want = '/all?x=' + x
    else:
        want = '/all'
    g.check(same(a.build('e', values), want), 'the right route')
    m.update()
    g.check(m.is_endpoint_expecting('e', 'x') and m.is_endpoint_expecting('e', 'n') and
            not m.is_endpoint_expecting('e', 'y'), 'expects')


# -- native -------------------------------------------------------------------

TEXT = ['a', 'b c', '\xe9', '100%', 'a&b=c', 'x?y#z', 'a:b', 'a;b', 'a+b', '\u20ac', 'a|b', '"<>', "it's", 'a\\b',
        '~', '%41', '-_', 'a,b', '[x]', '@', 'a\nb']


def good(g, v):
    """A value the variable can carry."""
    k, a = v.kind, v.args
    if k == 'int':
        if a.get('fixed_digits'):
            return g.int('n', 0, 10 ** a['fixed_digits'] - 1)
        return g.int('n', a.get('min', 0), a.get('max', 10 ** 6))
    if k == 'float':
        return g.choice('f', [0.5, 1.0, 2.25, 8.125] + ([] if 'max' in a else [12345.75]))
    if k == 'path':
        return '/'.join(g.choice('s', TEXT[:-1]) for _ in range(g.int('depth', 1, 3)))
    if k == 'any':
        return g.choice('any', list(a))
    if k == 'uuid':
        import uuid
        return uuid.UUID(UUID)
    if k == 'string':
        n = a.get('length') or g.int('len', a.get('minlength', 1), a['maxlength'])
        return ''.join(g.choice('c', ['a', '\xe9', ' ', '%', '?', '&', '1', '-']) for _ in range(n))
    return g.choice('t', TEXT)


def table(g):
    """Routes none of which can match what another builds."""
    out = []
    for i in range(g.int('routes', 1, 3)):
        parts = [Lit('/r%d' % i + g.choice('static', ['', '/st', '/s t', '/\xe9', '/a+b:c', '/50%']))]
        vs = []
        for j in range(g.int('vars', 0, 2)):
            v = Var('v%d' % j, g.choice('v', VARS))
            vs.append(v)
            parts += [Lit('/'), v]
            if v.kind == 'path':
                parts.append(Lit('/end'))
        branch = g.bool('branch')
        sub = g.choice('sub', ['', '', 'www', '<v9>'])
        if sub == '<v9>':
            vs.append(Var('v9', ('any', ('de', 'en'))))
            sub = '<any(de, en):v9>'
        out.append((i, parts, vs, branch, sub))
    return out


@scenario(functions=[R + 'Route.build', R + 'Route.compile', R + 'MapAdapter.build', R + 'BaseConverter.to_url',
                     R + 'NumberConverter.to_url', R + 'UUIDConverter.to_url', R + 'MapAdapter.match',
                     R + 'URLMap.bind'], n=6000,
          note='building and matching again')
def s_roundtrip(g):
    """Matching a built URL gives back the endpoint and the values."""
    from urllib.parse import urlparse, unquote, parse_qsl
    t = table(g)
    charset = g.choice('charset', ['utf-8', 'utf-8', 'latin1'])
    m = URLMap([Route(''.join(p.rule for p in parts) + ('/' if branch else ''), endpoint='e%d' % i,
                      subdomain=sub or None) for i, parts, vs, branch, sub in t], charset=charset)
    here = g.choice('here', ['', 'www', 'de'])
    script = g.choice('script', ['/', '/app', '/app/sub/'])
    scheme = g.choice('scheme', ['http', 'https'])
    a = m.bind('example.org', script_name=script, subdomain=here, url_scheme=scheme)
    i, parts, vs, branch, sub = g.choice('pick', t)
    values = {v.name: good(g, v) for v in vs}
    if charset == 'latin1':
        g.assume(all('\u20ac' not in str(v) for v in values.values()))
    extra = {}
    if g.bool('extra'):
        extra = {g.choice('q', ['q', 'z', 'a b', '\xe9']): g.choice('qv', ['1', 'x y', '\xe9', '', '&=']),
                 'n': g.int('qn', 0, 3)}
        extra['none'] = None
    given = dict(values, **extra)
    kind = g.choice('given as', ['dict', 'multi'])
    ext = g.bool('external')
    unknown = g.bool('append')
    url = a.build('e%d' % i, MultiDict(given) if kind == 'multi' else given, force_external=ext,
                  append_unknown=unknown)
    g.check(url.isascii() and not any(c in url for c in ' \n"<>'), 'safe characters')
    u = urlparse(url)
    domain = values.get('v9', sub)
    if ext or domain != here:
        g.check(u.scheme == scheme and u.netloc == (domain + '.' if domain else '') + 'example.org', 'external')
    else:
        g.check(u.scheme == '' and u.netloc == '', 'relative')
    base = script.rstrip('/')
    g.check(u.path.startswith(base + '/'), 'below the script name')
    path = unquote(u.path[len(base):], encoding=charset)
    b = m.bind('example.org', script_name=script, subdomain=domain)
    r = outcome(lambda: b.match(path))
    g.check(r[0] == 'ok' and r[1][0] == 'e%d' % i, 'endpoint')
    g.check(r[1][1] == values, 'values')
    q = parse_qsl(u.query, keep_blank_values=True, encoding=charset)
    left = {k: v for k, v in extra.items() if v is not None} if unknown else {}
    g.check(sorted(q) == sorted((k, str(v)) for k, v in left.items()), 'query')
    g.check(u.fragment == '', 'no fragment')


@scenario(functions=[R + 'MapAdapter.build', R + 'MapAdapter.get_host', R + 'Route.build'], n=1500,
          note='routes of whole hosts')
def s_hosts(g):
    """A URL of a route of another host names that host, and the bound host is named only if it is asked for."""
    m = URLMap([Route('/a', endpoint='a', host='a.test'), Route('/b/<x>', endpoint='b', host='<sub>.test:80'),
                Route('/c', endpoint='c')], host_matching=True)
    bound = g.choice('bound', ['a.test', 'b.test:80', 'c.test'])
    script = g.choice('script', ['/', '/app'])
    scheme = g.choice('scheme', ['http', 'https'])
    a = m.bind(bound, script_name=script, url_scheme=scheme)
    name = g.choice('endpoint', ['a', 'b'])
    sub = g.choice('sub', ['b', 'c', 'x-y'])
    host, path, values = ('a.test', '/a', {}) if name == 'a' else (sub + '.test:80', '/b/v', {'sub': sub, 'x': 'v'})
    ext = g.bool('external')
    url = a.build(name, values, force_external=ext)
    want = script.rstrip('/') + path
    if ext or host != bound:
        want = scheme + '://' + host + want
    g.check(url == want, 'host')
    g.check(m.bind(host, script_name=script).match(path) == (name, values), 'back')


@scenario(functions=[R + 'MapAdapter.build', R + 'Route.suitable_for', R + 'Route.build_compare_key',
                     R + 'URLMap.iter_routes', R + 'URLMap.is_endpoint_expecting', R + 'URLMap.update'], n=4000,
          note='which route of an endpoint is built')
def s_choice(g):
    """The canonical route with most of its arguments given is built; without one building fails."""
    names = ['x', 'y', 'z']
    specs = []
    for i in range(g.int('routes', 1, 4)):
        args = [n for n in names if g.bool('arg ' + n)]
        rest = [n for n in names if n not in args]
        dflt = {n: g.int('dv', 0, 2) for n in rest if g.int('default', 0, 2) == 0}
        specs.append((i, args, dflt, g.int('alias', 0, 4) == 0, g.int('build only', 0, 3) == 0))
    m = URLMap()
    late = g.bool('late')
    rs = [Route('/r%d' % i + ''.join('/<int(max=5):%s>' % n for n in args), endpoint='e', defaults=dflt or None,
                alias=alias, build_only=bo) for i, args, dflt, alias, bo in specs]
    if late:
        m.add_routes(rs[0])
        outcome(lambda: m.bind('h').build('e', {}))
        m.add_routes(*rs[1:])
    else:
        m.add_routes(*rs)
    values = {n: g.int('v', 0, 2) for n in names if g.bool('have ' + n)}
    for n in names:
        if n not in values and g.int('none', 0, 4) == 0:
            values[n] = None
    given, before = values, dict(values)
    values = {n: v for n, v in values.items() if v is not None}
    order = sorted(specs, key=lambda s: (s[3], -len(set(s[1]) | set(s[2])), -len(s[2])))
    want = None
    for i, args, dflt, alias, bo in order:
        if all(n in values for n in args) and all(n not in values or values[n] == d for n, d in dflt.items()):
            path = '/r%d' % i + ''.join('/%d' % values[n] for n in args)
            left = sorted((n, v) for n, v in values.items() if n not in args and n not in dflt)
            want = path + ('?' + '&'.join('%s=%d' % kv for kv in left) if left else '')
            break
    o = outcome(lambda: m.bind('h').build('e', given))
    g.check(o == (('ok', want) if want else ('exc', BuildError)), 'route')
    g.check(outcome(lambda: m.bind('h').build('unknown', values)) == ('exc', BuildError), 'unknown endpoint')
    g.check(given == before and list(given) == list(before), 'values kept')
    g.check(outcome(lambda: m.bind('h').build('e', given)) == o, 'again')
    n = g.choice('expect', names)
    g.check(m.is_endpoint_expecting('e', n) == any(n in s[1] or n in s[2] for s in specs), 'expecting')
