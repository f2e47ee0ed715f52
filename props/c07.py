"""C07 — route factories: independent copies with exactly one thing changed."""
from pyvc.api import *
from verktyg.routing import (
    Route, RouteFactory, Submount, Subdomain, EndpointPrefix, RouteTemplate, URLMap, RequestRedirect,
)
from verktyg.exceptions import NotFound

META = {
    'level': 'proof',
    'files': ['verktyg/routing.py'],
    'assumptions': [],
}

R = 'verktyg.routing:'
PATHS = ['', 'a', 'a/', 'a/b', '<x>', 'b/<int:y>/']
NAMES = ['index', 'a', '', 'blog/']


class Src(RouteFactory):
    """Some route factory."""
    def __init__(self, rs):
        self.rs = rs

    def get_routes(self, router):
        return iter(self.rs)


def any_route(g):
    return Route(
        '/' + g.str('path', hints=PATHS),
        defaults=g.opt('defaults?', lambda g: g.dict('defaults', lambda g: g.str('k', hints=['x', 'z']),
                                                     lambda g: g.str('v', hints=['1']), max=2)),
        subdomain=g.opt('subdomain?', lambda g: g.str('subdomain', hints=['www', ''])),
        build_only=g.bool('build_only'),
        endpoint=g.str('endpoint', hints=NAMES),
        strict_slashes=g.opt('strict?', lambda g: g.bool('strict')),
        redirect_to=g.opt('redirect?', lambda g: g.str('redirect', hints=['/x'])),
        alias=g.bool('alias'),
        host=g.opt('host?', lambda g: g.str('host', hints=['example.org'])),
    )


def some_route(g):
    """A route with everything given."""
    return Route(
        '/' + g.str('path', hints=PATHS),
        defaults=g.opt('defaults?', lambda g: {g.str('k', hints=['x', 'z']): g.str('v', hints=['1'])}),
        subdomain=g.str('subdomain', hints=['www', '']), build_only=g.bool('build_only'),
        endpoint=g.str('endpoint', hints=NAMES), strict_slashes=g.bool('strict'),
        redirect_to=g.str('redirect', hints=['/x']), alias=g.bool('alias'),
        host=g.str('host', hints=['example.org']))


def fields(r):
    """All that makes up a route."""
    return (r.route, r.endpoint, r.subdomain, r.host, r.build_only, r.strict_slashes, r.redirect_to,
            r.alias, r.is_leaf, r.defaults)


def routes(g):
    return g.list('routes', some_route, max=3)


def source(g, rs):
    """The routes, directly or through a factory."""
    return [Src(rs)] if g.bool('nested') else rs


def produced(factory):
    return [r for r in factory.get_routes(None)]


def compare(g, got, rs, want, label):
    g.check(same([fields(r) for r in got], want), label)
    g.check(forall(got, lambda r: r.router is None), label + ' unbound')


@harness(functions=[R + 'Submount.__init__', R + 'Submount.get_routes', R + 'Route.empty', R + 'Route.__init__',
                    R + 'Route.get_routes'])
def h_submount(g):
    """A submount only puts its path in front of the pattern."""
    rs = routes(g)
    path = '/' + g.str('mount', hints=['a', 'a/', '', 'a/b//'])
    before = [fields(r) for r in rs]
    want = [(path.rstrip('/') + r.route,) + fields(r)[1:] for r in rs]
    got = produced(Submount(path, source(g, rs)))
    compare(g, got, rs, want, 'submount')
    g.check(same([fields(r) for r in rs], before), 'source unchanged')


@harness(functions=[R + 'Subdomain.__init__', R + 'Subdomain.get_routes', R + 'Route.empty'])
def h_subdomain(g):
    """A subdomain factory only sets the subdomain."""
    rs = routes(g)
    sub = g.str('sub', hints=['www', '', '<lang>'])
    before = [fields(r) for r in rs]
    want = [fields(r)[:2] + (sub,) + fields(r)[3:] for r in rs]
    got = produced(Subdomain(sub, source(g, rs)))
    compare(g, got, rs, want, 'subdomain')
    g.check(same([fields(r) for r in rs], before), 'source unchanged')


@harness(functions=[R + 'EndpointPrefix.__init__', R + 'EndpointPrefix.get_routes', R + 'Route.empty'])
def h_prefix(g):
    """An endpoint prefix only changes the endpoint."""
    rs = routes(g)
    prefix = g.str('prefix', hints=['blog/', ''])
    before = [fields(r) for r in rs]
    want = [(r.route, prefix + r.endpoint) + fields(r)[2:] for r in rs]
    got = produced(EndpointPrefix(prefix, source(g, rs)))
    compare(g, got, rs, want, 'prefix')
    g.check(same([fields(r) for r in rs], before), 'source unchanged')


@harness(functions=[R + 'Route.empty', R + 'Route.__init__'])
def h_empty(g):
    """A copy has the same defaults and arguments, and is independent."""
    r = any_route(g)
    k = g.str('key', hints=['x', 'z'])
    had = r.defaults is not None and k in r.defaults
    value = r.defaults[k] if had else None
    c = r.empty()
    g.check(same(fields(c)[:9], fields(r)[:9]), 'fields')
    g.check((k in c.arguments) == (k in r.arguments), 'arguments')
    g.check((c.defaults is not None and k in c.defaults) == had, 'defaults')
    if had:
        g.check(same(c.defaults[k], value), 'default value')
        c.defaults[k] = 'changed'
        g.check(same(r.defaults[k], value), 'defaults independent')
    c.arguments.add('new')
    c.endpoint = 'changed'
    g.check(('new' in r.arguments) == (r.defaults is not None and 'new' in r.defaults), 'arguments independent')


@harness(functions=[R + 'Submount.get_routes', R + 'Subdomain.get_routes', R + 'EndpointPrefix.get_routes'])
def h_nested(g):
    """Nested factories apply one after the other."""
    rs = routes(g)
    p1, p2 = g.str('p1', hints=['a']), g.str('p2', hints=['b'])
    sub = g.str('sub', hints=['www'])
    prefix = g.str('prefix', hints=['blog/'])
    f = Submount('/' + p1, [EndpointPrefix(prefix, [Submount('/' + p2, [Subdomain(sub, rs)])])])
    want = [(('/' + p1).rstrip('/') + (('/' + p2).rstrip('/') + r.route), prefix + r.endpoint, sub) + fields(r)[3:]
            for r in rs]
    compare(g, produced(f), rs, want, 'nested')


@harness(functions=[R + 'RouteTemplate.__init__', R + 'RouteTemplate.__call__',
                    R + 'RouteTemplateFactory.__init__', R + 'RouteTemplateFactory.get_routes'])
def h_template(g):
    """A template fills the placeholders in and changes nothing else."""
    name = g.str('name', hints=['user', 'page'])
    build_only, alias = g.bool('build_only'), g.bool('alias')
    strict = g.opt('strict?', lambda g: g.bool('strict'))
    redirect = g.opt('redirect?', lambda g: g.str('redirect', hints=['/x']))
    host = g.opt('host?', lambda g: g.str('host', hints=['example.org']))
    plain = g.opt('sub?', lambda g: 's-{name}')
    slash = g.bool('slash')
    src = Route('/x/{name}/' if slash else '/{name}', defaults={'d': '{name}!', 'n': 3},
                subdomain=plain, endpoint='{name}.show', build_only=build_only, alias=alias,
                strict_slashes=strict, redirect_to=redirect, host=host)
    given = [src]
    how = g.choice('how', ['list', 'tuple', 'iterator', 'changed'])
    t = RouteTemplate((src,) if how == 'tuple' else (r for r in given) if how == 'iterator' else given)
    if how == 'changed':
        given.append(Route('/more'))
    got = produced(t(name=name))
    g.check(len(got) == 1, 'one route')
    r = got[0]
    want = ('/x/' + name + '/' if slash else '/' + name, name + '.show', None if plain is None else 's-' + name, host,
            build_only, strict, redirect, alias)
    g.check(same(fields(r)[:8], want), 'filled in')
    g.check(r.is_leaf == (not want[0].endswith('/')), 'leaf')
    g.check(same(r.defaults, {'d': name + '!', 'n': 3}), 'defaults')
    again = produced(t(name='other'))
    g.check(len(again) == 1 and same(again[0].endpoint, 'other.show'), 'template unchanged')
    g.check(same(src.defaults, {'d': '{name}!', 'n': 3}), 'source unchanged')


@scenario(functions=[R + 'URLMap.add_routes', R + 'Submount.get_routes', R + 'Subdomain.get_routes',
                     R + 'EndpointPrefix.get_routes', R + 'RouteTemplateFactory.get_routes'], n=3000,
          note='factories observed through matching')
def s_match(g):
    """Routes behind factories match where the factories put them, in every map they are added to."""
    n = g.int('routes', 1, 3)
    tails = ['', 'x', 'x/', 'y/<int:n>', '<path:p>/end', '<s>']
    tested = [('/', {}), ('/x', {}), ('/x/', {}), ('/y/12', {'n': 12}), ('/a/b/end', {'p': 'a/b'}),
              ('/foo', {'s': 'foo'})]
    picks = [g.int('pick', 0, len(tails) - 1) for _ in range(n)]
    rs = [Route('/' + tails[p], endpoint='e%d' % p) for p in picks]
    want_prefix, want_path, want_sub = '', '', ''
    f = rs
    for _ in range(g.int('layers', 0, 4)):
        layer = g.choice('layer', ['mount', 'sub', 'prefix', 'template'])
        if layer == 'mount':
            m = g.choice('m', ['/m', '/m/n', '/k/'])
            f = [Submount(m, f)]
            want_path = m.rstrip('/') + want_path
        elif layer == 'sub':
            want_sub = g.choice('s', ['www', 'api'])
            f = [Subdomain(want_sub, f)]
        elif layer == 'prefix':
            x = g.choice('x', ['p/', 'q.'])
            f = [EndpointPrefix(x, f)]
            want_prefix = x + want_prefix
        else:
            f = [RouteTemplate(f)()]
    maps = [URLMap(f)]
    if f is not rs:
        maps.append(URLMap(f))
    for m in maps:
        a = m.bind('example.org', subdomain=want_sub)
        wrong = m.bind('example.org', subdomain='other')
        for p in picks:
            path, values = tested[p]
            rivals = [q for q in picks if q != p]
            if p == 5 and 1 in picks or p == 1 and 2 in picks or p == 2 and 1 in picks:
                continue
            r = outcome(lambda: a.match(want_path + path))
            g.check(r == ('ok', (want_prefix + 'e%d' % p, values)), 'matches')
            g.check(outcome(lambda: wrong.match(want_path + path)) == ('exc', NotFound), 'other subdomain')
        g.check(outcome(lambda: a.match(want_path + '/none/such/one'))[0] == 'exc', 'nothing else')
        g.check(len(list(m.iter_routes())) == n, 'as many routes')
