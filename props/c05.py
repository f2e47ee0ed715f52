"""C05 — how an application answers a request."""
from pyvc.api import *
from verktyg.application import ApplicationBuilder, BaseApplication
from verktyg.dispatch import Binding
from verktyg.exception_dispatch import ExceptionHandler
from verktyg.exceptions import NotFound, HTTPException, MethodNotAllowed, NotImplemented, NotAcceptable, ImATeapot
from verktyg.responses import Response
from verktyg.routing import Route, RequestRedirect

META = {
    'level': 'proof',
    'files': ['verktyg/application.py', 'verktyg/dispatch.py', 'verktyg/exception_dispatch.py',
              'verktyg/views.py'],
    'assumptions': ['routes in the proofs are stand-ins whose match is already decided (see C06)'],
}

A = 'verktyg.application:'


# what the stand-ins for routes rely on
GONE = [n for n in ('get_routes', 'bind', 'match_compare_key', 'build_compare_key', 'match', 'redirect_to',
                    'defaults', 'alias') if not hasattr(Route('/'), n)]


def guard():
    if GONE:
        raise Missing(GONE[0])


class Fault(Exception):
    pass


class Worse(Fault):
    pass


class Found(object):
    """A route that matches whatever it is asked."""
    redirect_to = None
    defaults = None
    alias = False

    def __init__(self, endpoint, values, error):
        self.endpoint = endpoint
        self.values = values
        self.error = error
        self.asked = []

    def get_routes(self, router):
        yield self

    def bind(self, router, rebind=False):
        pass

    def match_compare_key(self):
        return ()

    def build_compare_key(self):
        return ()

    def match(self, path):
        self.asked.append(path)
        if self.error is not None:
            raise self.error
        return self.values


class Req(object):
    """A request as seen by the application."""
    def __init__(self, environ):
        self.environ = environ
        self.log = environ['log']
        self.path = environ['PATH_INFO']
        self.query_string = ''

    def __enter__(self):
        self.log.append('open')
        return self

    def __exit__(self, *exc):
        self.log.append('close')


class Res(object):
    """A response as seen by the application."""
    def __init__(self, log, body):
        self.log = log
        self.body = body

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.log.append('done')

    def __call__(self, environ, start_response):
        self.log.append(('sent', environ, start_response))
        return iter(self.body)


def start(*args):
    pass


class View(object):
    def __init__(self, result, error, cause=None):
        self.result = result
        self.error = error
        self.cause = cause
        self.calls = []

    def __call__(self, *args, **kwargs):
        self.calls.append((args, kwargs))
        if self.error is not None:
            if self.cause is not None:
                raise self.error from self.cause
            raise self.error
        return self.result


def build(routes, bindings, handlers, middleware=()):
    return BaseApplication('http://example.org/', {}, routes=routes, converters={}, bindings=bindings,
                           handlers=handlers, middleware=middleware, request_class=Req)


@harness(functions=[A + 'BaseApplication._get_response', A + 'BaseApplication._wsgi_inner',
                    A + 'BaseApplication.__call__', A + 'BaseApplication.__init__'])
def h_view(g):
    """The binding of the matched endpoint and method is called with the values of the match."""
    guard()
    log = []
    method = g.str('method', hints=['GET', 'POST', 'HEAD'])
    values = {}
    for k in ['x', 'y']:
        if g.bool('has ' + k):
            values[k] = g.str(k, hints=['1', 'a'])
    body = g.list('body', lambda g: g.bytes('part', hints=[b'a']), max=3)
    res = Res(log, body)
    view = View(res, None)
    other = View(res, None)
    r = Found('e', values, None)
    app = build([r], [Binding('f', other, method='GET'), Binding('e', view, method='GET')], [])
    env = {'log': log, 'PATH_INFO': '/p', 'REQUEST_METHOD': method}
    o = outcome(lambda: list(app(env, start)))
    if method == 'GET' or method == 'HEAD':
        g.check(same(o, ('ok', body)), 'body')
        g.check(len(view.calls) == 1 and len(other.calls) == 0, 'called once')
        args, kw = view.calls[0]
        g.check(args[0] is app and args[1].environ is env and len(args) == 2, 'application and request')
        g.check(same(kw, values), 'values')
        g.check(log[0] == 'open' and log[2] == 'done' and log[3] == 'close', 'closed')
        g.check(len(log) == 4, 'nothing else')
    else:
        g.check(same(o, ('exc', MethodNotAllowed)), 'refused')
        g.check(len(view.calls) == 0 and len(other.calls) == 0, 'not called')
        g.check(same(log, ['open', 'close']), 'closed')


@harness(functions=[A + 'BaseApplication._get_response', A + 'BaseApplication._wsgi_inner',
                    A + 'BaseApplication.__call__'], max_paths=20000)
def h_error(g):
    """Whatever is raised while answering goes to the nearest handler, or up if there is none."""
    guard()
    log = []
    err = g.choice('error', [Fault, Worse, KeyError])('why')
    cause = g.choice('cause', [Fault, ValueError])('first') if g.bool('caused') else None
    where = g.choice('where', ['match', 'view'])
    body = g.list('body', lambda g: g.bytes('part', hints=[b'a']), max=3)
    res = Res(log, body)
    view = View(res, err if where == 'view' else None, cause)
    hs = {}
    for c in [Fault, Worse, Exception]:
        if g.bool('handler for ' + c.__name__):
            hs[c] = View(res, None)
    app = build([Found('e', {}, err if where == 'match' else None)], [Binding('e', view, method='GET')],
                [ExceptionHandler(c, v) for c, v in hs.items()])
    env = {'log': log, 'PATH_INFO': '/p', 'REQUEST_METHOD': 'GET'}
    near = [c for c in type(err).__mro__ if c in hs]
    try:
        got = ('ok', list(app(env, start)))
    except Exception as e:
        got = ('exc', e)
    g.check(len(view.calls) == (1 if where == 'view' else 0), 'view called once')
    if near:
        g.check(same(got, ('ok', body)), 'answer of the handler')
        for c in hs:
            g.check(len(hs[c].calls) == (1 if c is near[0] else 0), 'one handler is called')
        args, kw = hs[near[0]].calls[0]
        g.check(len(args) == 5 and kw == {}, 'arguments')
        g.check(args[0] is app and args[1].environ is env, 'application and request')
        g.check(args[2] is type(err) and args[3] is err, 'exception')
        g.check(log[0] == 'open' and log[2] == 'done' and log[3] == 'close' and len(log) == 4, 'closed')
    else:
        g.check(got[0] == 'exc' and got[1] is err, 'the exception itself')
        for c in hs:
            g.check(len(hs[c].calls) == 0, 'no handler')
        g.check(log == ['open', 'close'], 'request closed')


class Layer(object):
    """Middleware leaving a trace."""
    def __init__(self, inner, *args, **kw):
        self.inner = inner
        self.tag = (args, kw)

    def __call__(self, environ, start_response):
        environ['log'].append(self.tag)
        return self.inner(environ, start_response)


@harness(functions=[A + 'BaseApplication.__init__', A + 'BaseApplication.__call__'])
def h_middleware(g):
    """Requests pass through the middleware, the one added last first."""
    guard()
    log = []
    tags = [g.int('tag', 0, 9) for _ in range(g.choice('layers', [0, 1, 2, 3]))]
    res = Res(log, [])
    app = build([Found('e', {}, None)], [Binding('e', View(res, None), method='GET')], [],
                [(Layer, (t,), {'k': t + 1}) for t in tags])
    env = {'log': log, 'PATH_INFO': '/p', 'REQUEST_METHOD': 'GET'}
    if g.bool('mounted in another'):
        outer = build([Found('e', {}, None)], [Binding('e', View(res, None), method='GET')], [])
        list(outer(env, start))
        g.check(env['verktyg.application'] is outer, 'outer known')
        del log[:]
    list(app(env, start))
    want = [((t,), {'k': t + 1}) for t in reversed(tags)]
    g.check(same(log[:len(tags)], want), 'order')
    g.check(len(log) == len(tags) + 4, 'once')
    g.check(env['verktyg.application'] is app, 'application known')


@harness(functions=[A + 'ApplicationBuilder.__init__', A + 'ApplicationBuilder.add_routes',
                    A + 'ApplicationBuilder.add_bindings', A + 'ApplicationBuilder.add_middleware',
                    A + 'ApplicationBuilder.add_exception_handlers', A + 'ApplicationBuilder.add_exception_handler',
                    A + 'ApplicationBuilder.exception_handler', A + 'ApplicationBuilder.__call__'])
def h_builder(g):
    """What was added to a builder, in whatever number of calls, is what its application consists of."""
    guard()
    log = []
    res = Res(log, [])
    view = View(res, None)
    fails = g.bool('fails')
    bad = View(res, Fault('x'))
    handler = View(res, None)
    tags = [g.int('tag', 0, 9) for _ in range(g.choice('layers', [0, 1, 2]))]
    b = ApplicationBuilder(default_redirect_handler=g.bool('redirects'), default_request_mixins=g.bool('mixins'))
    r = Found('e', {}, None)
    if g.bool('two calls'):
        b.add_routes()
        b.add_routes(r)
        b.add_bindings(Binding('e', bad if fails else view))
        b.add_bindings(Binding('f', bad))
    else:
        b.add_routes(r)
        b.add_bindings(Binding('e', bad if fails else view), Binding('f', bad))
    for t in tags:
        b.add_middleware(Layer, t, k=t + 1)
    how = g.choice('how', ['decorator', 'class', 'object', 'none'])
    if how == 'decorator':
        g.check(b.exception_handler(Fault)(handler) is handler, 'decorated')
    elif how == 'class':
        b.add_exception_handler(Fault, handler)
    elif how == 'object':
        b.add_exception_handlers(ExceptionHandler(Fault, handler))
    app = b('http://example.org/')
    env = {'log': log, 'PATH_INFO': '/p', 'REQUEST_METHOD': 'GET'}
    o = outcome(lambda: list(app(env, start)))
    want = [((t,), {'k': t + 1}) for t in reversed(tags)]
    g.check(same(log[:len(tags)], want), 'middleware')
    if fails and how == 'none':
        g.check(same(o, ('exc', Fault)), 'raised')
    else:
        g.check(same(o, ('ok', [])), 'answered')
    g.check(len(view.calls) == (0 if fails else 1) and len(bad.calls) == (1 if fails else 0), 'view')
    g.check(len(handler.calls) == (1 if fails and how != 'none' else 0), 'handler')


@harness(functions=[A + 'ApplicationBuilder.expose', A + 'ApplicationBuilder.add_routes',
                    A + 'ApplicationBuilder.add_bindings'])
def h_expose(g):
    """An exposed function is bound to its endpoint, or that of its own name, and to its route if it has one."""
    log = []
    res = Res(log, [])

    def view(app, req):
        log.append('called')
        return res

    def other(app, req):
        return res
    b = ApplicationBuilder()
    named = g.choice('named', ['given', 'keyword', 'not'])
    endpoint = 'view' if named == 'not' else g.choice('name', ['e', 'view'])
    routed = g.bool('routed')
    more = {}
    if routed:
        more['route'] = '/p'
    method = g.choice('method', [None, 'PUT', ['PUT', 'POST']])
    if method is not None:
        more['methods'] = method
    if named == 'given':
        f = b.expose(endpoint, **more)
    elif named == 'keyword':
        f = b.expose(endpoint=endpoint, **more)
    else:
        f = b.expose(**more)
    g.check(f(view) is view, 'the function itself')
    g.check(b.expose('other', route='/other')(other) is other, 'another one')
    if not routed:
        b.add_routes(Route('/p', endpoint=endpoint))
    app = b('http://example.org/')
    asked = g.choice('asked', ['GET', 'PUT', 'POST', 'DELETE'])
    env = {'PATH_INFO': '/p', 'REQUEST_METHOD': asked}
    o = outcome(lambda: list(app(env, start)))
    if asked in (['GET'] if method is None else method if isinstance(method, list) else [method]):
        g.check(same(o, ('ok', [])) and log[0] == 'called' and log.count('called') == 1, 'called')
    else:
        g.check(same(o, ('exc', MethodNotAllowed)) and log == [], 'not called')


# -- native -------------------------------------------------------------------

BAD = ['"', '<', '>']


def call(app, path, method='GET', query='', stop=None, **headers):
    env = {'PATH_INFO': path, 'REQUEST_METHOD': method, 'QUERY_STRING': query, 'SCRIPT_NAME': '',
           'SERVER_NAME': 'example.org', 'SERVER_PORT': '80', 'wsgi.url_scheme': 'http'}
    env.update(headers)
    got = []

    def start_response(status, hs, exc_info=None):
        got.append((status, hs))
        return lambda data: None
    it = app(env, start_response)
    try:
        if stop is None:
            body = b''.join(it)
        else:
            body = b''
            for _, part in zip(range(stop), it):
                body += part
    finally:
        if hasattr(it, 'close'):
            it.close()
    return int(got[0][0].split()[0]), dict(got[0][1]), body, env


@scenario(functions=[A + 'ApplicationBuilder', A + 'BaseApplication', A + '_default_redirect_handler',
                     'verktyg.utils:redirect', 'verktyg.requests:BaseRequest.close',
                     'verktyg.responses:BaseResponse.close'], n=1500,
          note='whole applications')
def s_app(g):
    """An application answers each request by its binding, the handlers and the middleware."""
    log = []
    redirects = g.int('default redirects', 0, 3) > 0
    b = ApplicationBuilder(default_redirect_handler=redirects)
    size = g.int('parts', 0, 3)

    def answer(text):
        def chunks():
            try:
                for i in range(size):
                    yield (text + str(i)).encode()
            finally:
                log.append('body closed')
        r = Response(chunks(), content_type='text/plain')
        r.call_on_close(lambda: log.append('response closed'))
        return r

    def add(name, route, fails, **kw):
        @b.expose(name, route=route, **kw)
        def view(app, req, **values):
            log.append((name, req.method, sorted(values.items()), app, req))
            req.call_on_close(lambda: log.append('request closed'))
            if fails is not None:
                raise fails
            return answer(name)
        return view
    errs = [Fault('a'), Worse('b'), ImATeapot(), KeyError('c')]
    fail = g.opt('fails', lambda g: g.choice('error', errs))
    add('index', '/', None)
    add('item', '/item/<int:n>/<name>/', fail, methods=['GET', 'PUT'])
    add('json', '/lang', None, content_type='application/json')
    add('html', None, None, content_type='text/html')
    b.add_routes(Route('/html', endpoint='html'))
    b.add_routes(Route('/nobody', endpoint='nobody'))
    classes = [c for c in [Fault, Worse, HTTPException, NotFound, Exception] if g.bool('handler')]

    def add_handler(c):
        @b.exception_handler(c)
        def handler(app, req, exc_type, exc_value, tb):
            log.append(('handler', c, exc_type, exc_value, app, req))
            return Response('handled', status=500)
    for c in classes:
        add_handler(c)
    layers = g.int('layers', 0, 3)

    def layer(inner, i, name):
        def run(env, start):
            log.append(('layer', i, name))
            return inner(env, start)
        return run
    for i in range(layers):
        b.add_middleware(layer, i, name='m%d' % i)
    b.config['key'] = 'value'
    app = b(g.choice('root', ['http://example.org', 'http://example.org/', '']))
    b.config['key'] = 'changed'
    b.add_middleware(layer, 99, name='late')
    g.check(app.config['key'] == 'value', 'config is a copy')
    n, name = g.int('n', 0, 20), g.choice('name', ['x', 'a b', 'q'])
    method = g.choice('method', ['GET', 'HEAD', 'POST', 'PUT'])
    what = g.choice('ask', ['index', 'item', 'slash', 'missing', 'nobody', 'lang', 'html'])
    path = {'index': '/', 'item': '/item/%d/%s/' % (n, name), 'slash': '/item/%d/%s' % (n, name),
            'missing': '/missing', 'nobody': '/nobody', 'lang': '/lang', 'html': '/html'}[what]
    accept = g.choice('accept', [None, '*/*', 'application/json', 'text/html'])
    extra = {} if accept is None else {'HTTP_ACCEPT': accept}
    err = None
    values = []
    endpoint = 'json' if what == 'lang' else what
    if what == 'slash':
        err = RequestRedirect
    elif what == 'missing':
        err = NotFound
    elif what == 'nobody':
        err = NotImplemented
    elif method not in (['GET', 'HEAD', 'PUT'] if what == 'item' else ['GET', 'HEAD']):
        err = MethodNotAllowed
    elif what in ('lang', 'html') and accept in ('text/html', 'application/json') and \
            (accept == 'text/html') != (what == 'html'):
        err = NotAcceptable
    elif what == 'item':
        values = [('n', n), ('name', name)]
        if fail is not None:
            err = fail
    stop = g.opt('stop', lambda g: g.int('after', 0, 1))
    try:
        code, headers, body, env = call(app, path, method, 'a=1', stop=stop if err is None else None, **extra)
        got = 'answer'
    except Exception as e:
        got = e
    g.check([x for x in log if x[0] == 'layer'] == [('layer', i, 'm%d' % i) for i in reversed(range(layers))],
            'middleware')
    rest = [x for x in log if x[0] != 'layer']
    called = [x for x in rest if isinstance(x, tuple) and x[0] != 'handler']
    handled = [x for x in rest if isinstance(x, tuple) and x[0] == 'handler']
    if err is None:
        if stop == 0:
            return
        g.check(got == 'answer' and len(called) == 1 and not handled, 'one view')
        c = called[0]
        g.check(c[0] == endpoint and c[1] == method and c[2] == values, 'the right view')
        g.check(c[3] is app and c[4].environ is env and c[4].app is app, 'application and request')
        g.check(code == 200, 'status')
        full = b'' if method == 'HEAD' else b''.join((endpoint + str(i)).encode() for i in range(size))
        g.check(body == full if stop is None else full.startswith(body), 'body')
        g.check(log[-1] == 'request closed' and 'response closed' in log, 'closed')
        if stop is None:
            g.check(log.count('response closed') == 1, 'closed once')
        g.check(log.count('request closed') == 1, 'request closed once')
        return
    cls = err if isinstance(err, type) else type(err)
    by = [c for c in cls.__mro__ if c in classes or c is RequestRedirect and redirects]
    g.check(len(called) == (0 if isinstance(err, type) else 1), 'view called')
    if not by:
        g.check(isinstance(got, cls) and (isinstance(err, type) or got is err), 'raised')
        g.check(not handled, 'nothing handles it')
    elif by[0] is RequestRedirect:
        g.check(got == 'answer' and code == 301, 'redirected')
        from urllib.parse import quote
        g.check(headers['Location'] == 'http://example.org/item/%d/%s/?a=1' % (n, quote(name)), 'location')
        g.check(not handled, 'nothing else handles it')
    else:
        g.check(got == 'answer' and code == 500, 'handled')
        g.check(len(handled) == 1 and handled[0][1] is by[0], 'by the nearest handler')
        g.check(handled[0][2] is cls and isinstance(handled[0][3], cls), 'with the exception')
        g.check(isinstance(err, type) or handled[0][3] is err, 'the very exception')
        g.check(handled[0][4] is app, 'and the application')
    if called:
        g.check(log[-1] == 'request closed', 'request closed last')


@scenario(functions=['verktyg.views:View.get_bindings', 'verktyg.views:JsonView.__call__',
                     'verktyg.views:ClassView.get_bindings', 'verktyg.views:expose',
                     'verktyg.views:expose_json', A + 'BaseApplication.url_for',
                     A + 'ApplicationBuilder.add_converters', A + 'ApplicationBuilder.add_request_mixins',
                     A + 'ApplicationBuilder.add_application_mixins'], n=1000,
          note='kinds of views')
def s_views(g):
    """JSON and class views, converters and mixins."""
    import json
    from verktyg.views import ClassView, expose_json
    from verktyg.routing import BaseConverter

    class Plus(BaseConverter):
        regex = '[0-9]+'

        def to_python(self, value):
            return int(value) + 1

        def to_url(self, value):
            return str(value - 1)

    class AppMixin(object):
        def hello(self):
            return 'app'

    class ReqMixin(object):
        @property
        def hello(self):
            return 'req'

    class Things(ClassView):
        name = 'things'

        def GET(self, app, req):
            return Response('got')

        def PUT(self, app, req):
            return Response('put')
    value = g.choice('value', [{'a': [1, None, 'é']}, [], 'x', 0, None, {'k': '</script>'}])
    seen = []
    b = ApplicationBuilder(default_request_mixins=g.bool('mixins'))
    b.add_converters(plus=Plus)
    b.add_application_mixins(AppMixin, AppMixin)
    b.add_request_mixins(ReqMixin)
    b.add_routes(Route('/things', endpoint='things'), Route('/json', endpoint='json'),
                 Route('/plus/<plus:n>', endpoint='plus'))
    b.add_bindings(Things())

    @expose_json(b, 'json')
    def view(app, req):
        seen.append((app.hello(), req.hello))
        return value

    @b.expose('plus')
    def plus(app, req, n):
        return Response(str(n))
    app = b('http://example.org/')
    code, headers, body, env = call(app, '/json')
    if value is None:
        g.check(code == 204 and body == b'', 'no content')
    else:
        g.check(code == 200 and json.loads(body.decode()) == value, 'json')
        g.check(headers['Content-Type'].split(';')[0] == 'application/json', 'content type')
    g.check(seen == [('app', 'req')], 'mixins')
    method = g.choice('method', ['GET', 'PUT', 'POST', 'DELETE', 'HEAD'])
    o = outcome(lambda: call(app, '/things', method))
    if method in ('POST', 'DELETE'):
        g.check(o == ('exc', MethodNotAllowed), 'no such method')
    else:
        g.check(o[0] == 'ok' and o[1][2] == {'GET': b'got', 'PUT': b'put', 'HEAD': b''}[method], 'method')
    n = g.int('n', 1, 50)
    g.check(call(app, '/plus/%d' % n)[2] == str(n + 1).encode(), 'converter')
    g.check(app.url_for('plus', n=n) == '/plus/%d' % (n - 1), 'url')
    g.check(app.url_for('things', q='a b') == '/things?q=a+b', 'url with query')


DIMS = [('content_type', 'HTTP_ACCEPT', ['text/html', 'application/json', 'image/png']),
        ('language', 'HTTP_ACCEPT_LANGUAGE', ['en', 'de', 'fr']),
        ('charset', 'HTTP_ACCEPT_CHARSET', ['utf-8', 'latin1', 'ascii'])]


@scenario(functions=[A + 'BaseApplication._get_response'], n=1500, note='headers of the client')
def s_headers(g):
    """The headers of the client choose among the views of an endpoint and the handlers of a class."""
    name, header, offers = g.choice('dimension', DIMS)
    b = ApplicationBuilder()
    b.add_routes(Route('/', endpoint='e'), Route('/fail', endpoint='fail'))

    def add(v):
        @b.expose('e', **{name: v})
        def view(app, req):
            return Response(v)

        @b.exception_handler(Fault, **{name: v})
        def handler(app, req, *exc):
            return Response(v)
    for v in offers[:2]:
        add(v)

    @b.exception_handler(Exception)
    def last(app, req, *exc):
        return Response('last', status=500)

    @b.expose('fail')
    def fail(app, req):
        raise Worse()
    app = b('http://example.org/')
    want = g.choice('wanted', offers + [None])
    better = g.choice('better', offers)
    text = want
    if want is not None and better != want and g.bool('two'):
        text = want + ';q=0.5, ' + better
        want = better if better in offers[:2] else want
    headers = {} if text is None else {header: text}
    best = [want] if want in offers[:2] else [] if want else offers[:2]
    r = call(app, '/', **headers)[2].decode()
    g.check(r in best if best else r == 'last', 'view')
    r = call(app, '/fail', **headers)[2].decode()
    g.check(r in best if best else r == 'last', 'handler')


@scenario(functions=['verktyg.utils:redirect'], n=800, note='any target')
def s_redirect(g):
    """A redirect names its target in the Location header, and only escaped in the page."""
    from verktyg.utils import redirect
    target = g.choice('scheme', ['http://example.org/p', '/p', 'itms-services://?action=x']) + ''.join(
        g.choice('c', ['a', '"', '<', '>', '&', '\xe9', '%20', "'", '?q=', '=', '/', '<script>'])
        for _ in range(g.int('len', 0, 6)))
    code = g.choice('code', [301, 302, 303, 307])
    r = redirect(target, code)
    g.check(r.status_code == code, 'status')
    loc = r.headers['Location']
    g.check(loc.isascii() and not any(c in loc for c in ' \r\n<>"'), 'safe location')
    from urllib.parse import unquote
    g.check(unquote(loc) == unquote(target), 'same target')
    page = r.get_data().decode('utf8')
    inner = page.split('<a href="', 1)[1].rsplit('</a>', 1)[0]
    href, text = inner.split('">', 1)
    g.check('<' not in href and '>' not in href and '"' not in href, 'escaped in the link')
    g.check('<' not in text and '>' not in text and '"' not in text, 'escaped in the text')
