"""C34 — views are bound as declared."""
import json
from pyvc.api import *
from verktyg.dispatch import Binding, Dispatcher
from verktyg.responses import Response
from verktyg.views import ClassView, JsonView, View, expose, expose_json

META = {
    'level': 'proof',
    'files': ['verktyg/views.py', 'verktyg/dispatch.py'],
    'assumptions': ['json.dumps is the standard library'],
}

V = 'verktyg.views:'
METHODS = ['GET', 'HEAD', 'POST', 'PUT', 'DELETE', 'PATCH']


class Log(object):
    """An action that remembers what it was called with."""
    def __init__(self, result):
        self.result = result
        self.calls = []

    def __call__(self, *args, **kwargs):
        self.calls.append((args, kwargs))
        return self.result


class Acting(ClassView):
    """A class view with an action of the instance for some methods."""
    name = 'acting'

    def __init__(self, action):
        self.action = action

    def GET(self, *args, **kwargs):
        return self.action(*args, **kwargs)

    def PUT(self, *args, **kwargs):
        return self.action(*args, put=True, **kwargs)

    def other(self):
        pass


class More(Acting):
    GET = None

    def __init__(self, action):
        self.action = self.DELETE = action
        self.GET = action


@harness(functions=[V + 'ClassView.get_bindings', 'verktyg.dispatch:Binding.__init__',
                    'verktyg.dispatch:Binding.__call__'])
def h_class(g):
    """A class view has one binding for each HTTP method that is one of its own, acting on this very object."""
    a, b = g.tok('a'), g.tok('b')
    app, req, x = g.tok('app'), g.tok('request'), g.tok('argument')
    first, second = Log(a), Log(b)
    cls = g.choice('class', [Acting, More])
    one, two = cls(first), cls(second)
    want = ['GET', 'PUT'] if cls is Acting else ['DELETE', 'GET', 'PUT']
    for view, log, result in [(one, first, a), (two, second, b), (one, first, a)]:
        bindings = [x for x in view.get_bindings()]
        g.check(sorted([x.method for x in bindings]) == want, 'methods')
        for binding in bindings:
            g.check(binding.name == 'acting', 'name')
            n = len(first.calls) + len(second.calls)
            g.check(binding(app, req, x) == result, 'result')
            g.check(len(first.calls) + len(second.calls) == n + 1, 'called once')
            g.check(log.calls[-1] == ((app, req, x), {'put': True} if binding.method == 'PUT' else {}), 'arguments')
            g.check(binding(app, req, key=x) == result, 'keyword')
            g.check(log.calls[-1][1]['key'] == x and log.calls[-1][0] == (app, req), 'keyword arguments')


@harness(functions=[V + 'View.__init__', V + 'View.__call__', V + 'View.get_bindings', 'verktyg.dispatch:Binding.__init__',
                    'verktyg.dispatch:Binding.__call__', 'verktyg.dispatch:Binding.get_bindings'])
def h_view(g):
    """A view has one binding for each of its methods, each of which calls the action with what it is given."""
    name, result, app, req, x = g.tok('name'), g.tok('result'), g.tok('app'), g.tok('request'), g.tok('argument')
    methods = g.choice('methods', [None, 'GET', 'POST', ['PUT'], ('GET', 'HEAD'), ['PUT', 'PUT', 'DELETE'], []])
    want = ['GET'] if methods is None else [methods] if isinstance(methods, str) else sorted(set(methods))
    action = Log(result)
    if methods is None and g.bool('left out'):
        view = View(name, action)
    elif isinstance(methods, list):
        how = g.choice('how', ['list', 'set', 'iterator', 'changed'])
        given = [m for m in methods]
        view = View(name, action, methods=given if how in ('list', 'changed') else set(given) if how == 'set' else
                    (m for m in given))
        if how == 'changed':
            given.append('PATCH')
    else:
        view = View(name, action, methods=methods)
    # twice: bindings may be asked for again
    for _ in range(2):
        bindings = [b for b in view.get_bindings()]
        g.check(sorted([b.method for b in bindings]) == want, 'methods')
        for b in bindings:
            g.check(b.name == name, 'name')
            g.check([c for c in b.get_bindings()] == [b], 'itself')
    calls = 0
    for b in bindings:
        if g.bool('keyword'):
            g.check(b(app, req, key=x) == result, 'result')
            g.check(action.calls[-1] == ((app, req), {'key': x}), 'keyword arguments')
        else:
            g.check(b(app, req, x) == result, 'result')
            g.check(action.calls[-1] == ((app, req, x), {}), 'arguments')
        calls += 1
    g.check(len(action.calls) == calls, 'called once each')
    g.check(view(app, req) == result, 'called itself')


@harness(functions=[V + 'JsonView.__init__', V + 'JsonView.__call__', V + 'View.__call__'])
def h_json(g):
    """A response is passed on as it is, nothing is a response without content."""
    r = Response('x', status=418)
    kind = g.choice('result', ['response', 'none'])
    action = Log(r if kind == 'response' else None)
    app, req, x = g.tok('app'), g.tok('request'), g.tok('argument')
    view = JsonView('name', action)
    got = view(app, req, key=x)
    g.check(action.calls == [((app, req), {'key': x})], 'arguments')
    if kind == 'response':
        g.check(got is r and r.status_code == 418, 'passed on')
    else:
        g.check(isinstance(got, Response) and got.status_code == 204, 'no content')


class Target(object):
    """A dispatcher that remembers what was added."""
    def __init__(self):
        self.added = []

    def add_bindings(self, *factories):
        for f in factories:
            for b in f.get_bindings():
                self.added.append(b)


@harness(functions=[V + 'expose', V + 'expose_json'])
def h_expose(g):
    """The decorators bind a function and leave it as it is."""
    t = Target()
    name, result = g.tok('name'), g.tok('result')
    f = Log(result if g.bool('token') else None)
    kind = g.choice('decorator', [expose, expose_json])
    methods = g.choice('methods', [None, 'POST', ['GET', 'PUT']])
    d = kind(t, name) if methods is None else kind(t, name, methods=methods)
    g.check(t.added == [], 'not before there is a function')
    g.check(d(f) is f, 'function left as it is')
    g.check(sorted([b.method for b in t.added]) == {None: ['GET'], 'POST': ['POST']}.get(
        methods if not isinstance(methods, list) else 'both', ['GET', 'PUT']), 'methods')
    for b in t.added:
        g.check(b.name == name, 'name')
        if kind is expose:
            g.check(b(1, 2, 3) == f.result and f.calls[-1] == ((1, 2, 3), {}), 'calls the function')


# -- native -------------------------------------------------------------------

def value(g, depth=0):
    kind = g.choice('kind', ['int', 'str', 'list', 'dict', 'bool', 'none', 'float'] if depth < 2 else ['int', 'str'])
    if kind == 'int':
        return g.int('int')
    if kind == 'str':
        s = g.choice('text', ['', 'a', '"', '\\', '\xfc', '\u2028', '</script>', '\n', '\U0001f600', '\x00'])
        return s
    if kind == 'list':
        return [value(g, depth + 1) for _ in range(g.int('len', 0, 3))]
    if kind == 'dict':
        return {g.choice('key', ['', 'a', '\xfc', 'x y']): value(g, depth + 1) for _ in range(g.int('len', 0, 3))}
    if kind == 'bool':
        return g.bool('bool')
    return None if kind == 'none' else g.choice('float', [0.5, -1e300, 0.0])


class Env(object):
    def __init__(self, debug):
        if debug is not None:
            self.debug = debug


@scenario(functions=[V + 'JsonView.__call__', V + 'JsonView.__init__', V + 'JsonView.get_bindings'], n=3000,
          note='the JSON encoder is the standard library')
def s_json(g):
    """What a JSON view returns is read back from the body of the response."""
    v = value(g)
    debug = g.choice('debug', [None, False, True])
    view = JsonView('n', lambda env, req, *a, **k: v)
    r = view(Env(debug), None)
    g.check(type(r) is Response, 'response')
    if v is None:
        g.check(r.status_code == 204 and r.get_data() == b'', 'no content')
        return
    g.check(r.status_code == 200 and r.headers.getlist('content-type') == ['application/json'], 'type')
    got = json.loads(r.get_data().decode('ascii'))
    g.check(got == v and json.dumps(got) == json.dumps(v), 'value')
    if not debug:
        g.check(r.get_data() == json.dumps(v, separators=(',', ':')).encode('ascii'), 'compact')


class Users(ClassView):
    name = 'users'

    def GET(self, env, req):
        return 'get'

    def DELETE(self, env, req):
        return 'delete'


class Extended(Users):
    def PUT(self, env, req):
        return 'put'

    def GET(self, env, req):
        return 'mine'

    def other(self, env, req):
        return 'other'


@scenario(functions=[V + 'ClassView.get_bindings', V + 'View.get_bindings', V + 'JsonView.__init__', V + 'expose',
                     V + 'expose_json', 'verktyg.dispatch:Dispatcher.add_bindings',
                     'verktyg.dispatch:Dispatcher.lookup'], n=2500, note='whole dispatchers')
def s_bound(g):
    """What is found in a dispatcher is what was bound, with the representation declared."""
    cls = g.choice('class', [Users, Extended])
    want = {'GET': 'get', 'DELETE': 'delete'} if cls is Users else {'GET': 'mine', 'DELETE': 'delete', 'PUT': 'put'}
    obj = cls()
    g.check({b.method: b(None, None) for b in obj.get_bindings()} == want, 'class')
    g.check({b.name for b in obj.get_bindings()} == {'users'}, 'name')
    d = Dispatcher([obj])
    types = ['text/html', 'application/json', 'image/png']
    langs = ['en', 'de']
    made = []
    for i in range(g.int('views', 1, 4)):
        methods = g.choice('methods', [None, 'POST', ['GET', 'POST'], {'PUT'}])
        kind = g.choice('kind', ['view', 'json', 'expose', 'expose json'])
        t = g.choice('type', types) if kind in ('view', 'expose') else 'application/json'
        lang = g.choice('language', langs) if kind in ('view', 'expose') else None
        qs = g.choice('qs', [None, 0.25, 0.5, 0])
        action = lambda env, req, i=i: Response(str(i))
        kw = dict(methods=methods, qs=qs)
        if kind in ('view', 'expose'):
            kw.update(content_type=t, language=lang)
        if kind in ('view', 'json'):
            d.add_bindings((View if kind == 'view' else JsonView)('v', action, **kw))
        else:
            g.check((expose if kind == 'expose' else expose_json)(d, 'v', **kw)(action) is action, 'left')
        made.append(({'GET'} if methods is None else {methods} if isinstance(methods, str) else set(methods), t, lang,
                     1.0 if qs is None else qs, str(i)))
    method = g.choice('method', ['GET', 'POST', 'PUT'])
    t, lang = g.choice('accept', types), g.choice('accept language', langs)
    fits = [m for m in made if method in m[0] and m[1] == t and m[2] == lang]
    free = [m for m in made if method in m[0] and m[1] == t and m[2] is None]
    if fits and not free:
        best = max(m[3] for m in fits)
        r = d.lookup('v', method, accept=t, accept_language=lang)(None, None)
        g.check(r.get_data(as_text=True) in [m[4] for m in fits if m[3] == best], 'found')
    elif free and not [m for m in made if method in m[0] and m[1] == t and m[2] is not None]:
        best = max(m[3] for m in free)
        r = d.lookup('v', method, accept=t)(None, None)
        g.check(r.get_data(as_text=True) in [m[4] for m in free if m[3] == best], 'json found')
    for m in want:
        g.check(d.lookup('users', m)(None, None) == want[m], 'class found')
