"""C03 — dispatching a request to a binding by name, method and Accept headers."""
from pyvc.api import *
from verktyg.dispatch import Dispatcher, Binding
from verktyg.views import View
from verktyg.accept import select_representation
from verktyg.exceptions import NotAcceptable, MethodNotAllowed
from verktyg.exceptions import NotImplemented as NotImplementedHTTP
from props.c02 import Dim, Header, ACCEPT, LANGUAGE, CHARSET, dim

META = {
    'level': 'proof',
    'files': ['verktyg/dispatch.py', 'verktyg/views.py', 'verktyg/accept/__init__.py'],
    'assumptions': ['in the proofs content type matches are arbitrary stand-ins (see C01, C02)'],
}

D = 'verktyg.dispatch:'
METHODS = ['GET', 'HEAD', 'POST', 'PUT', 'get', 'X']
NAMES = ['a', 'b', 'index', '']


class Src(object):
    """Some binding factory."""
    def __init__(self, bs):
        self.bs = bs

    def get_bindings(self):
        return iter(self.bs)


def binding(g, name, method):
    d = dim(g, 'ct', ACCEPT)
    b = Binding(name, None, method=method, content_type=d)
    b.ok = d.ok
    b.rank = (d.match, d.q)
    return b


def any_binding(g):
    return binding(g, g.str('name', max=1, alphabet='ab', hints=NAMES),
                   g.str('method', max=1, alphabet='GH', hints=METHODS))


def look(d, name, method):
    return outcome(lambda: d.lookup(name, method, accept=ACCEPT, accept_language=LANGUAGE,
                                    accept_charset=CHARSET))


def judge(g, o, bs, name, method):
    """bs: every binding added, in order."""
    named = [b for b in bs if b.name == name]
    exact = [b for b in named if b.method == method]
    if not named:
        g.check(o[0] == 'exc' and o[1] is NotImplementedHTTP, 'unknown name')
        return
    if not exact and method == 'HEAD':
        exact = [b for b in named if b.method == 'GET']
    if not exact:
        g.check(o[0] == 'exc' and o[1] is MethodNotAllowed, 'unknown method')
        return
    good = [b for b in exact if b.ok]
    if not good:
        g.check(o[0] == 'exc' and issubclass(o[1], NotAcceptable), 'not acceptable')
        return
    g.check(o[0] == 'ok', 'found')
    if o[0] == 'ok':
        g.check(exists(good, lambda b: b is o[1]), 'among the candidates')
        g.check(forall(good, lambda b: o[1].rank >= b.rank), 'best of the candidates')


@harness(functions=[D + 'Dispatcher.lookup', D + 'Dispatcher.add_bindings', D + 'Dispatcher.__init__'],
         prove=False, listmax=2, n=3000, budget=60,
         note='the dispatcher indexes bindings in nested dictionaries built in a loop')
def h_lookup(g):
    """A lookup considers exactly the bindings with that name and method (for
    HEAD, those of GET when there is none), and tells an unknown name, an
    unknown method and an unacceptable representation apart."""
    bs = g.list('bindings', any_binding, max=4)
    name = g.str('lookup', max=1, alphabet='ab', hints=NAMES)
    method = g.str('by', max=1, alphabet='GH', hints=METHODS)
    if g.bool('one by one'):
        d = Dispatcher()
        for b in bs:
            d.add_bindings(b)
    else:
        d = Dispatcher(bs)
    judge(g, look(d, name, method), list(bs), name, method)


@harness(functions=[D + 'Dispatcher.lookup', D + 'Dispatcher.get_bindings'])
def h_fixed(g):
    """The same for three bindings of any names and methods."""
    b1 = any_binding(g)
    b2 = any_binding(g)
    b3 = any_binding(g)
    name = g.str('lookup', max=1, alphabet='ab', hints=NAMES)
    method = g.str('by', max=1, alphabet='GH', hints=METHODS)
    d = Dispatcher([b1, b2])
    d.add_bindings(b3)
    judge(g, look(d, name, method), [b1, b2, b3], name, method)
    g.check(same(list(d.get_bindings()), [b1, b2, b3]), 'bindings')


@harness(functions=[D + 'Dispatcher.lookup'], budget=60, n=3000)
def h_again(g):
    """A lookup leaves no trace: bindings added after it and lookups made after
    it behave as if it had not happened."""
    b1 = any_binding(g)
    b2 = any_binding(g)
    name = g.str('lookup', max=1, alphabet='ab', hints=NAMES)
    d = Dispatcher([b1])
    look(d, name, g.str('before', max=1, alphabet='GH', hints=METHODS))
    d.add_bindings(b2)
    method = g.str('by', max=1, alphabet='GH', hints=METHODS)
    judge(g, look(d, name, method), [b1, b2], name, method)


def selection(representations, accept='*/*', accept_language='*', accept_charset='*'):
    return (list(representations), accept, accept_language, accept_charset)


SELECT = Abstract('verktyg.accept:select_representation', selection)


@harness(functions=[D + 'Dispatcher.add_bindings', D + 'Dispatcher.lookup'], uses=[SELECT])
def h_many(g):
    """Any number of bindings: those of the name and method asked for, and only
    those, are handed to the selection in the order they were added, with each
    Accept header in its place."""
    n = g.str('n', max=1, alphabet='ab', hints=NAMES)
    m = g.str('m', max=1, alphabet='GH', hints=METHODS)
    first = binding(g, n, m)
    other = any_binding(g)
    g.assume(other.name != n or other.method != m)
    more = g.list('more', lambda g: binding(g, n, m) if g.bool('mine') else
                  binding(g, other.name, other.method), max=4)
    mine = [b for b in more if both(b.name == n, b.method == m)]
    rest = [b for b in more if not both(b.name == n, b.method == m)]
    d = Dispatcher([first, other])
    d.add_bindings(Src(more))
    o = look(d, n, m)
    want = outcome(lambda: select_representation(
        [first] + mine, accept=ACCEPT, accept_language=LANGUAGE, accept_charset=CHARSET))
    g.check(o[0] == want[0] and same(o[1], want[1]), 'selected from')


@harness(functions=[D + 'Dispatcher.get_bindings'])
def h_nested(g):
    """A dispatcher added to another one contributes its bindings, in order."""
    b1 = any_binding(g)
    b2 = any_binding(g)
    b3 = any_binding(g)
    inner = Dispatcher([b2, b3])
    outer = Dispatcher([b1])
    outer.add_bindings(inner)
    g.check(same(list(outer.get_bindings()), [b1, b2, b3]), 'outer')
    g.check(same(list(inner.get_bindings()), [b2, b3]), 'inner unchanged')
    name = g.str('lookup', max=1, alphabet='ab', hints=NAMES)
    method = g.str('by', max=1, alphabet='GH', hints=METHODS)
    o = look(outer, name, method)
    flat = look(Dispatcher([b1, b2, b3]), name, method)
    g.check(o[0] == flat[0] and o[1] is flat[1], 'as if added directly')


@harness(functions=[D + 'Dispatcher.add_bindings', D + 'Dispatcher.lookup'], budget=60)
def h_apart(g):
    """What is added to a dispatcher later does not get into those that it was made of."""
    b1 = any_binding(g)
    b2 = any_binding(g)
    inner = Dispatcher([b1])
    outer = Dispatcher([inner]) if g.bool('given') else Dispatcher()
    if len([b for b in outer.get_bindings()]) == 0:
        outer.add_bindings(inner)
    outer.add_bindings(b2)
    name = g.str('lookup', max=1, alphabet='ab', hints=NAMES)
    method = g.str('by', max=1, alphabet='GH', hints=METHODS)
    judge(g, look(inner, name, method), [b1], name, method)
    judge(g, look(outer, name, method), [b1, b2], name, method)
    g.check(same(list(inner.get_bindings()), [b1]), 'inner unchanged')


class Act(object):
    def __call__(self, app, req, *args, **kwargs):
        return (app, req, args, kwargs)


@scenario(functions=['verktyg.views:View.get_bindings', 'verktyg.views:View.__call__',
                     D + 'Binding.__call__'], n=1500,
          note='views bind sets of methods; whole path from view to call')
def s_view(g):
    """A view is found under every method it was given (and HEAD with GET), and
    calling what was found calls its action with the same arguments."""
    ms = g.choice('methods', [None, 'GET', 'POST', ['GET', 'POST'], ['PUT'], ['HEAD', 'GET'],
                              ('DELETE', 'PATCH')])
    act = Act()
    name = g.choice('name', NAMES)
    v = View(name, act, methods=ms, content_type=g.opt('ct', lambda g: 'text/html'))
    d = Dispatcher([v]) if g.bool('ctor') else Dispatcher()
    d.add_bindings(View('other', Act(), methods=['GET', 'POST']))
    if name not in [b.name for b in d.get_bindings()]:
        d.add_bindings(v)
    have = {'GET'} if ms is None else {ms} if isinstance(ms, str) else set(ms)
    for m in METHODS + ['DELETE', 'PATCH']:
        o = outcome(lambda: d.lookup(name, m))
        if m in have or (m == 'HEAD' and 'GET' in have):
            g.check(o[0] == 'ok', 'bound')
            g.check(o[1](1, 2, 3, x=4) == (1, 2, (3,), {'x': 4}), 'called')
            g.check(o[1].name == name and o[1].method == (m if m in have else 'GET'), 'which')
        else:
            g.check(o == ('exc', MethodNotAllowed), 'not allowed')
    g.check(outcome(lambda: d.lookup('nowhere'))[1] is NotImplementedHTTP, 'unknown')
