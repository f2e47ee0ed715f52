"""C04 — choosing the handler for an exception."""
from pyvc.api import *
from verktyg.exception_dispatch import ExceptionDispatcher, ExceptionHandler
from verktyg.accept import select_representation
from verktyg.exceptions import NotFound, NotAcceptable, HTTPException
from props.c02 import Dim, ACCEPT, LANGUAGE, CHARSET, dim

META = {
    'level': 'proof',
    'files': ['verktyg/exception_dispatch.py', 'verktyg/accept/__init__.py'],
    'assumptions': ['the proofs quantify over the handlers registered for a fixed family of exception '
                    'classes with single and multiple inheritance',
                    'content type matches are arbitrary stand-ins (see C01, C02)'],
}

E = 'verktyg.exception_dispatch:'


class Base(Exception):
    pass


class Left(Base):
    pass


class Right(Base):
    pass


class Both(Left, Right):
    pass


class Other(Exception):
    pass


CLASSES = [Exception, Base, Left, Right, Both, Other]


def handler(g, cls):
    d = dim(g, 'ct', ACCEPT)
    h = ExceptionHandler(cls, Action(), content_type=d)
    h.ok = d.ok
    h.rank = (d.match, d.q)
    return h


class Action(object):
    """Identity of a handler's action."""


def any_handler(g):
    return handler(g, g.choice('class', CLASSES))


def look(d, cls):
    return outcome(lambda: d.lookup(cls, accept=ACCEPT, accept_language=LANGUAGE,
                                    accept_charset=CHARSET))


def judge(g, o, hs, cls):
    for c in cls.__mro__:
        good = [h for h in hs if h.exception_class is c and h.ok]
        if good:
            g.check(o[0] == 'ok' and o[1] is not None, 'handled')
            if o[0] == 'ok':
                g.check(exists(good, lambda h: h.action is o[1]), 'by the nearest class')
                g.check(forall(good, lambda h: exists(
                    good, lambda k: k.action is o[1] and k.rank >= h.rank)), 'by the best of them')
            return
    g.check(o[0] == 'ok' and o[1] is None, 'unhandled')


@harness(functions=[E + 'ExceptionDispatcher.lookup', E + 'ExceptionDispatcher.add_exception_handlers'],
         budget=80, max_paths=20000)
def h_two(g):
    """With any two handlers: the handler used is registered for the first class
    in the resolution order of the exception for which an acceptable handler
    exists, and is the best acceptable one there."""
    h1 = any_handler(g)
    h2 = any_handler(g)
    cls = g.choice('raised', CLASSES)
    d = ExceptionDispatcher([h1])
    look(d, g.choice('before', [Both, Left]))
    d.add_exception_handlers(h2)
    judge(g, look(d, cls), [h1, h2], cls)


@harness(functions=[E + 'ExceptionDispatcher.lookup'], budget=80, max_paths=20000)
def h_three(g):
    """With three handlers along one chain of classes."""
    chain = [Exception, Base, Left]
    h1 = handler(g, g.choice('c1', chain))
    h2 = handler(g, g.choice('c2', chain))
    h3 = handler(g, g.choice('c3', chain))
    d = ExceptionDispatcher([h1, h2, h3])
    judge(g, look(d, Both), [h1, h2, h3], Both)


class Src(object):
    def __init__(self, hs):
        self.hs = hs

    def get_exception_handlers(self):
        return iter(self.hs)


class Picked(object):
    """The result of some selection from these representations."""
    def __init__(self, *call):
        self.action = call


def selection(representations, accept='*/*', accept_language='*', accept_charset='*'):
    if not exists(representations, lambda r: r.ok):
        raise NotAcceptable()
    return Picked(list(representations), accept, accept_language, accept_charset)


SELECT = Abstract('verktyg.accept:select_representation', selection)


@harness(functions=[E + 'ExceptionDispatcher.add_exception_handlers', E + 'ExceptionDispatcher.lookup'],
         uses=[SELECT], budget=80)
def h_many(g):
    """Any number of handlers for a class and for its base: the selection is
    made among the handlers of the class, in the order they were added, then
    only if none of them is acceptable among those of the base."""
    first = handler(g, Left)
    last = handler(g, Base)
    more = g.list('more', lambda g: handler(g, Left), max=3)
    low = g.list('low', lambda g: handler(g, Base), max=3)
    d = ExceptionDispatcher([first, last])
    d.add_exception_handlers(Src(more), Src(low))

    def pick(hs):
        return outcome(lambda: select_representation(
            hs, accept=ACCEPT, accept_language=LANGUAGE, accept_charset=CHARSET).action)
    want = pick([first] + more)
    if want[0] == 'exc':
        want = pick([last] + low)
        if want[0] == 'exc':
            want = ('ok', None)
    o = look(d, Left)
    g.check(o[0] == 'ok' and same(o[1], want[1]), 'selected from')


@harness(functions=[E + 'ExceptionDispatcher.get_exception_handlers'])
def h_nested(g):
    """A dispatcher added to another one contributes all its handlers."""
    h1 = any_handler(g)
    h2 = any_handler(g)
    inner = ExceptionDispatcher([h1, h2])
    outer = ExceptionDispatcher()
    outer.add_exception_handlers(inner)
    cls = g.choice('raised', CLASSES)
    judge(g, look(outer, cls), [h1, h2], cls)
    judge(g, look(inner, cls), [h1, h2], cls)


@harness(functions=[E + 'ExceptionDispatcher.add_exception_handlers', E + 'ExceptionDispatcher.lookup'], budget=80)
def h_apart(g):
    """What is added to a dispatcher later does not get into those that it was made of."""
    h1 = any_handler(g)
    h2 = any_handler(g)
    inner = ExceptionDispatcher([h1])
    outer = ExceptionDispatcher([inner])
    outer.add_exception_handlers(h2)
    cls = g.choice('raised', CLASSES)
    judge(g, look(inner, cls), [h1], cls)
    judge(g, look(outer, cls), [h1, h2], cls)


# another class with the names of Left
Twin = type('Left', (Right,), {'__module__': Left.__module__, '__qualname__': 'Left'})


@harness(functions=[E + 'ExceptionDispatcher.add_exception_handlers', E + 'ExceptionDispatcher.lookup'], budget=80)
def h_twin(g):
    """Classes are told apart by what they are, not by their names."""
    h1 = any_handler(g)
    h2 = handler(g, g.choice('class', [Left, Twin, Right]))
    d = ExceptionDispatcher([h1, h2])
    for cls in g.choice('order', [(Left, Twin), (Twin, Left)]):
        judge(g, look(d, cls), [h1, h2], cls)


@scenario(functions=[E + 'ExceptionDispatcher.lookup'], n=2500,
          note='many handlers, representations given as text')
def s_text(g):
    """With header text: the nearest class with an acceptable handler."""
    hs = []
    for _ in range(g.int('n', 0, 6)):
        hs.append(ExceptionHandler(g.choice('c', CLASSES + [NotFound, HTTPException]), Action(),
                                   content_type=g.opt('ct?', lambda g: g.choice(
                                       'ct', ['text/html', 'application/json'])),
                                   language=g.opt('l?', lambda g: g.choice('l', ['en', 'de']))))
    cls = g.choice('raised', CLASSES + [NotFound, HTTPException])
    accept = g.choice('accept', [None, 'text/html', 'application/json', '*/*', 'image/png'])
    lang = g.choice('lang', [None, 'en', 'de', '*'])
    d = ExceptionDispatcher(hs[:2])
    if g.bool('nest'):
        d.add_exception_handlers(ExceptionDispatcher(hs[2:]))
    else:
        d.add_exception_handlers(*hs[2:])

    def ok(h):
        ct, l = h._content_type, h._language
        return (ct is None or accept in (None, '*/*', ct.value)) and \
            (l is None or lang in (None, '*', l.value))
    want = None
    for c in cls.__mro__:
        good = [h for h in hs if h.exception_class is c and ok(h)]
        if good:
            want = good
            break
    r = d.lookup(cls, accept=accept, accept_language=lang)
    if want is None:
        g.check(r is None, 'unhandled')
    else:
        g.check(any(r is h.action for h in want), 'nearest')
