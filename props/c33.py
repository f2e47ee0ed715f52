"""C33 — errors carry their status."""
from pyvc.api import *
from verktyg import exceptions
from verktyg.exceptions import (
    Aborter, BadRequest, BadRequestKeyError, Conflict, HTTPException, MethodNotAllowed, NotFound, abort,
    default_exceptions,
)
from http import HTTPStatus

META = {
    'level': 'proof',
    'files': ['verktyg/exceptions.py'],
    'assumptions': [],
}

E = 'verktyg.exceptions:'


class Teapot(HTTPException):
    code = 418
    description = 'short and stout'


class Odd(HTTPException):
    code = 799


CLASSES = [BadRequest, NotFound, MethodNotAllowed, Conflict, Teapot, Odd, HTTPException]


def caught(f):
    try:
        f()
    except LookupError as e:
        return e
    except HTTPException as e:
        return e
    return None


@harness(functions=[E + 'Aborter.__init__', E + 'Aborter.__call__', E + 'HTTPException.__init__'])
def h_abort(g):
    """Aborting with a code raises the error of that code with what was given; other codes are an error of the program."""
    base = {400: BadRequest, 404: NotFound, 409: Conflict}
    extra = g.choice('extra', [None, {}, {404: Teapot}, {418: Teapot, 799: Odd}])
    given = dict(base)
    a = Aborter(given, extra) if extra is not None or g.bool('say so') else Aborter(given)
    table = dict(base)
    if extra is not None:
        table.update(extra)
    code = g.int('code')
    how = g.choice('how', ['plain', 'description', 'keyword', 'response'])
    d = g.tok('description')
    if how == 'plain':
        e = caught(lambda: a(code))
    elif how == 'description':
        e = caught(lambda: a(code, d))
    elif how == 'keyword':
        e = caught(lambda: a(code, description=d))
    else:
        e = caught(lambda: a(code, response=d))
    if code in table:
        g.check(type(e) is table[code], 'class')
        want = d if how in ('description', 'keyword') else table[code].description
        g.check(e.description == want, 'description')
        g.check(e.response == (d if how == 'response' else None), 'response')
    else:
        g.check(type(e) is LookupError, 'unknown code')
    g.check(same(given, base), 'mapping not changed')


class Wsgi(object):
    """A response of the program's own."""


@harness(functions=[E + 'Aborter.__call__', E + 'HTTPException.__init__'])
def h_abort_response(g):
    """Aborting with a response raises an error that carries it."""
    r = Wsgi()
    e = caught(lambda: Aborter({404: NotFound})(r))
    g.check(type(e) is HTTPException and e.response is r, 'response')


@harness(functions=[E + 'HTTPException.__init__', E + 'HTTPException.name', E + 'HTTPException.__str__',
                    E + 'MethodNotAllowed.__init__'])
def h_error(g):
    """An error has the description given or that of its class, its code and the name of that code."""
    cls = g.choice('class', CLASSES)
    own = cls.description
    d = g.opt('description', lambda g: g.str('given', max=5))
    r = g.opt('response', lambda g: g.tok('given response'))
    m = g.opt('methods', lambda g: g.tok('given methods'))
    if cls is MethodNotAllowed:
        e = cls(m, d)
        g.check(e.valid_methods == m, 'methods')
    elif r is None:
        e = cls(d) if g.bool('say so') else cls(description=d)
    else:
        e = cls(d, r)
    g.check(e.description == (d if d is not None else own), 'description')
    g.check(e.response == (None if cls is MethodNotAllowed else r), 'response')
    g.check(cls.description == own, 'class not changed')
    g.check(e.code == cls.code, 'code')
    if cls is not HTTPException:
        names = {400: 'Bad Request', 404: 'Not Found', 405: 'Method Not Allowed', 409: 'Conflict',
                 418: "I'm a teapot", 799: 'Unknown Error'}
        g.check(e.name == names[cls.code], 'name')
        g.check(str(e) == str(cls.code) + ': ' + names[cls.code], 'text')


# -- native -------------------------------------------------------------------

ALL = sorted((c for c in vars(exceptions).values() if isinstance(c, type) and issubclass(c, HTTPException)
              and c.code is not None and c is not BadRequestKeyError), key=lambda c: (c.code, c.__name__))
KEYS = {KeyError, IndexError, ValueError, TypeError, AttributeError}


@scenario(functions=[E + 'HTTPException.wrap', E + 'HTTPException.name', E + 'HTTPException.__init__'], n=2000,
          note='classes made at run time')
def s_wrap(g):
    """A wrapped error is caught as either of the two, and has the code of the one and the argument of the other."""
    cls = g.choice('class', [c for c in ALL if c is not MethodNotAllowed])
    other = g.choice('exception', sorted(KEYS, key=repr))
    name = g.choice('name', [None, 'Mine'])
    new = cls.wrap(other, name) if name or g.bool('say so') else cls.wrap(other)
    g.check(issubclass(new, cls) and issubclass(new, other) and new not in (cls, other), 'both')
    g.check(new.__name__ == (name or cls.__name__ + other.__name__), 'name')
    g.check(new.code == cls.code and new.description == cls.description, 'class')
    arg = g.choice('argument', ['k', 0, None, ('a', 1)])
    e = new(arg) if arg is not None or g.bool('say none') else new()
    g.check(e.args == (arg,) and e.description == cls.description and e.response is None, 'argument')
    f = new(arg, 'described', 'r') if g.bool('positional') else new(arg, description='described', response='r')
    g.check(f.args == (arg,) and f.description == 'described' and f.response == 'r', 'more')
    for c in (cls, other, HTTPException):
        try:
            raise e
        except c as x:
            g.check(x is e, 'caught')
    # another one of the same name
    base = g.choice('base', sorted(KEYS, key=repr))
    same_name = type(other.__name__, (base,), {})
    newer = cls.wrap(same_name, name)
    g.check(issubclass(newer, same_name) and not issubclass(new, same_name), 'its own')
    g.check(issubclass(newer, other) == issubclass(base, other), 'not the other')
    g.check(newer.code == cls.code and newer.__name__ == new.__name__, 'like the other')
    if not cls.code == 404:
        g.check(NotFound.wrap(other, name).code == 404 and new.code == cls.code, 'other code')


@scenario(functions=[E + 'Aborter.__call__', E + '_find_exceptions', E + 'BadRequestKeyError.__init__'], n=1500,
          note='the table of all codes')
def s_table(g):
    """There is one error for each code, the most general one, and it is what abort raises."""
    code = g.choice('code', sorted({c.code for c in ALL}) + [200, 302, 399, 418, 599, 0, -1])
    of = [c for c in ALL if c.code == code]
    if of:
        top = default_exceptions[code]
        g.check(top in of and all(issubclass(c, top) for c in of), 'most general')
        e = caught(lambda: abort(code))
        g.check(type(e) is top, 'abort')
        d = caught(lambda: abort(code, description='d'))
        g.check(type(d) is top and d.description == 'd', 'described')
        g.check(e.code == code and str(e) == '%d: %s' % (code, e.name), 'text')
        phrase = HTTPStatus(code).phrase
        loose = {413: 'Request Entity Too Large', 414: 'Request URI Too Long', 418: "I'm a teapot",
                 416: 'Requested Range Not Satisfiable', 422: 'Unprocessable Entity'}
        g.check(e.name == loose.get(code, phrase), 'name')
        g.check(e.description, 'description')
        for c in of:
            g.check(c.__name__ in exceptions.__all__, 'exported')
    else:
        g.check(code not in default_exceptions and type(caught(lambda: abort(code))) is LookupError, 'unknown')
    e = caught(lambda: (_ for _ in ()).throw(BadRequestKeyError('k')))
    g.check(isinstance(e, KeyError) and isinstance(e, BadRequest) and e.args == ('k',) and e.code == 400, 'key error')
