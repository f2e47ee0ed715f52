"""C35 — what an accept header said is kept and can be written again."""
from pyvc.api import *
from verktyg.accept import _base
from verktyg.accept.charset import Charset, CharsetAccept, parse_accept_charset_header, parse_charset_header
from verktyg.accept.content_type import (
    ContentType, ContentTypeAccept, parse_accept_header, parse_content_type_header,
)
from verktyg.accept.language import Language, LanguageAccept, parse_accept_language_header, parse_language_header
from verktyg.exceptions import NotAcceptable

META = {
    'level': 'proof',
    'files': ['verktyg/accept/_base.py', 'verktyg/accept/content_type.py', 'verktyg/accept/language.py',
              'verktyg/accept/charset.py'],
    'assumptions': ['in the proofs the regular expressions that values must match accept every value; they are evaluated natively'],
}

A = 'verktyg.accept.'
R = A + '_base:Range.'
KINDS = {'type': ContentTypeAccept, 'language': LanguageAccept, 'charset': CharsetAccept}
READ = {'type': parse_accept_header, 'language': parse_accept_language_header, 'charset': parse_accept_charset_header}


def anything(self, value):
    return None


VALID = [Contract(R + '_validate_value', anything), Contract(A + 'content_type:_ContentTypeRange._validate_value', anything)]


def plain(g, name):
    return g.str(name, max=3, only='a-z', nonempty=True)


def value_of(g, kind):
    return plain(g, 'type') + '/' + plain(g, 'subtype') if kind == 'type' else plain(g, 'value')


@harness(functions=[R + '__init__', A + 'language:_LanguageRange._validate_param', A + 'charset:_CharsetRange._validate_param',
                    A + 'content_type:_ContentTypeRange.type', A + 'content_type:_ContentTypeRange.subtype'], uses=VALID)
def h_option(g):
    """An option has the value and the parameters it was given and a quality from nought to one."""
    kind = g.choice('kind', ['type', 'language', 'charset'])
    value = value_of(g, kind)
    q = g.real('q', -2, 2, hints=[0.0, 1.0, 0.5])
    d = {}
    for k in g.choice('params', [(), ('a',), ('a', 'b')]):
        d[k] = g.str('value of ' + k, max=3, without=',;=')
    r = outcome(lambda: KINDS[kind].range_type(value, q, d))
    if kind != 'type' and len(d) > 0:
        g.check(r[0] == 'exc' and issubclass(r[1], ValueError), 'no parameters')
        return
    g.check(r[0] == 'ok', 'accepted')
    o = r[1]
    g.check(o.value == value, 'value')
    g.check(o.q == (0.0 if q < 0 else 1.0 if q > 1 else q), 'quality')
    g.check(dict(o.params) == d, 'parameters')
    d['c'] = 'later'
    g.check('c' not in o.params, 'parameters kept')
    if kind == 'type':
        g.check(o.type + '/' + o.subtype == value and '/' not in o.type and '/' not in o.subtype, 'parts')


def given(g, kind):
    """An option as it may be given: a value or a tuple with a quality and parameters; and what it must become."""
    v = value_of(g, kind)
    how = g.choice('how', ['value', 'tuple', 'quality', 'parameters'])
    if how == 'value':
        return v, (v, 1.0)
    if how == 'tuple':
        return (v,), (v, 1.0)
    q = g.real('q', 0, 1, hints=[0.0, 1.0, 0.5])
    if how == 'quality':
        return (v, q), (v, q)
    return (v, q, {}), (v, q)


@harness(functions=[A + '_base:Accept.__init__', A + '_base:Accept.__iter__', R + '__init__'], uses=VALID)
def h_options(g):
    """A header holds one option for each it was given, in order."""
    kind = g.choice('kind', ['type', 'language', 'charset'])
    os = g.list('options', lambda g: given(g, kind), max=4)
    a = KINDS[kind]([o[0] for o in os])
    g.check(same([(o.value, o.q) for o in a], [o[1] for o in os]), 'options')
    g.check(same([(o.value, o.q) for o in a], [o[1] for o in os]), 'options again')


class Offer(object):
    """Something that is accepted or not."""
    def __init__(self, match, accept):
        self.match = match
        self.accept = accept
        self.asked = []

    def acceptability(self, accept):
        self.asked.append(accept)
        if self.match is None:
            raise NotAcceptable()
        return self.match


@harness(functions=[A + '_base:Accept.__contains__', A + '_base:Accept.__getitem__'])
def h_lookup(g):
    """An offer is in the header exactly if it is acceptable; looking it up gives how it matches."""
    kind = g.choice('kind', ['type', 'language', 'charset'])
    a = KINDS[kind]([])
    match = g.tok('match') if g.bool('acceptable') else None
    o = Offer(match, a)
    g.check((o in a) == (match is not None), 'in')
    r = outcome(lambda: a[o])
    if match is None:
        g.check(r[0] == 'exc' and issubclass(r[1], KeyError), 'KeyError')
    else:
        g.check(r == ('ok', match), 'match')
    g.check(len(o.asked) > 0 and all(x is a for x in o.asked), 'asked about this header')


@harness(functions=[A + '_base:Accept.to_header', R + 'to_header', A + '_base:Accept.__str__', R + '__str__'], uses=VALID)
def h_written(g):
    """A header is written as its options, an option as its value with its parameters."""
    kind = g.choice('kind', ['type', 'language', 'charset'])
    os = g.list('options', lambda g: value_of(g, kind), max=4)
    extra = g.opt('parameter', lambda g: plain(g, 'param value')) if kind == 'type' else None
    a = KINDS[kind](os if extra is None else os + [('a/b', 1.0, {'p': extra})])
    want = os if extra is None else os + ['a/b;p=' + extra]
    g.check(a.to_header() == ','.join(want), 'header')
    g.check(str(a) == a.to_header(), 'text')


@harness(functions=[A + '_base:Value.to_header', A + 'content_type:ContentType.to_header', A + '_base:Value.__init__',
                    A + 'content_type:parse_content_type_header', A + 'language:parse_language_header',
                    A + 'charset:parse_charset_header'])
def h_value(g):
    """What is offered is written as it was read."""
    kind = g.choice('kind', ['type', 'language', 'charset'])
    v = value_of(g, kind)
    o = {'type': parse_content_type_header, 'language': parse_language_header, 'charset': parse_charset_header}[kind](v)
    g.check(o.value == v and o.to_header() == v and str(o) == v, 'value')
    g.check(o.qs is None, 'quality')
    if kind == 'type':
        qs = g.real('qs', 0, 1)
        g.check(parse_content_type_header(v, qs=qs).qs == qs, 'given quality')


# -- native -------------------------------------------------------------------

QS = [None, '1', '1.0', '0', '0.5', '0.333', '.5', '0.0001', '1e-7', '0.00001', '3', '-1', 'inf', '-inf', ' 0.25 ']
VALUES = {
    'type': ['text/html', '*/*', 'text/*', 'application/xhtml+xml', 'application/vnd.a+json', 'a/b'],
    'language': ['en', 'en-GB', '*', 'zh-Hant-TW', 'de'],
    'charset': ['utf-8', '*', 'iso-8859-1', 'ascii'],
}


@scenario(functions=[A + '_base:split_accept_string', A + '_base:Accept.to_header', R + 'to_header', R + '__init__',
                     R + '_validate_value', A + 'content_type:_ContentTypeRange._validate_value',
                     A + 'content_type:parse_accept_header', A + 'language:parse_accept_language_header',
                     A + 'charset:parse_accept_charset_header'], n=4000, note='header text')
def s_text(g):
    """A header is read as its options, and what is written is read as the same options."""
    kind = g.choice('kind', ['type', 'language', 'charset'])
    space = g.choice('space', ['', ' '])
    want, text = [], []
    for _ in range(g.int('options', 1, 4)):
        v, q = g.choice('value', VALUES[kind]), g.choice('q', QS)
        params = {}
        if kind == 'type':
            for _ in range(g.int('params', 0, 2)):
                params[g.choice('param', ['level', 'charset', 'x', 'Q'])] = g.choice('param value', ['1', 'a b', '', 'a=b'])
        bits = ['%s%s=%s%s' % (space, k, space, x) for k, x in params.items()]
        if q is not None:
            bits.insert(g.int('at', 0, len(bits)), space + 'q=' + q)
        text.append(space + ';'.join([v] + bits))
        want.append((v, 1.0 if q is None else max(0.0, min(1.0, float(q))), params))
    a = READ[kind](','.join(text))
    g.check(isinstance(a, KINDS[kind]), 'kind')
    g.check([(o.value, o.q, dict(o.params)) for o in a] == want, 'read')
    b = READ[kind](a.to_header())
    g.check([(o.value, o.q, dict(o.params)) for o in b] == want, 'read again')
    g.check(str(b) == str(a), 'text')


@scenario(functions=[A + '_base:split_accept_string', R + '__init__', R + '_validate_value',
                     A + 'content_type:_ContentTypeRange._validate_value'], n=2500, note='header text')
def s_malformed(g):
    """A header that cannot be read is a ValueError, whichever of its options is wrong."""
    kind = g.choice('kind', ['type', 'language', 'charset'])
    options = [g.choice('option', VALUES[kind]) for _ in range(g.int('options', 0, 3))]
    bad = [';', 'a/b;x', '!', '', '=', '?/a', 'a/b;q=x', 'en;q=', 'a/b;q=nan', '*;q=nan', ';q=1']
    bad += {'type': ['text', '*', '/', '/b', 'a b'], 'language': ['en;x=1', '/a'], 'charset': ['utf-8;x=1', '/a']}[kind]
    options.insert(g.int('at', 0, len(options)), g.choice('bad', bad))
    r = outcome(lambda: READ[kind](','.join(options)))
    g.check(r[0] == 'exc' and issubclass(r[1], ValueError), 'ValueError')
