"""C02 — choosing between the representations a server offers."""
from pyvc.api import *
from verktyg.accept import Representation, select_representation
from verktyg.accept import _base
from verktyg.exceptions import NotAcceptable

META = {
    'level': 'proof',
    'files': ['verktyg/accept/__init__.py', 'verktyg/accept/_base.py'],
    'assumptions': ['in the proofs the match of each dimension is arbitrary (an arbitrary rank or a '
                    'refusal) and comes from a stand-in dimension object; matching itself is C01'],
}

A = 'verktyg.accept:'


class Header(object):
    """Stands for one parsed Accept header."""


ACCEPT = Header()
LANGUAGE = Header()
CHARSET = Header()


class Dim(object):
    """A content type, language or charset whose match is already decided."""
    def __init__(self, header, ok, match, q):
        self.header = header
        self.ok = ok
        self.match = match
        self.q = q

    def acceptability(self, accept):
        if accept is not self.header:
            raise TypeError('matched against the wrong header')
        if not self.ok:
            raise NotAcceptable()
        return _base.Acceptability(self, match_quality=self.match, q=self.q)


def dim(g, name, header):
    return Dim(header, g.bool(name + ' ok'), g.int(name + ' match', hints=[0, 1]),
               g.real(name + ' q', 0, 1, hints=[0.0, 0.5, 1.0]))


def rep(g):
    return offer(g, g.opt('ct?', lambda g: dim(g, 'ct', ACCEPT)),
                 g.opt('lang?', lambda g: dim(g, 'lang', LANGUAGE)),
                 g.opt('cs?', lambda g: dim(g, 'cs', CHARSET)))


def offer(g, ct, lang, cs):
    qs = g.real('qs', 0, 1, hints=[0.0, 0.5, 1.0])
    r = Representation(content_type=ct, language=lang, charset=cs, qs=qs)
    r.rank = (drank(ct), drank(lang), drank(cs), qs)
    r.ok = both(ct is None or ct.ok, lang is None or lang.ok, cs is None or cs.ok)
    return r


def drank(d):
    if d is None:
        return (0, 0, 0)
    return (1, d.match, d.q)


def plain(g):
    """An offer in which only one dimension matters."""
    return offer(g, dim(g, 'ct', ACCEPT), None, None)


def select(reps):
    return select_representation(reps, accept=ACCEPT, accept_language=LANGUAGE,
                                 accept_charset=CHARSET)


@harness(functions=[A + 'Representation.__init__', A + 'Representation.acceptability',
                    A + 'select_representation'])
def h_one(g):
    """A single offer is chosen exactly when none of its dimensions is refused
    by its own header."""
    r = rep(g)
    o = outcome(lambda: select([r]))
    if r.ok:
        g.check(o[0] == 'ok' and o[1] is r, 'chosen')
    else:
        g.check(o[0] == 'exc' and issubclass(o[1], NotAcceptable), 'refused')


@harness(functions=[A + 'Acceptability.__gt__', A + 'Acceptability.__eq__'], budget=120,
         max_paths=20000)
def h_two(g):
    """Of two acceptable offers the better is chosen: by content type, then
    language, then charset, then source quality."""
    a = rep(g)
    b = rep(g)
    g.assume(a.ok)
    g.assume(b.ok)
    r = select([a, b])
    if a.rank > b.rank:
        g.check(r is a, 'first is better')
    elif b.rank > a.rank:
        g.check(r is b, 'second is better')
    else:
        g.check(r is a or r is b, 'either')


def acceptable(now, entry):
    """Loop invariant: what is kept is acceptable."""
    return now is None or not hasattr(now, 'ok') or now.ok


@harness(functions=[A + 'select_representation'], invariants=[acceptable])
def h_none(g):
    """No offer is chosen exactly when none is acceptable; the chosen one is
    acceptable."""
    rs = g.list('offers', plain, max=4)
    some = exists(rs, lambda r: r.ok)
    o = outcome(lambda: select(rs))
    if some:
        g.check(o[0] == 'ok', 'chosen')
        if o[0] == 'ok':
            g.check(o[1].ok, 'chosen is acceptable')
    else:
        g.check(o[0] == 'exc' and issubclass(o[1], NotAcceptable), 'refused')


def agree(r, a, _):
    """Loop invariant: the offer kept and the match kept belong together."""
    if r is None or a is None:
        return r is None and a is None
    if not isinstance(r, Representation):
        return False
    return same(r.rank[0][1:], (a._content_type_acceptability._match_quality,
                                a._content_type_acceptability.quality)) and same(r.rank[3], a._qs)


def no_worse(now, entry):
    if entry is None or now is None:
        return entry is None
    if not hasattr(entry, 'rank') or not hasattr(now, 'rank'):
        return False
    return now.rank >= entry.rank


@harness(functions=[A + 'select_representation'], invariants=[agree, no_worse], budget=60)
def h_best(g):
    """The chosen offer is never worse than any acceptable offer, wherever that
    stands in the list, and is one of the offers."""
    pre = g.list('pre', plain, max=3)
    x = plain(g)
    post = g.list('post', plain, max=3)
    g.assume(x.ok)
    rs = pre + [x] + post
    r = select(rs)
    g.check(r.rank >= x.rank, 'best')
    g.check(exists(rs, lambda y: y is r), 'one of the offers')


@scenario(functions=[A + 'select_representation'], n=4000,
          note='all four dimensions, several offers and the headers as text')
def s_text(g):
    """End to end with header text: the best acceptable offer is chosen."""
    from verktyg.accept.content_type import parse_accept_header
    from verktyg.accept.language import parse_accept_language_header
    from verktyg.accept.charset import parse_accept_charset_header

    def q(g):
        v = g.choice('q', [None, '0.1', '0.5', '0.9', '1'])
        return '' if v is None else ';q=' + v

    def head(g, name, values):
        n = g.int(name, 0, 3)
        return None if n == 0 else ','.join(g.choice('v', values) + q(g) for _ in range(n))
    cts = ['text/html', 'text/plain', 'application/json']
    langs = ['en', 'en-gb', 'de']
    css = ['utf-8', 'latin1']
    ha = head(g, 'accept', cts + ['text/*', '*/*'])
    hl = head(g, 'language', langs + ['*'])
    hc = head(g, 'charset', css + ['*'])
    reps = []
    for _ in range(g.int('offers', 0, 4)):
        reps.append(Representation(
            content_type=g.opt('ct?', lambda g: g.choice('ct', cts)),
            language=g.opt('l?', lambda g: g.choice('l', langs)),
            charset=g.opt('c?', lambda g: g.choice('c', css)),
            qs=g.opt('qs?', lambda g: g.choice('qs', [0.2, 0.5, 1.0]))))
    pa = parse_accept_header(ha or '*/*')
    pl = parse_accept_language_header(hl or '*')
    pc = parse_accept_charset_header(hc or '*')

    def d(v, acc):
        if v is None:
            return (0,)
        m = v.acceptability(acc)
        return (1, m._match_quality, m.quality)
    ranks = []
    for r in reps:
        try:
            ranks.append((d(r._content_type, pa), d(r._language, pl), d(r._charset, pc), r._qs))
        except NotAcceptable:
            ranks.append(None)
    given = {'accept': ha, 'accept_language': hl, 'accept_charset': hc}
    if g.bool('left out'):
        given = {k: v for k, v in given.items() if v is not None}
    o = outcome(lambda: select_representation(reps, **given))
    ok = [x for x in ranks if x is not None]
    if not ok:
        g.check(o[0] == 'exc' and issubclass(o[1], NotAcceptable), 'refused')
    else:
        g.check(o[0] == 'ok' and any(o[1] is r and k == max(ok) for r, k in zip(reps, ranks)), 'best')
