"""C01 — matching one offered value against an Accept-style header."""
from pyvc.api import *
from verktyg.accept import _base
from verktyg.accept.content_type import ContentType, parse_accept_header
from verktyg.accept.language import Language, parse_accept_language_header
from verktyg.accept.charset import Charset, parse_accept_charset_header
from verktyg.exceptions import NotAcceptable

META = {
    'level': 'proof',
    'files': ['verktyg/accept/_base.py', 'verktyg/accept/content_type.py',
              'verktyg/accept/language.py', 'verktyg/accept/charset.py'],
    'assumptions': ['in the proofs the options of the header are given as objects with a value and a '
                    'quality; turning header text into options is checked natively',
                    'language tags in the proofs have at most three subtags, of arbitrary text'],
}

A = 'verktyg.accept.'
TYPES = ['text', 'application', 'image', '*', 'TEXT', 'a']
SUBS = ['html', 'xml', 'json', '*', 'xhtml+xml', 'vnd.x', 'a']


class Option(object):
    """One option of an Accept header."""
    params = {}

    def __init__(self, value, q, type=None, subtype=None):
        self.value = value
        self.q = q
        self.type = type
        self.subtype = subtype


def quality(g, name='q'):
    return g.real(name, 0, 1, hints=[0.0, 0.1, 0.5, 0.9, 1.0])


def source(g):
    return g.opt('qs?', lambda g: quality(g, 'qs'))


def rank(m):
    """What matches are ordered by."""
    return (m._match_quality, m.quality)


def no_worse(now, entry):
    """Loop invariant: an accumulated match never gets worse."""
    if entry is None:
        return True
    if now is None:
        return False
    if not isinstance(now, _base.Acceptability) or not isinstance(entry, _base.Acceptability):
        return False
    return (now._match_quality, now.quality) >= (entry._match_quality, entry.quality)


def ctype(g, name):
    t = g.str(name + ' type', max=2, alphabet='ab*', hints=TYPES, without='/;, =')
    s = g.str(name + ' sub', max=2, alphabet='ab*', hints=SUBS, without='/;, =')
    return t, s


def ct_option(g):
    t, s = ctype(g, 'option')
    return Option(t + '/' + s, quality(g), t, s)


def ct_rank(t, s, qs, o):
    """None, or ((type matches, subtype matches), quality)."""
    if o.type == t:
        a = True
    elif o.type == '*':
        a = False
    else:
        return None
    if o.subtype == s:
        b = True
    elif o.subtype == '*':
        b = False
    else:
        return None
    return ((a, b), o.q if qs is None else o.q * qs)


def is_match(r, want):
    return (r._match_quality[0] == want[0][0] and r._match_quality[1] == want[0][1] and
            r.quality == want[1])


@harness(functions=[A + 'content_type:ContentType._acceptability_for_option',
                    A + 'content_type:ContentTypeAcceptability.__init__'])
def h_ct_single(g):
    """Against one option a content type matches exactly when type and subtype
    equal the option's or the option has a wildcard there; the match records
    which parts were exact and the product of the qualities."""
    t, s = ctype(g, 'offer')
    qs = source(g)
    o = ct_option(g)
    want = ct_rank(t, s, qs, o)
    r = outcome(lambda: ContentType(t + '/' + s, qs=qs).acceptability([o]))
    if want is None:
        g.check(r[0] == 'exc' and issubclass(r[1], NotAcceptable), 'rejected')
    else:
        g.check(r[0] == 'ok' and is_match(r[1], want), 'matched')
        if r[0] == 'ok':
            g.check(bool(r[1].exact_match) == (want[0][0] and want[0][1]), 'exact')
            g.check(r[1].type_matches == want[0][0] and r[1].subtype_matches == want[0][1], 'parts')


@harness(functions=[A + '_base:Value.acceptability', A + '_base:Acceptability.__gt__'])
def h_ct_none(g):
    """A content type is refused exactly when no option of the header matches it."""
    t, s = ctype(g, 'offer')
    os = g.list('options', ct_option, max=4)
    some = exists(os, lambda o: ct_rank(t, s, None, o) is not None)
    r = outcome(lambda: ContentType(t + '/' + s).acceptability(os))
    if some:
        g.check(r[0] == 'ok', 'accepted')
    else:
        g.check(r[0] == 'exc' and issubclass(r[1], NotAcceptable), 'refused')


@harness(functions=[A + '_base:Value.acceptability', A + '_base:Acceptability.__gt__'],
         invariants=[no_worse], budget=120)
def h_ct_best(g):
    """The match reported is never worse than the match with any single option
    of the header, wherever it stands in the header."""
    t, s = ctype(g, 'offer')
    pre = g.list('pre', ct_option, max=3)
    o = ct_option(g)
    post = g.list('post', ct_option, max=3)
    want = ct_rank(t, s, None, o)
    g.assume(want is not None)
    r = ContentType(t + '/' + s).acceptability(pre + [o] + post)
    g.check((r._match_quality, r.quality) >= want, 'best')


def text_ct(g):
    t, s = ctype(g, 'option')
    q = g.opt('q?', lambda g: g.choice('q', ['0', '0.5', '1', '1.0', '0.333', '2', '-1']))
    return t, s, q


def header(parts):
    return ','.join(v + ('' if q is None else ';q=' + q) for v, q in parts)


def clip(q):
    return 1.0 if q is None else max(0.0, min(1.0, float(q)))


WORD = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'


@scenario(functions=[A + '_base:split_accept_string', A + 'content_type:parse_accept_header'],
          n=4000, note='header text is split and validated with regular expressions')
def s_ct_header(g):
    """The same through header text: the best matching option decides, and the
    order of the options does not matter."""
    n = g.int('n', 1, 4)
    opts = []
    for _ in range(n):
        t = g.choice('t', ['text', 'application', 'a', '*'])
        s = g.choice('s', ['html', 'json', 'b', '*', 'x-y', 'vnd.z', 'xhtml+xml'])
        q = g.opt('q?', lambda g: g.choice('q', ['0', '0.5', '1', '1.0', '0.333', '2', '-1']))
        opts.append((t, s, q))
    ws = g.choice('ws', ['', ' ', '  '])
    text = (',' + ws).join(t + '/' + s + ('' if q is None else ws + ';' + ws + 'q=' + q)
                           for t, s, q in opts)
    t = g.choice('ot', ['text', 'application', 'a'])
    s = g.choice('os', ['html', 'json', 'b', 'x-y', 'vnd.z', 'xhtml+xml'])
    qs = source(g)
    wants = [ct_rank(t, s, qs, Option('', clip(q), a, b)) for a, b, q in opts]
    wants = [w for w in wants if w is not None]
    acc = parse_accept_header(text)
    ct = ContentType(t + '/' + s, qs=qs)
    r = outcome(lambda: ct.acceptability(acc))
    if not wants:
        g.check(r[0] == 'exc' and issubclass(r[1], NotAcceptable), 'refused')
        g.check(ct not in acc, 'not in')
    else:
        g.check(r[0] == 'ok' and r[1]._match_quality == max(wants)[0] and
                r[1].quality == max(wants)[1], 'best')
        g.check(ct in acc, 'in')
    again = parse_accept_header(acc.to_header())
    g.check(same(outcome(lambda: rank(ct.acceptability(again))), outcome(lambda: rank(ct.acceptability(acc)))),
            'header text round trip')


# -- charsets ---------------------------------------------------------------

CS = ['utf-8', 'UTF-8', 'latin1', '*', 'a', '']


def cs_option(g):
    return Option(g.str('value', max=2, alphabet='ab*', hints=CS), quality(g))


def cs_rank(v, qs, o):
    if o.value == '*':
        e = False
    elif o.value == v:
        e = True
    else:
        return None
    return (e, o.q if qs is None else o.q * qs)


@harness(functions=[A + '_base:Value._acceptability_for_option', A + '_base:Value.acceptability',
                    A + 'charset:CharsetAcceptability.__init__'])
def h_cs_none(g):
    """A charset is refused exactly when no option names it or is a wildcard."""
    v = g.str('offer', max=2, alphabet='ab', hints=CS)
    qs = source(g)
    os = g.list('options', cs_option, max=4)
    some = exists(os, lambda o: cs_rank(v, qs, o) is not None)
    r = outcome(lambda: Charset(v, qs=qs).acceptability(os))
    if some:
        g.check(r[0] == 'ok', 'accepted')
    else:
        g.check(r[0] == 'exc' and issubclass(r[1], NotAcceptable), 'refused')


@harness(functions=[A + '_base:Value.acceptability'], invariants=[no_worse])
def h_cs_best(g):
    """The charset match reported is never worse than that with any one option;
    with a single option it is exactly that one."""
    v = g.str('offer', max=2, alphabet='ab', hints=CS)
    qs = source(g)
    o = cs_option(g)
    want = cs_rank(v, qs, o)
    g.assume(want is not None)
    if g.bool('single'):
        r = Charset(v, qs=qs).acceptability([o])
        g.check(r._match_quality == want[0] and r.quality == want[1] and
                bool(r.exact_match) == want[0], 'single')
    else:
        pre = g.list('pre', cs_option, max=3)
        post = g.list('post', cs_option, max=3)
        r = Charset(v, qs=qs).acceptability(pre + [o] + post)
        g.check((r._match_quality and not want[0]) or
                (r._match_quality == want[0] and r.quality >= want[1]), 'best')


# -- languages ----------------------------------------------------------------

LANGS = ['en', 'de', 'gb', 'EN', 'x', 'a']


def tag(g, name):
    """Subtags of a language tag."""
    n = g.choice(name + ' n', [1, 2, 3])
    out = []
    for i in range(n):
        out.append(g.str('%s %d' % (name, i), max=1, alphabet='ab', hints=LANGS, without='-*,;= ',
                         nonempty=True))
    return out


def dashed(parts):
    if len(parts) == 1:
        return parts[0]
    if len(parts) == 2:
        return parts[0] + '-' + parts[1]
    return parts[0] + '-' + parts[1] + '-' + parts[2]


def prefix(a, b):
    """Is the tag a a prefix of the tag b (as lists of subtags)?"""
    if len(a) > len(b):
        return False
    for i in range(len(a)):
        if a[i] != b[i]:
            return False
    return True


def lang_rank(mine, o, q):
    """o: subtags of the option or None for the wildcard."""
    if o is None:
        return (-len(mine), 0), q
    if prefix(o, mine):
        return (len(o) - len(mine), len(o)), q
    return None


@harness(functions=[A + 'language:Language._acceptability_for_option',
                    A + 'language:LanguageAcceptability.__init__'], n=3000)
def h_lang_single(g):
    """A language matches an option that is the wildcard, the same tag, or a
    prefix of whole subtags; the rank counts matched and unmatched subtags."""
    mine = tag(g, 'offer')
    star = g.bool('star')
    o = None if star else tag(g, 'option')
    q = quality(g)
    want = lang_rank(mine, o, q)
    r = outcome(lambda: Language(dashed(mine)).acceptability(
        [Option('*' if o is None else dashed(o), q)]))
    if want is None:
        g.check(r[0] == 'exc' and issubclass(r[1], NotAcceptable), 'refused')
    else:
        g.check(r[0] == 'ok' and r[1]._match_quality == want[0] and r[1].quality == q, 'matched')
        if r[0] == 'ok':
            g.check(r[1].tail == -want[0][0] and r[1].specificity == want[0][1], 'parts')
            g.check(bool(r[1].exact_match) == (want[0][0] == 0), 'exact')


@scenario(functions=[A + 'language:parse_accept_language_header', A + '_base:Value.acceptability'],
          n=4000, note='header text is split and validated with regular expressions')
def s_lang_header(g):
    """Through header text the best option decides, whatever its position."""
    n = g.int('n', 1, 4)
    opts = []
    for _ in range(n):
        k = g.choice('k', [0, 1, 2, 3])
        parts = None if k == 0 else [g.choice('p', ['en', 'gb', 'de', 'x']) for _ in range(k)]
        q = g.opt('q?', lambda g: g.choice('q', ['0', '0.5', '1', '0.25']))
        opts.append((parts, q))
    text = ', '.join(('*' if p is None else '-'.join(p)) + ('' if q is None else ';q=' + q)
                     for p, q in opts)
    mine = [g.choice('p', ['en', 'gb', 'de', 'x']) for _ in range(g.int('m', 1, 3))]
    wants = [w for w in (lang_rank(mine, p, clip(q)) for p, q in opts) if w is not None]
    r = outcome(lambda: Language('-'.join(mine)).acceptability(parse_accept_language_header(text)))
    if wants:
        g.check(r[0] == 'ok' and (r[1]._match_quality, r[1].quality) == max(wants), 'best')
    else:
        g.check(r[0] == 'exc' and issubclass(r[1], NotAcceptable), 'refused')


@scenario(functions=[A + 'charset:parse_accept_charset_header'], n=1500,
          note='header text is split and validated with regular expressions')
def s_cs_header(g):
    """The same for charsets."""
    opts = []
    for _ in range(g.int('n', 1, 4)):
        opts.append((g.choice('p', ['utf-8', 'latin1', '*', 'a']),
                     g.opt('q?', lambda g: g.choice('q', ['0', '0.5', '1', '0.25']))))
    v = g.choice('v', ['utf-8', 'latin1', 'a', 'b'])
    wants = [w for w in (cs_rank(v, None, Option(p, clip(q))) for p, q in opts) if w is not None]
    acc = parse_accept_charset_header(header(opts))
    r = outcome(lambda: Charset(v).acceptability(acc))
    if wants:
        g.check(r[0] == 'ok' and (r[1]._match_quality, r[1].quality) == max(wants), 'best')
    else:
        g.check(r[0] == 'exc' and issubclass(r[1], NotAcceptable), 'refused')
