"""C26 — views of headers and the headers stay in step."""
import datetime
from pyvc.api import *
from verktyg.datastructures import CallbackDict
from verktyg.http import (
    ContentRange, Headers, RequestCacheControl, ResponseCacheControl, parse_cache_control_header,
    parse_content_range_header, parse_dict_header, parse_options_header, parse_set_header, parse_www_authenticate_header,
)
from verktyg.responses import Response
from verktyg.utils import cached_property, header_property

META = {
    'level': 'proof',
    'files': ['verktyg/datastructures.py', 'verktyg/http/cache_control.py', 'verktyg/http/auth.py',
              'verktyg/responses.py', 'verktyg/utils.py'],
    'assumptions': ['reading and writing of the header values is checked under C16, C17 and C20'],
}

D = 'verktyg.datastructures:UpdateDictMixin.'
CC = 'verktyg.http.cache_control:_CacheControl.'
CR = 'verktyg.http.cache_control:ContentRange.'
U = 'verktyg.utils:'
R = 'verktyg.responses:'
W = 'verktyg.http.auth:WWWAuthenticate.'
WHEN = datetime.datetime(2013, 3, 5, 10, 20, 30)
KEYS = ['a', 'b', 'max-age', '']


class Owner(object):
    """Remembers what the dict held whenever it was told of a change."""
    def __init__(self):
        self.seen = []
        self.who = []

    def __call__(self, d):
        self.seen.append(dict(d))
        self.who.append(d)


def attempt(f):
    """(value, exception type)"""
    try:
        return f(), None
    except KeyError:
        return None, KeyError
    except TypeError:
        return None, TypeError


def run(op, d, k, v):
    if op == 'set':
        d[k] = v
    elif op == 'del':
        del d[k]
    elif op == 'setdefault':
        return d.setdefault(k, v)
    elif op == 'setdefault none':
        return d.setdefault(k)
    elif op == 'pop':
        return d.pop(k)
    elif op == 'pop default':
        return d.pop(k, v)
    elif op == 'clear':
        return d.clear()
    elif op == 'update':
        return d.update({k: v})
    elif op == 'update pairs':
        return d.update([(k, v)])
    elif op == 'or':
        d |= {k: v}
    return None


OPS = ['set', 'del', 'setdefault', 'setdefault none', 'pop', 'pop default', 'clear', 'update', 'update pairs', 'or']


@harness(functions=[D + 'setdefault', D + 'pop', D + 'calls_update', 'verktyg.datastructures:CallbackDict.__init__'])
def h_callback(g):
    """A callback dict is a dict that tells its owner of every change once it is made."""
    start = g.dict('start', lambda g: g.str('key', max=2, hints=KEYS), lambda g: g.tok('value'), max=3)
    plain = dict(start)
    before = dict(start)
    owner = Owner()
    d = CallbackDict(start, owner)
    g.check(owner.seen == [], 'not told of the start')
    k = g.str('k', max=2, hints=KEYS)
    v = g.tok('v')
    op = g.choice('op', OPS)
    want = attempt(lambda: run(op, plain, k, v))
    got = attempt(lambda: run(op, d, k, v))
    g.check(want[1] is got[1], 'same outcome')
    g.check(want[0] == got[0], 'same value')
    g.check(same(dict(d), plain), 'same content')
    if len(plain) != len(before) or k in plain and plain[k] != before[k]:
        g.check(len(owner.seen) == 1, 'told once')
    if len(owner.seen) > 0:
        g.check(same(owner.seen[0], plain), 'told when changed')
        g.check(owner.who[0] is d, 'told who')


FLAGS = ['no_store', 'public', 'must_revalidate', 'proxy_revalidate', 'no_transform']
VALUES = ['max_age', 'no_cache', 'private', 's_maxage']
EMPTY = {'max_age': -1, 'no_cache': '*', 'private': '*', 's_maxage': None}


@harness(functions=[CC + '__init__', CC + '_get_cache_value', CC + '_set_cache_value', CC + '_del_cache_value'])
def h_directives(g):
    """Each directive is read as it was set, without touching the others; the owner is told."""
    name = g.choice('name', FLAGS + VALUES)
    key = name.replace('_', '-')
    start = {}
    if g.bool('given'):
        start[key] = None
    if g.bool('another'):
        start[g.choice('other', FLAGS + VALUES).replace('_', '-')] = None
    plain = dict(start)
    owner = Owner()
    cc = ResponseCacheControl(start, owner)
    flag = name in FLAGS
    op = g.choice('op', ['true', 'false', 'none', 'value', 'delete'])
    n = g.int('value')
    if op == 'delete':
        delattr(cc, name)
    elif op == 'true':
        setattr(cc, name, True)
    elif op == 'none':
        setattr(cc, name, None)
    elif flag or op == 'false':
        g.assume(flag)
        setattr(cc, name, op == 'value')
    else:
        setattr(cc, name, n)
    if op in ('true', 'value'):
        plain[key] = n if op == 'value' and not flag else None
    else:
        plain.pop(key, None)
    g.check(same(dict(cc), plain), 'content')
    g.check(len(owner.seen) <= 1, 'told once at most')
    if not same(plain, start):
        g.check(len(owner.seen) == 1 and same(owner.seen[0], plain), 'told')
    for other in FLAGS:
        g.check(getattr(cc, other) is (other.replace('_', '-') in plain), 'flag')
    for other in VALUES:
        k = other.replace('_', '-')
        want = None if k not in plain else EMPTY[other] if plain[k] is None else plain[k]
        g.check(getattr(cc, other) == want, 'value')


ASKED = [('max_age', -1), ('max_stale', '*'), ('min_fresh', '*')]
ASKED_FLAGS = ['no_store', 'no_transform', 'only_if_cached']


@harness(functions=[CC + '_get_cache_value', CC + '__init__'])
def h_request_directives(g):
    """What a request asks of caches is read by the name of the directive."""
    n = g.int('n', 0)
    m = g.int('m', 0)
    start = {}
    first = g.choice('first', ['none', 'empty', 'number', 'text'])
    name = g.choice('name', ['max_age', 'max_stale', 'min_fresh', 'no_store', 'no_transform', 'only_if_cached',
                             'no_cache'])
    if first != 'none':
        start[name.replace('_', '-')] = {'empty': None, 'number': str(n), 'text': 'x'}[first]
    if g.bool('another'):
        start[g.choice('other', ['max-stale', 'no-store', 'private'])] = str(m)
    cc = RequestCacheControl(start)
    for attr, empty in ASKED:
        key = attr.replace('_', '-')
        v = start.get(key)
        want = None if key not in start else empty if v is None else 'x' if v == 'x' else int(v)
        g.check(same(getattr(cc, attr), want), 'value')
    for attr in ASKED_FLAGS:
        g.check(getattr(cc, attr) is (attr.replace('_', '-') in start), 'flag')
    v = start.get('no-cache')
    g.check(same(cc.no_cache, None if 'no-cache' not in start else '*' if v is None else v), 'no_cache')


@harness(functions=[CR + '__init__', CR + 'set', CR + 'unset', CR + '__nonzero__'])
def h_content_range(g):
    """Every change of a content range is told when it is made; making one tells nothing."""
    start, stop, length = g.int('start'), g.int('stop'), g.int('length')
    g.assume(0 <= start and start < stop and stop <= length)
    calls = []

    def owner(r):
        calls.append((r.units, r.start, r.stop, r.length))
    r = ContentRange('bytes', start, stop, length, on_update=owner)
    g.check(calls == [], 'not told of the start')
    op = g.choice('op', ['set', 'unset', 'start', 'stop', 'length', 'units', 'unknown length'])
    a, b, n = g.int('a'), g.int('b'), g.int('n')
    if op == 'set':
        g.assume(0 <= a and a < b and b <= n)
        r.set(a, b, n)
        want = ('bytes', a, b, n)
    elif op == 'unknown length':
        g.assume(0 <= a and a < b)
        r.set(a, b)
        want = ('bytes', a, b, None)
    elif op == 'unset':
        r.unset()
        want = (None, None, None, None)
    elif op == 'start':
        r.start = a
        want = ('bytes', a, stop, length)
    elif op == 'stop':
        r.stop = a
        want = ('bytes', start, a, length)
    elif op == 'length':
        r.length = a
        want = ('bytes', start, stop, a)
    else:
        r.units = 'x'
        want = ('x', start, stop, length)
    g.check((r.units, r.start, r.stop, r.length) == want, 'as set')
    g.check(calls == [want], 'told')
    g.check(bool(r) == (op != 'unset'), 'truth')


class Thing(object):
    plain = header_property('X-Plain')
    number = header_property('X-Number', -1, int, str)
    fixed = header_property('X-Fixed', 'none', read_only=True)
    listed = header_property('X-Plain', None, lambda v: [v], lambda v: v[0])

    def __init__(self, headers):
        self.headers = headers


@harness(functions=[U + 'header_property.__get__', U + 'header_property.__set__', U + 'header_property.__delete__'])
def h_property(g):
    """A header property is its header, converted; without one it is the default."""
    given = g.choice('given', [[], ['X-Plain'], ['x-number', 'X-Other'], ['X-Plain', 'X-NUMBER', 'x-fixed']])
    v = g.int('old', 0)
    h = Headers([(n, str(v)) for n in given] + [('X-Last', 'l')])
    have = [n.lower() for n in given]
    t = Thing(h)
    g.check(t.plain == (str(v) if 'x-plain' in have else None), 'plain')
    g.check(t.number == (v if 'x-number' in have else -1), 'number')
    g.check(t.fixed == (str(v) if 'x-fixed' in have else 'none'), 'fixed')
    n = g.int('new', 0)
    t.number = n
    g.check(t.number == n and h['X-Number'] == str(n) and h.getlist('x-number') == [str(n)], 'set')
    g.check(t.plain == (str(v) if 'x-plain' in have else None) and h['x-last'] == 'l', 'others')
    del t.number
    g.check(t.number == -1 and 'X-Number' not in h and h['x-last'] == 'l', 'deleted')
    del t.number
    g.check(t.number == -1, 'deleted again')
    try:
        t.fixed = 'x'
        g.check(False, 'read only')
    except AttributeError:
        pass
    try:
        del t.fixed
        g.check(False, 'read only')
    except AttributeError:
        pass
    g.check(t.fixed == (str(v) if 'x-fixed' in have else 'none'), 'not changed')
    # what is done to the value of one object is not seen by another
    t.plain = 'p'
    t.listed.append('q')
    g.check(t.plain == 'p', 'header not changed')
    g.check(Thing(Headers([('X-Plain', 'p')])).listed == ['p'], 'its own value')


class Lazy(object):
    def __init__(self, value):
        self.value = value
        self.calls = 0

    @cached_property
    def it(self):
        self.calls += 1
        return self.value


@harness(functions=[U + 'cached_property.__get__', U + 'cached_property.__set__', U + 'cached_property.__init__'])
def h_cached(g):
    """A cached property is computed once, on first use, for each object."""
    v, w = g.tok('value'), g.tok('other')
    a, b = Lazy(v), Lazy(w)
    g.check(a.calls == 0, 'not before')
    g.check(a.it == v and a.it == v and a.calls == 1, 'once')
    g.check(b.calls == 0 and b.it == w and b.calls == 1 and a.calls == 1, 'each')
    x = g.tok('set')
    a.it = x
    g.check(a.it == x and a.calls == 1 and b.it == w, 'set')
    c = Lazy(None)
    g.check(c.it is None and c.it is None and c.calls == 1, 'None is a value')


GONE = ('gone',)
WORD = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-'


def sent(r, name):
    """The header, and all others."""
    return r.headers.getlist(name), [(k, v) for k, v in r.headers if k.lower() != name.lower()]


@harness(functions=[R + 'CommonResponseDescriptorsMixin._set_property', 'verktyg.http.basic:HeaderSet.add',
                    'verktyg.http.basic:HeaderSet.discard', 'verktyg.http.basic:HeaderSet.clear',
                    'verktyg.http.basic:HeaderSet.to_header', 'verktyg.http.basic:parse_set_header'])
def h_sets(g):
    """A change of a header set is in the header at once; an empty set is no header."""
    attr, name = g.choice('which', [('vary', 'Vary'), ('allow', 'Allow'), ('content_language', 'Content-Language')])
    start = g.choice('start', [[], ['a'], ['A', 'b']])
    r = Response()
    r.headers = Headers([('X-First', 'f')] + ([(g.choice('case', [name, name.lower()]), ', '.join(start))]
                                              if start else []) + [('X-Last', 'l')])
    hs = getattr(r, attr)
    t = g.str('t', only=WORD, nonempty=True, hints=['a', 'B', 'c'])
    u = g.str('u', only=WORD, nonempty=True, hints=['a', 'B', 'c'])
    op = g.choice('op', ['add', 'discard', 'clear', 'assign', 'assign text', 'assign nothing'])
    if op == 'add':
        hs.add(t)
        want = start if exists(start, lambda x: x.lower() == t.lower()) else start + [t]
    elif op == 'discard':
        hs.discard(t)
        want = [x for x in start if x.lower() != t.lower()]
    elif op == 'clear':
        hs.clear()
        want = []
    elif op == 'assign':
        setattr(r, attr, [t, u])
        want = [t, u]
    elif op == 'assign text':
        setattr(r, attr, t)
        want = [t]
    else:
        setattr(r, attr, g.choice('nothing', [None, '', []]))
        want = []
    mine, others = sent(r, name)
    g.check(same(mine, [', '.join(want)] if len(want) > 0 else []), 'header')
    g.check(same(others, [('X-First', 'f'), ('X-Last', 'l')]), 'others')


@harness(functions=[R + 'ETagResponseMixin.cache_control', CC + 'to_header', CC + '_set_cache_value',
                    CC + '_del_cache_value', 'verktyg.http.basic:dump_header'])
def h_cache_control(g):
    """A change of a cache directive is in the header at once; no directives are no header."""
    start = g.choice('start', [None, 'no-store', 'max-age=5, public'])
    r = Response()
    r.headers = Headers([('X-First', 'f')] + ([('cache-control', start)] if start is not None else []) +
                        [('X-Last', 'l')])
    cc = r.cache_control
    model = {None: [], 'no-store': [('no-store', None)], 'max-age=5, public': [('max-age', '5'), ('public', None)]}[start]
    n = g.int('n', 0)
    t = g.str('t', only=WORD, nonempty=True)
    op = g.choice('op', ['age', 'private', 'flag', 'unflag', 'delete', 'clear', 'nothing'])
    if op == 'age':
        cc.max_age = n
        new = ('max-age', str(n))
    elif op == 'private':
        cc.private = t
        new = ('private', t)
    elif op == 'flag':
        cc.public = True
        new = ('public', None)
    elif op == 'unflag':
        cc.no_store = False
        new = ('no-store', GONE)
    elif op == 'delete':
        del cc.max_age
        new = ('max-age', GONE)
    elif op == 'clear':
        cc.clear()
        new = None
        model = []
    else:
        cc.public = False
        new = ('public', GONE)
    want = []
    if new is not None:
        found = False
        for k, v in model:
            if k == new[0]:
                found = True
                if new[1] != GONE:
                    want.append(new)
            else:
                want.append((k, v))
        if not found and new[1] != GONE:
            want.append(new)
    text = ', '.join([k if v is None else k + '=' + v for k, v in want])
    mine, others = sent(r, 'Cache-Control')
    g.check(same(mine, [text] if len(want) > 0 else []), 'header')
    g.check(same(others, [('X-First', 'f'), ('X-Last', 'l')]), 'others')


@harness(functions=[R + 'ETagResponseMixin._get_content_range', R + 'ETagResponseMixin._set_content_range',
                    CR + 'to_header', CR + 'set', CR + 'unset'])
def h_range_header(g):
    """A change of the content range is in the header at once; no range is no header."""
    start = g.choice('start', [None, 'bytes 0-4/10', 'nonsense'])
    r = Response()
    r.headers = Headers([('X-First', 'f')] + ([('content-range', start)] if start is not None else []) +
                        [('X-Last', 'l')])
    a, b, n = g.int('a'), g.int('b'), g.int('n')
    g.assume(0 <= a and a < b and b <= n)
    op = g.choice('op', ['set', 'unset', 'assign', 'assign text', 'assign nothing'])
    if op == 'set':
        r.content_range.set(a, b, n)
    elif op == 'unset':
        r.content_range.unset()
    elif op == 'assign':
        r.content_range = ContentRange('bytes', a, b, n)
    elif op == 'assign text':
        r.content_range = 'bytes %d-%d/%d' % (a, b - 1, n)
    else:
        r.content_range = g.choice('nothing', [None, ''])
    mine, others = sent(r, 'Content-Range')
    if op == 'unset' or op == 'assign nothing':
        g.check(same(mine, []), 'removed')
    else:
        g.check(same(mine, ['bytes %d-%d/%d' % (a, b - 1, n)]), 'header')
    g.check(same(others, [('X-First', 'f'), ('X-Last', 'l')]), 'others')


@harness(functions=[R + 'WWWAuthenticateMixin.www_authenticate', W + 'set_basic', W + 'set_digest', W + 'to_header',
                    W + '_get_stale', W + '_set_stale', 'verktyg.http.auth:parse_www_authenticate_header'])
def h_challenge(g):
    """A change of the challenge is in the header at once; no challenge is no header."""
    start = g.choice('start', [None, 'Basic realm="x"', 'Digest realm="a", nonce="b"'])
    model = {None: [], 'Basic realm="x"': [('realm', 'x')],
             'Digest realm="a", nonce="b"': [('realm', 'a'), ('nonce', 'b')]}[start]
    kind = {None: None, 'Basic realm="x"': 'Basic', 'Digest realm="a", nonce="b"': 'Digest'}[start]
    r = Response()
    r.headers = Headers([('X-First', 'f')] + ([('www-authenticate', start)] if start is not None else []) +
                        [('X-Last', 'l')])
    w = r.www_authenticate
    t = g.str('t', only=WORD, nonempty=True)
    u = g.str('u', only=WORD, nonempty=True)
    op = g.choice('op', ['basic', 'digest', 'clear', 'realm', 'opaque', 'stale', 'unstale', 'remove', 'domain', 'qop'])
    if op == 'basic':
        w.set_basic(t)
        kind, model = 'Basic', [('realm', t)]
    elif op == 'digest':
        opaque, stale, algorithm = g.choice('how', [(None, False, None), ('o', True, None), (None, True, 'MD5'),
                                                    ('o', False, 'MD5')])
        w.set_digest(t, u, qop=('auth', 'auth-int'), opaque=opaque, stale=stale, algorithm=algorithm)
        kind = 'Digest'
        model = ([('realm', t), ('nonce', u), ('qop', 'auth, auth-int')] + ([('stale', 'TRUE')] if stale else []) +
                 ([('opaque', opaque)] if opaque is not None else []) +
                 ([('algorithm', algorithm)] if algorithm is not None else []))
    elif op == 'clear':
        w.clear()
        kind, model = None, []
    elif kind is not None:
        if op == 'realm':
            w.realm = t
            model = [('realm', t)] + model[1:]
        elif op == 'opaque':
            w.opaque = t
            model = model + [('opaque', t)]
        elif op == 'stale':
            w.stale = True
            model = model + [('stale', 'TRUE')]
        elif op == 'unstale':
            w.stale = False
            model = model + [('stale', 'FALSE')]
        elif op == 'remove':
            w.realm = None
            model = model[1:]
        elif op == 'domain':
            w.domain.update([t])
            model = model + [('domain', t)]
        else:
            w.qop.add(t)
            model = model + [('qop', t)]
    mine, others = sent(r, 'WWW-Authenticate')
    quoted = ['domain', 'nonce', 'opaque', 'realm', 'qop']
    text = ', '.join([k + '=' + ('"' + v + '"' if k in quoted else v) for k, v in model])
    g.check(same(mine, [kind + ' ' + text] if kind is not None else []), 'header')
    g.check(same(others, [('X-First', 'f'), ('X-Last', 'l')]), 'others')
    stale = w.stale
    said = [v for k, v in model if k == 'stale']
    g.check(same(stale, (said[0] == 'TRUE') if len(said) > 0 else None), 'stale')


@harness(functions=[R + 'CommonResponseDescriptorsMixin._get_mimetype',
                    R + 'CommonResponseDescriptorsMixin._set_mimetype',
                    R + 'CommonResponseDescriptorsMixin._get_mimetype_params', U + 'get_content_type',
                    'verktyg.http.basic:dump_options_header'])
def h_type(g):
    """The type of a response and its parameters are those in the header."""
    start = g.choice('start', ['text/html; charset=utf-8', 'text/html', 'image/png'])
    r = Response()
    r.headers = Headers([('X-First', 'f'), ('content-type', start), ('X-Last', 'l')])
    mime = start.split(';')[0]
    params = {'charset': 'utf-8'} if 'charset' in start else {}
    p = r.mimetype_params
    g.check(same((r.mimetype, dict(p)), (mime, params)), 'read')
    t = g.str('t', only=WORD, nonempty=True)
    op = g.choice('op', ['set', 'charset', 'remove', 'clear', 'type', 'text', 'xml', 'suffix'])
    if op == 'set':
        p['x'] = t
        want = [start + '; x=' + t]
    elif op == 'charset':
        p['charset'] = t
        want = [mime + '; charset=' + t]
    elif op == 'remove':
        p.pop('charset', None)
        want = [mime] if 'charset' in start else [start]
    elif op == 'clear':
        p.clear()
        want = [mime]
    elif op == 'type':
        r.mimetype = 'image/' + t
        want = ['image/' + t]
    elif op == 'text':
        r.mimetype = 'text/' + t
        want = ['text/' + t + '; charset=utf-8']
    elif op == 'xml':
        r.mimetype = 'application/xml'
        want = ['application/xml; charset=utf-8']
    else:
        r.mimetype = 'application/' + t + '+xml'
        want = ['application/' + t + '+xml; charset=utf-8']
    mine, others = sent(r, 'Content-Type')
    g.check(same(mine, want), 'header')
    g.check(same(others, [('X-First', 'f'), ('X-Last', 'l')]), 'others')


@harness(functions=[R + 'CommonResponseDescriptorsMixin._get_retry_after',
                    R + 'CommonResponseDescriptorsMixin._set_retry_after'])
def h_retry(g):
    """The time to retry is in the header as it was set; none is no header."""
    start = g.choice('start', [None, '120', 'nonsense'])
    r = Response()
    r.headers = Headers([('X-First', 'f')] + ([('retry-after', start)] if start is not None else []) +
                        [('X-Last', 'l')])
    op = g.choice('op', ['none', 'seconds', 'text', 'date'])
    if op == 'none':
        r.retry_after = None
        want = []
    elif op == 'seconds':
        n = g.int('n', 0)
        r.retry_after = n
        want = [str(n)]
    elif op == 'text':
        t = g.str('t', only=WORD, nonempty=True)
        r.retry_after = t
        want = [t]
    else:
        r.retry_after = WHEN
        want = ['Tue, 05 Mar 2013 10:20:30 GMT']
    mine, others = sent(r, 'Retry-After')
    g.check(same(mine, want), 'header')
    g.check(same(others, [('X-First', 'f'), ('X-Last', 'l')]), 'others')


# -- native -------------------------------------------------------------------

def text(g, n):
    return g.str(n, max=4, alphabet='ab ,="\\;', hints=['a', 'x-y', 'a b', 'a,b', 'a"b', '*'], without='\r\n')


def others(r):
    """All headers but those viewed."""
    return [(k, v) for k, v in r.headers if k.lower() in ('x-first', 'x-last')]


def response(g, name, values):
    r = Response()
    r.headers['X-First'] = 'f'
    v = g.choice('header', values)
    if v is not None:
        r.headers[g.choice('case', [name, name.lower(), name.upper()])] = v
    r.headers['X-Last'] = 'l'
    return r, v


@scenario(functions=[R + 'ETagResponseMixin.cache_control', CC + 'to_header'], n=4000, note='sequences of changes')
def s_cache_control(g):
    """The header follows every change of the directives, and is what the next view shows."""
    r, v = response(g, 'Cache-Control', [None, 'no-cache', 'max-age=3, public', 'private="a, b", max-age=x', 'x, y=" "',
                                         'no-transform, s-maxage=4', 'ext="x=1, y"'])
    was = list(r.headers)
    cc = r.cache_control
    g.check(list(r.headers) == was, 'reading changes nothing')
    model = dict(parse_dict_header(v)) if v is not None else {}
    g.check(dict(cc) == model, 'read')
    for _ in range(g.int('changes', 1, 4)):
        if g.bool('new view'):
            cc = r.cache_control
        name = g.choice('name', FLAGS + VALUES)
        key = name.replace('_', '-')
        op = g.choice('op', ['on', 'off', 'number', 'text', 'delete', 'item', 'pop', 'clear', 'update', 'or'])
        start = dict(model)
        if op == 'on':
            setattr(cc, name, True)
            model[key] = None
        elif op == 'off':
            setattr(cc, name, False if name in FLAGS else None)
            model.pop(key, None)
        elif op == 'number':
            n = g.int('n', 0, 99)
            if name in FLAGS:
                setattr(cc, name, n)
                model.pop(key, None)
                if n:
                    model[key] = None
            else:
                setattr(cc, name, n)
                model[key] = str(n)
        elif op == 'text':
            t = text(g, 'text')
            g.assume(name in ('no_cache', 'private', 's_maxage') and t)
            setattr(cc, name, t)
            model[key] = t
        elif op == 'delete':
            delattr(cc, name)
            model.pop(key, None)
        elif op == 'item':
            t = text(g, 'text')
            cc['ext'] = t
            model['ext'] = t
        elif op == 'pop':
            g.check(str(cc.pop(key, 'none')) == str(model.pop(key, 'none')), 'popped')
        elif op == 'clear':
            cc.clear()
            model.clear()
        elif op == 'or':
            cc |= {key: '7'}
            model[key] = '7'
        else:
            cc.update({key: '5', 'x': None})
            model.update({key: '5', 'x': None})
        same_cc = {k: x if x is None else str(x) for k, x in cc.items()}
        g.check(same_cc == model, 'view')
        if model == start:
            continue
        if model:
            g.check(r.headers.getlist('cache-control') == [cc.to_header()], 'header')
            again = r.cache_control
            g.check(dict(again) == model, 'read again')
            for f in FLAGS:
                g.check(getattr(again, f) is (f.replace('_', '-') in model), 'flag')
        else:
            g.check('cache-control' not in r.headers, 'removed')
        g.check(others(r) == [('X-First', 'f'), ('X-Last', 'l')], 'others')


@scenario(functions=[R + 'ETagResponseMixin.content_range', CR + 'to_header'], n=3000, note='sequences of changes')
def s_content_range(g):
    """The header follows every change of the range; reading one that makes no sense changes nothing."""
    r, v = response(g, 'Content-Range', [None, 'bytes 0-4/10', 'bytes */7', 'bytes 1-2/*', 'items 3-4/5', 'nonsense',
                                         'bytes 5-4/3', 'bytes=0-1/2', ''])
    was = list(r.headers)
    cr = r.content_range
    g.check(list(r.headers) == was, 'reading changes nothing')
    state = {'bytes 0-4/10': ('bytes', 0, 5, 10), 'bytes */7': ('bytes', None, None, 7),
             'bytes 1-2/*': ('bytes', 1, 3, None), 'items 3-4/5': ('items', 3, 5, 5)}.get(v, (None, None, None, None))
    g.check((cr.units, cr.start, cr.stop, cr.length) == state, 'read')
    for _ in range(g.int('changes', 1, 3)):
        if g.bool('new view'):
            cr = r.content_range
        op = g.choice('op', ['set', 'unset', 'units', 'length', 'assign', 'assign text', 'remove'])
        a = g.int('a', 0, 5)
        b = a + g.int('b', 1, 5)
        n = b + g.int('n', 0, 5)
        units = g.choice('units', ['bytes', 'lines'])
        if op == 'set':
            cr.set(a, b, n, units)
            state = (units, a, b, n)
        elif op == 'unset':
            cr.unset()
            state = (None, None, None, None)
        elif op == 'units':
            g.assume(state[0] is not None)
            cr.units = units
            state = (units,) + state[1:]
        elif op == 'length':
            g.assume(state[0] is not None and state[3] is not None)
            cr.length = state[3] + n
            state = state[:3] + (state[3] + n,)
        elif op == 'assign':
            r.content_range = ContentRange(units, a, b, n)
            state = (units, a, b, n)
            cr = r.content_range
        elif op == 'assign text':
            r.content_range = '%s %d-%d/%d' % (units, a, b - 1, n)
            state = (units, a, b, n)
            cr = r.content_range
        else:
            r.content_range = g.choice('nothing', [None, ''])
            state = (None, None, None, None)
            cr = r.content_range
        g.check((cr.units, cr.start, cr.stop, cr.length) == state, 'view')
        if state[0] is None:
            g.check('content-range' not in r.headers, 'removed')
        else:
            u, a, b, n = state
            want = '%s %s/%s' % (u, '*' if a is None else '%d-%d' % (a, b - 1), '*' if n is None else n)
            g.check(r.headers.getlist('content-range') == [want], 'header')
        g.check(others(r) == [('X-First', 'f'), ('X-Last', 'l')], 'others')


@scenario(functions=[R + 'CommonResponseDescriptorsMixin.vary', R + 'CommonResponseDescriptorsMixin.allow',
                     R + 'CommonResponseDescriptorsMixin.content_language'], n=3000, note='sequences of changes')
def s_sets(g):
    """Header sets of a response and the headers are in step."""
    attr, name = g.choice('which', [('vary', 'Vary'), ('allow', 'Allow'), ('content_language', 'Content-Language')])
    r, v = response(g, name, [None, 'a', 'A, b', '"x y", c'])
    was = list(r.headers)
    hs = getattr(r, attr)
    g.check(list(r.headers) == was, 'reading changes nothing')
    model = {None: [], 'a': ['a'], 'A, b': ['A', 'b'], '"x y", c': ['x y', 'c']}[v]
    for _ in range(g.int('changes', 1, 4)):
        if g.bool('new view'):
            hs = getattr(r, attr)
        op = g.choice('op', ['add', 'discard', 'clear', 'update', 'assign', 'assign text', 'remove', 'delitem'])
        t = text(g, 'text')
        low = [x.lower() for x in model]
        if op == 'add':
            hs.add(t)
            if t.lower() not in low:
                model = model + [t]
        elif op == 'discard':
            t = g.choice('known', model) if model and g.bool('known') else t
            hs.discard(t)
            model = [x for x in model if x.lower() != t.lower()]
        elif op == 'clear':
            hs.clear()
            model = []
        elif op == 'update':
            hs.update([t, 'Z', 'z'])
            for x in (t, 'Z'):
                if x.lower() not in [y.lower() for y in model]:
                    model = model + [x]
        elif op == 'assign':
            setattr(r, attr, [t, t + 'q'])
            model = [t, t + 'q']
            hs = getattr(r, attr)
        elif op == 'assign text':
            setattr(r, attr, 'p, Q')
            model = ['p', 'Q']
            hs = getattr(r, attr)
        elif op == 'delitem':
            g.assume(model)
            i = g.int('i', 0, len(model) - 1)
            del hs[i]
            model = model[:i] + model[i + 1:]
        else:
            setattr(r, attr, g.choice('nothing', [None, [], '']))
            model = []
            hs = getattr(r, attr)
        g.check(list(hs) == model, 'view')
        g.check(list(getattr(r, attr)) == model, 'read again')
        g.check((name in r.headers) == bool(model), 'present')
        g.check(len(r.headers.getlist(name)) <= 1, 'once')
        g.check(others(r) == [('X-First', 'f'), ('X-Last', 'l')], 'others')


@scenario(functions=[R + 'WWWAuthenticateMixin.www_authenticate', 'verktyg.http.auth:WWWAuthenticate.set_basic',
                     'verktyg.http.auth:WWWAuthenticate.set_digest'], n=3000, note='sequences of changes')
def s_challenge(g):
    """The challenge of a response and its header are in step."""
    r, v = response(g, 'WWW-Authenticate', [None, 'Basic realm="x"', 'Digest realm="a", nonce="b", qop="auth"'])
    was = list(r.headers)
    w = r.www_authenticate
    g.check(list(r.headers) == was, 'reading changes nothing')
    model = {None: {}, 'Basic realm="x"': {'__auth_type__': 'basic', 'realm': 'x'}}.get(
        v, {'__auth_type__': 'digest', 'realm': 'a', 'nonce': 'b', 'qop': 'auth'})
    for _ in range(g.int('changes', 1, 4)):
        if g.bool('new view'):
            w = r.www_authenticate
        op = g.choice('op', ['basic', 'digest', 'realm', 'opaque', 'stale', 'clear', 'qop', 'remove', 'domain'])
        t = text(g, 'text')
        if op == 'basic':
            w.set_basic(t)
            model = {'__auth_type__': 'basic', 'realm': t}
        elif op == 'digest':
            opaque = g.choice('opaque', [None, 'o', t])
            stale = g.bool('stale')
            w.set_digest(t, 'n' + t, qop=('auth', 'auth-int'), opaque=opaque, algorithm=None, stale=stale)
            model = {'__auth_type__': 'digest', 'realm': t, 'nonce': 'n' + t, 'qop': 'auth, auth-int'}
            if opaque is not None:
                model['opaque'] = opaque
            if stale:
                model['stale'] = 'TRUE'
        elif op == 'clear':
            w.clear()
            model = {}
        else:
            g.assume(model)
            if op in ('realm', 'opaque'):
                setattr(w, op, t)
                model[op] = t
            elif op == 'stale':
                s = g.choice('stale', [True, False, None])
                w.stale = s
                if s is None:
                    model.pop('stale', None)
                else:
                    model['stale'] = 'TRUE' if s else 'FALSE'
            elif op == 'remove':
                g.assume('realm' in model and len(model) > 2)
                w.realm = None
                del model['realm']
            else:
                getattr(w, op).update(['one', 'two'])
                old = [x.strip() for x in model.get(op, '').split(',') if x.strip()]
                model[op] = ', '.join(old + [x for x in ('one', 'two') if x not in old])
        g.check(dict(w) == model, 'view')
        g.check(dict(r.www_authenticate) == model, 'read again')
        g.check(('www-authenticate' in r.headers) == bool(model), 'present')
        g.check(others(r) == [('X-First', 'f'), ('X-Last', 'l')], 'others')
    word = g.choice('stale word', [None, 'true', 'True', 'TRUE', 'false', 'FALSE', 'x'])
    r.headers['WWW-Authenticate'] = 'Digest realm="a", nonce="b"' + (', stale=' + word if word else '')
    g.check(r.www_authenticate.stale is (None if word is None else word.lower() == 'true'), 'stale as written')


@scenario(functions=[R + 'CommonResponseDescriptorsMixin.mimetype', R + 'CommonResponseDescriptorsMixin.mimetype_params',
                     U + 'get_content_type'], n=3000, note='sequences of changes')
def s_mimetype(g):
    """The type of a response and its parameters are those in the header."""
    r, v = response(g, 'Content-Type', ['text/html; charset=utf-8', 'text/html', 'image/png', 'a/b; x="y;z"; q=1'])
    was = list(r.headers)
    mime = v.split(';')[0]
    params = {'text/html; charset=utf-8': {'charset': 'utf-8'}, 'a/b; x="y;z"; q=1': {'x': 'y;z', 'q': '1'}}.get(v, {})
    p = r.mimetype_params
    g.check(r.mimetype == mime and dict(p) == params, 'read')
    g.check(list(r.headers) == was, 'reading changes nothing')
    for _ in range(g.int('changes', 1, 4)):
        if g.bool('new view'):
            p = r.mimetype_params
        op = g.choice('op', ['type', 'set', 'del', 'clear', 'update'])
        t = text(g, 'text')
        if op == 'type':
            mime = g.choice('mime', ['text/plain', 'application/xml', 'application/a+xml', 'image/svg+xml',
                                     'application/json', 'text/', 'application/xmlx'])
            r.mimetype = mime
            params = {'charset': 'utf-8'} if mime in ('text/plain', 'application/xml', 'application/a+xml',
                                                      'text/') else {}
            p = r.mimetype_params
        elif op == 'set':
            p['x'] = t
            params['x'] = t
        elif op == 'del':
            p.pop('charset', None)
            params.pop('charset', None)
        elif op == 'clear':
            p.clear()
            params = {}
        else:
            p.update({'x': 'u', 'y': t})
            params.update({'x': 'u', 'y': t})
        g.check(dict(p) == params, 'view')
        g.check(r.mimetype == mime, 'type')
        g.check(dict(r.mimetype_params) == params, 'read again')
        g.check(len(r.headers.getlist('content-type')) == 1, 'once')
        g.check(others(r) == [('X-First', 'f'), ('X-Last', 'l')], 'others')


DATES = [('date', 'Date'), ('expires', 'Expires'), ('last_modified', 'Last-Modified'), ('retry_after', 'Retry-After')]
PLAIN = [('location', 'Location'), ('content_encoding', 'Content-Encoding'), ('content_md5', 'Content-MD5'),
         ('content_location', 'Content-Location'), ('accept_ranges', 'Accept-Ranges'), ('content_type', 'Content-Type')]


@scenario(functions=[R + 'CommonResponseDescriptorsMixin.retry_after', U + 'header_property.__get__',
                     U + 'header_property.__set__'], n=2500, note='accessors of responses')
def s_descriptors(g):
    """Each accessor of a response is its header."""
    r = Response()
    r.headers['X-First'] = 'f'
    want = {}
    for _ in range(g.int('changes', 1, 5)):
        kind = g.choice('kind', ['date', 'plain', 'length', 'delete', 'seconds'])
        if kind == 'date':
            attr, name = g.choice('which', DATES)
            when = datetime.datetime(g.int('year', 1971, 2050), g.int('month', 1, 12), g.int('day', 1, 28),
                                     g.int('hour', 0, 23), g.int('minute', 0, 59), g.int('second', 0, 59))
            setattr(r, attr, when)
            want[attr] = (name, when)
        elif kind == 'plain':
            attr, name = g.choice('which', PLAIN)
            t = text(g, 'text')
            setattr(r, attr, t)
            want[attr] = (name, t)
            g.check(r.headers[name] == t, 'header')
        elif kind == 'length':
            n = g.int('n', 0, 10 ** 9)
            r.content_length = n
            want['content_length'] = ('Content-Length', n)
            g.check(r.headers['content-length'] == str(n), 'header')
        elif kind == 'seconds':
            n = g.int('n', 0, 10 ** 6)
            r.retry_after = n
            g.check(r.headers['retry-after'] == str(n), 'seconds')
            before = datetime.datetime.utcnow()
            read = r.retry_after - datetime.timedelta(seconds=n)
            g.check(before <= read and read <= datetime.datetime.utcnow(), 'seconds read')
            want.pop('retry_after', None)
        else:
            attr, name = g.choice('which', DATES + PLAIN + [('content_length', 'Content-Length')])
            if attr == 'retry_after':
                r.retry_after = None
            else:
                delattr(r, attr)
            want.pop(attr, None)
            g.check(name not in r.headers and getattr(r, attr) is None, 'deleted')
        for attr, (name, v) in want.items():
            g.check(getattr(r, attr) == v and len(r.headers.getlist(name)) == 1, 'as set')
        g.check(r.headers['x-first'] == 'f', 'others')
