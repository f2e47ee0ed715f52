"""C13 — immutable containers cannot be changed."""
from pyvc.api import *
from verktyg.datastructures import (
    ImmutableList, ImmutableDict, ImmutableTypeConversionDict, ImmutableMultiDict,
    ImmutableOrderedMultiDict, CombinedMultiDict, MultiDict, OrderedMultiDict, TypeConversionDict,
)
from verktyg.http.auth import Authorization
from verktyg.http.cache_control import RequestCacheControl
from verktyg.wsgi import EnvironHeaders

META = {
    'level': 'proof',
    'files': ['verktyg/datastructures.py', 'verktyg/http/basic.py', 'verktyg/http/auth.py',
              'verktyg/http/cache_control.py', 'verktyg/wsgi.py'],
    'assumptions': ['attributes whose names start with an underscore and unbound base class methods '
                    '(dict.__setitem__(d, ...)) are not part of the interface'],
}

D = 'verktyg.datastructures:'
KEYS = ['a', 'b', '']


def key(g, name='key'):
    return g.str(name, hints=KEYS)


def val(g, name='value'):
    return g.str(name, hints=['1', '2'])


LIST_OPS = ['append', 'extend', 'insert', 'pop', 'pop0', 'remove', 'reverse', 'sort', 'clear', 'setitem',
            'setslice', 'delitem', 'delslice', 'iadd', 'imul']


def change_list(x, op, v):
    if op == 'append':
        x.append(v)
    elif op == 'extend':
        x.extend([v])
    elif op == 'insert':
        x.insert(0, v)
    elif op == 'pop':
        x.pop()
    elif op == 'pop0':
        x.pop(0)
    elif op == 'remove':
        x.remove(v)
    elif op == 'reverse':
        x.reverse()
    elif op == 'sort':
        x.sort()
    elif op == 'clear':
        x.clear()
    elif op == 'setitem':
        x[0] = v
    elif op == 'setslice':
        x[0:1] = [v]
    elif op == 'delitem':
        del x[0]
    elif op == 'delslice':
        del x[0:1]
    elif op == 'iadd':
        x += [v]
    else:
        x *= 2


@harness(functions=[D + 'ImmutableListMixin.' + f for f in (
    'append', 'extend', 'insert', 'pop', 'reverse', 'sort', 'clear', '__setitem__', '__delitem__', '__iadd__')] +
    [D + 'is_immutable'])
def h_list(g):
    """Every mutating operation of an immutable list raises TypeError and changes nothing."""
    xs = g.list('xs', lambda g: val(g, 'x'), max=4)
    want = [x for x in xs]
    im = ImmutableList(xs)
    op = g.choice('op', LIST_OPS)
    v = val(g)
    r = outcome(lambda: change_list(im, op, v))
    g.check(same(r, ('exc', TypeError)), 'refused ' + op)
    g.check(same([x for x in im], want), 'unchanged ' + op)


DICT_OPS = ['setitem', 'delitem', 'setdefault', 'update', 'pop', 'popdefault', 'popitem', 'clear', 'ior']
MULTI_OPS = ['add', 'setlist', 'poplist', 'popitemlist', 'setlistdefault']


def change_dict(d, op, k, v):
    if op == 'setitem':
        d[k] = v
    elif op == 'delitem':
        del d[k]
    elif op == 'setdefault':
        d.setdefault(k, v)
    elif op == 'update':
        d.update({k: v})
    elif op == 'pop':
        d.pop(k)
    elif op == 'popdefault':
        d.pop(k, v)
    elif op == 'popitem':
        d.popitem()
    elif op == 'clear':
        d.clear()
    elif op == 'ior':
        d |= {k: v}
    elif op == 'add':
        d.add(k, v)
    elif op == 'setlist':
        d.setlist(k, [v])
    elif op == 'poplist':
        d.poplist(k)
    elif op == 'popitemlist':
        d.popitemlist()
    else:
        d.setlistdefault(k, [v])


@harness(functions=[D + 'ImmutableDictMixin.' + f for f in (
    '__setitem__', '__delitem__', 'setdefault', 'update', 'pop', 'popitem', 'clear')] + [
    D + 'ImmutableDict.copy', D + 'ImmutableTypeConversionDict.copy'])
def h_dict(g):
    """Every mutating operation of an immutable dict raises TypeError and changes nothing; copies are free."""
    content = g.dict('content', lambda g: key(g, 'k'), lambda g: val(g, 'v'), max=3)
    k, v, probe = key(g), val(g), key(g, 'probe')
    known = probe in content
    want = content[probe] if known else None
    im = ImmutableDict(content) if g.bool('plain') else ImmutableTypeConversionDict(content)
    op = g.choice('op', DICT_OPS + ['copy', 'source'])
    if op == 'copy':
        c = im.copy()
        g.check((probe in c) == known and same(c.get(probe), want), 'copy equal')
        c[k] = v
        g.check(same(c[k], v), 'copy is mutable')
    elif op == 'source':
        content[k] = v
    else:
        r = outcome(lambda: change_dict(im, op, k, v))
        g.check(same(r, ('exc', TypeError)), 'refused ' + op)
    g.check((probe in im) == known, 'same keys ' + op)
    g.check(same(im.get(probe), want), 'same value ' + op)


@harness(functions=[D + 'ImmutableDictMixin.__hash__'])
def h_hash(g):
    """Equal immutable dicts have the same hash, whatever the order they were filled in."""
    k1, k2 = key(g, 'k1'), key(g, 'k2')
    g.assume(k1 != k2)
    v1, v2 = val(g, 'v1'), val(g, 'v2')
    kind = g.choice('kind', ['dict', 'typed', 'multi'])
    cls = {'dict': ImmutableDict, 'typed': ImmutableTypeConversionDict, 'multi': ImmutableMultiDict}[kind]
    a = cls([(k1, v1), (k2, v2)])
    b = cls([(k2, v2), (k1, v1)])
    g.check(a == b, 'equal')
    g.check(hash(a) == hash(b), 'hash')
    g.check(hash(a) == hash(a), 'again')


@harness(functions=[D + 'ImmutableMultiDictMixin.' + f for f in (
    'add', 'setlist', 'poplist', 'popitemlist', 'setlistdefault')] + [D + 'ImmutableMultiDict.copy'])
def h_multidict(g):
    """Every mutating operation of an immutable multi dict raises TypeError and changes nothing."""
    content = g.dict('content', lambda g: key(g, 'k'),
                     lambda g: g.list('vs', lambda g: val(g, 'v'), max=3, min=1), max=3)
    k, v, probe = key(g), val(g), key(g, 'probe')
    want = [x for x in content[probe]] if probe in content else []
    im = ImmutableMultiDict(content)
    op = g.choice('op', DICT_OPS + MULTI_OPS + ['copy', 'getlist', 'lists', 'listvalues'])
    if op == 'copy':
        c = im.copy()
        g.check(same(c.getlist(probe), want), 'copy equal')
        c.add(k, v)
        if probe == k:
            g.check(same(c.getlist(k), want + [v]), 'copy is mutable')
    elif op == 'getlist':
        im.getlist(k).append(v)
    elif op == 'lists':
        for _, vs in im.lists():
            vs.append(v)
    elif op == 'listvalues':
        for vs in im.listvalues():
            vs.append(v)
    else:
        r = outcome(lambda: change_dict(im, op, k, v))
        g.check(same(r, ('exc', TypeError)), 'refused ' + op)
    g.check(same(im.getlist(probe), want), 'same values ' + op)


@harness(functions=[D + 'CombinedMultiDict.__init__', D + 'CombinedMultiDict.getlist'])
def h_combined(g):
    """A combined dict refuses changes and shows those of its parts."""
    k, v, probe = key(g), val(g), key(g, 'probe')
    part = MultiDict([(key(g, 'k1'), val(g, 'v1')), (key(g, 'k2'), val(g, 'v2'))])
    want = part.getlist(probe)
    im = CombinedMultiDict([part])
    op = g.choice('op', DICT_OPS + MULTI_OPS)
    r = outcome(lambda: change_dict(im, op, k, v))
    g.check(same(r, ('exc', TypeError)), 'refused ' + op)
    g.check(same(im.getlist(probe), want), 'same values ' + op)
    g.check(same(part.getlist(probe), want), 'same part ' + op)


HEADER_OPS = ['setitem', 'setindex', 'setslice', 'delitem', 'delindex', 'delslice', 'set', 'add', 'add_header',
              'remove', 'extend', 'insert', 'pop', 'popkey', 'popitem', 'setdefault', 'clear']


def change_headers(h, op, k, v):
    if op == 'setitem':
        h[k] = v
    elif op == 'setindex':
        h[0] = (k, v)
    elif op == 'setslice':
        h[0:1] = [(k, v)]
    elif op == 'delitem':
        del h[k]
    elif op == 'delindex':
        del h[0]
    elif op == 'delslice':
        del h[0:1]
    elif op == 'set':
        h.set(k, v)
    elif op == 'add':
        h.add(k, v)
    elif op == 'add_header':
        h.add_header(k, v)
    elif op == 'remove':
        h.remove(k)
    elif op == 'extend':
        h.extend([(k, v)])
    elif op == 'insert':
        h.insert(0, (k, v))
    elif op == 'pop':
        h.pop()
    elif op == 'popkey':
        h.pop(k)
    elif op == 'popitem':
        h.popitem()
    elif op == 'clear':
        h.clear()
    else:
        h.setdefault(k, v)


@harness(functions=['verktyg.http.basic:ImmutableHeadersMixin.' + f for f in (
    '__setitem__', '__delitem__', 'add', 'extend', 'insert', 'pop', 'popitem', 'setdefault', 'clear')])
def h_headers(g):
    """Every mutating operation of environ headers raises TypeError and leaves the environ alone."""
    content = g.dict('environ', lambda g: key(g, 'k'), lambda g: val(g, 'v'), max=3)
    k, v, probe = key(g), val(g), key(g, 'probe')
    known = probe in content
    want = content[probe] if known else None
    h = EnvironHeaders(content)
    op = g.choice('op', HEADER_OPS)
    r = outcome(lambda: change_headers(h, op, k, v))
    g.check(same(r, ('exc', TypeError)), 'refused ' + op)
    g.check((probe in content) == known, 'same keys ' + op)
    if known:
        g.check(same(content[probe], want), 'same value ' + op)


def snapshot(x):
    if isinstance(x, (CombinedMultiDict, ImmutableMultiDict, ImmutableOrderedMultiDict)):
        return (list(x.items(multi=True)), list(x.items()), list(x.lists()), len(x), list(x))
    if isinstance(x, dict):
        return (list(x.items()), len(x), list(x), repr(x))
    return (list(x), len(x))


@scenario(functions=[D + 'ImmutableListMixin.__hash__', D + 'ImmutableDictMixin.__hash__',
                     D + 'ImmutableDictMixin.__reduce_ex__', D + 'ImmutableMultiDictMixin.__reduce_ex__',
                     D + 'ImmutableOrderedMultiDict.copy', 'verktyg.http.auth:Authorization',
                     'verktyg.http.cache_control:RequestCacheControl'],
          n=4000, note='all immutable classes, sequences of attempts, hashing, copying and pickling')
def s_all(g):
    """Whatever is tried on an immutable container, it raises TypeError and nothing changes."""
    import copy
    import pickle
    pairs = g.list('pairs', lambda g: (key(g, 'k'), val(g, 'v')), max=4)
    kind = g.choice('kind', ['list', 'dict', 'tcd', 'md', 'omd', 'comb', 'auth', 'cc'])
    filled = lambda kind, pairs: {
        'list': lambda: ImmutableList(v for k, v in pairs),
        'dict': lambda: ImmutableDict(pairs), 'tcd': lambda: ImmutableTypeConversionDict(pairs),
        'md': lambda: ImmutableMultiDict(pairs), 'omd': lambda: ImmutableOrderedMultiDict(pairs),
        'comb': lambda: CombinedMultiDict([MultiDict(pairs)]),
        'auth': lambda: Authorization('basic', dict(pairs)),
        'cc': lambda: RequestCacheControl(pairs),
    }[kind]()
    im = filled(kind, pairs)
    before = snapshot(im)
    for _ in range(g.int('tries', 1, 4)):
        k, v = key(g), val(g)
        if kind == 'list':
            op = g.choice('op', LIST_OPS)
            r = outcome(lambda: change_list(im, op, v))
        else:
            op = g.choice('dop', DICT_OPS + (MULTI_OPS if kind in ('md', 'omd', 'comb') else []))
            r = outcome(lambda: change_dict(im, op, k, v))
        g.check(r == ('exc', TypeError), 'refused ' + op)
        g.check(snapshot(im) == before, 'unchanged ' + op)
    if kind in ('md', 'omd', 'comb'):
        for handed in ([x for _, x in im.lists()], im.listvalues(), im.to_dict(flat=False).values(),
                       [im.getlist(k) for k in im]):
            for x in list(handed):
                x.append('more')
        g.check(snapshot(im) == before, 'unchanged by what it handed out')
    if kind == 'cc':
        for name, value in (('max_age', 3), ('no_cache', True), ('no_store', True), ('max_stale', 3),
                            ('min_fresh', 3), ('only_if_cached', True), ('no_transform', True)):
            r = outcome(lambda: setattr(im, name, value))
            g.check(r == ('exc', TypeError), 'attribute refused')
            g.check(snapshot(im) == before, 'unchanged by attribute')
    if kind != 'comb' and kind != 'auth' and kind != 'cc':
        other = filled(kind, pairs)
        g.check(im == other and hash(im) == hash(other), 'hash of equals')
        if kind == 'dict' or kind == 'tcd' or kind == 'md':
            last = {}
            for k, v in pairs:
                last.setdefault(k, []).append((k, v))
            other = filled(kind, [p for k in reversed(list(last)) for p in last[k]])
            g.check(im == other and hash(im) == hash(other), 'hash in another order')
        g.check(hash(im) == hash(im), 'hash stable')
        p = pickle.loads(pickle.dumps(im))
        g.check(type(p) is type(im) and snapshot(p) == before, 'pickle')
        if kind != 'list':
            g.check(copy.copy(im) is im, 'copy.copy')
            c = im.copy()
            g.check(type(c) is {'dict': dict, 'tcd': TypeConversionDict, 'md': MultiDict,
                                'omd': OrderedMultiDict}[kind], 'copy is the mutable type')
            c['new'] = 'x'
            c.clear()
            g.check(snapshot(im) == before, 'copy independent')
