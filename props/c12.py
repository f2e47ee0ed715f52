"""C12 — OrderedMultiDict: a list of pairs with dict access."""
from pyvc.api import *
from verktyg.datastructures import MultiDict, OrderedMultiDict
from verktyg.exceptions import BadRequestKeyError
from verktyg import datastructures

META = {
    'level': 'proof',
    'files': ['verktyg/datastructures.py'],
    'assumptions': ['the pointers of the two ends of the list and of a bucket are where link and unlink leave them '
                    '(proved step by step; that the chain as a whole is the list of pairs is checked within a bound)'],
    'note': 'What one bucket does to its neighbours and the value lists is proved for every list; that the chain as a '
            'whole is the list of pairs needs an inductive heap predicate, which the engine does not have, and is '
            'checked symbolically within a bound on the number of pairs and natively on operation sequences.',
}

O = 'verktyg.datastructures:OrderedMultiDict.'
BASE = [O + '__init__', O + 'update', O + 'add', O + 'items', 'verktyg.datastructures:_omd_bucket.__init__']
UNLINK = ['verktyg.datastructures:_omd_bucket.unlink']
BUCKET = getattr(datastructures, '_omd_bucket', None)
KEYS = ['a', 'b', 'A', '', 'key']


def key(g, name='key'):
    return g.str(name, hints=KEYS)


def val(g, name='value'):
    return g.str(name, hints=['1', '2', ''])


def content(g, max=5):
    return g.list('pairs', lambda g: (key(g, 'k'), val(g, 'v')), max=max)


def values(pairs, k):
    return [v for kk, v in pairs if kk == k]


def without(pairs, k):
    return [(kk, v) for kk, v in pairs if kk != k]


def firsts(pairs):
    out = []
    for k, v in pairs:
        if not exists(out, lambda p: p[0] == k):
            out = out + [(k, v)]
    return out


def agrees(g, d, pairs, label):
    """d holds exactly these pairs, in this order."""
    g.check(same([p for p in d.items(multi=True)], pairs), label + ' pairs')
    g.check(same([p for p in d.items()], firsts(pairs)), label + ' items')
    p = key(g, 'probe')
    want = values(pairs, p)
    g.check(same(d.getlist(p), want), label + ' getlist')
    g.check((p in d) == (len(want) > 0), label + ' contains')
    g.check(same(outcome(lambda: d[p]), ('ok', want[0]) if len(want) > 0 else ('exc', BadRequestKeyError)),
            label + ' item')
    g.check(len(d) == len(firsts(pairs)), label + ' len')


@harness(functions=BASE + [O + '__getitem__', O + 'getlist', O + 'keys', O + 'values', O + 'lists'], listmax=3, unroll=6)
def h_read(g):
    """Reading shows the pairs in the order they were added."""
    pairs = content(g)
    d = OrderedMultiDict(pairs)
    agrees(g, d, pairs, 'read')
    f = firsts(pairs)
    g.check(same([k for k in d], [k for k, v in f]), 'keys')
    g.check(same([v for v in d.values()], [v for k, v in f]), 'values')
    g.check(same([p for p in d.lists()], [(k, values(pairs, k)) for k, v in f]), 'lists')


@harness(functions=BASE + UNLINK + [O + '__setitem__', O + 'setlist', O + 'poplist', O + '__delitem__',
                                    O + 'pop'], listmax=3, unroll=6)
def h_write(g):
    """Replacing moves a key to the end, adding appends, deleting removes every pair of the key."""
    pairs = content(g)
    d = OrderedMultiDict(pairs)
    k, v = key(g), val(g)
    old = values(pairs, k)
    op = g.choice('op', ['set', 'add', 'setlist', 'poplist', 'del', 'pop', 'setdefault', 'clear', 'update'])
    if op == 'set':
        d[k] = v
        want = without(pairs, k) + [(k, v)]
    elif op == 'add':
        d.add(k, v)
        want = pairs + [(k, v)]
    elif op == 'setlist':
        w = val(g, 'w')
        d.setlist(k, [v, w])
        want = without(pairs, k) + [(k, v), (k, w)]
    elif op == 'poplist':
        g.check(same(d.poplist(k), old), 'poplist result')
        want = without(pairs, k)
    elif op == 'setdefault':
        r = d.setdefault(k, v)
        want = pairs if len(old) > 0 else pairs + [(k, v)]
        g.check(same(r, old[0] if len(old) > 0 else v), 'setdefault result')
    elif op == 'clear':
        d.clear()
        want = []
    elif op == 'update':
        d.update(d)
        want = pairs + pairs
    else:
        r = outcome((lambda: d.pop(k)) if op == 'pop' else (lambda: d.__delitem__(k)))
        want = without(pairs, k)
        if len(old) == 0:
            g.check(same(r, ('exc', BadRequestKeyError)), 'missing')
        else:
            g.check(same(r, ('ok', old[0] if op == 'pop' else None)), 'result')
    agrees(g, d, want, op)


@harness(functions=BASE + UNLINK + [O + 'popitem', O + 'popitemlist'], listmax=3, unroll=6)
def h_popitem(g):
    """popitem and popitemlist remove one key with all its pairs."""
    pairs = content(g)
    d = OrderedMultiDict(pairs)
    full = g.bool('list')
    r = outcome(d.popitemlist if full else d.popitem)
    if len(pairs) == 0:
        g.check(same(r, ('exc', BadRequestKeyError)), 'empty')
    else:
        k, v = r[1]
        old = values(pairs, k)
        g.check(len(old) > 0, 'key was there')
        g.check(same(v, old if full else old[0]), 'value')
        agrees(g, d, without(pairs, k), 'popitem')


@harness(functions=BASE + [O + '__eq__', O + '__ne__'], listmax=2)
def h_eq(g):
    """Two ordered dicts are equal exactly when their pairs are, in order."""
    a = content(g)
    b = g.list('other', lambda g: (key(g, 'k2'), val(g, 'v2')), max=5)
    da, db = OrderedMultiDict(a), OrderedMultiDict(b)
    g.check((da == db) == same(a, b), 'eq')
    g.check((da != db) == (not same(a, b)), 'ne')


# -- the parts, for lists of any length ---------------------------------------
# The pairs are kept as a linked list of buckets, and for each key the list of its buckets. The contracts below
# take buckets in any surroundings: only the neighbours of a bucket are objects, what lies beyond them is a
# token, so that the proof fails if anything beyond them is looked at or changed.

class Near(object):
    """A bucket next to the one of interest, with something unknown on the far side."""
    def __init__(self, prev, next):
        self.prev = prev
        self.next = next

    def __bool__(self):
        return True


class Ends(object):
    """A dict as far as buckets know it."""
    def __init__(self, first, last):
        self._first_bucket = first
        self._last_bucket = last


@harness(functions=['verktyg.datastructures:_omd_bucket.__init__'])
def h_link(g):
    """A new bucket comes behind the last one, and is the first one if there was none."""
    if not hasattr(OrderedMultiDict(), '_first_bucket'):
        raise Missing('the list of buckets')
    k, v = g.tok('key'), g.tok('value')
    far, first = g.tok('far'), g.tok('first')
    kind = g.choice('buckets', ['none', 'one', 'more'])
    last = None if kind == 'none' else Near(None if kind == 'one' else far, None)
    d = Ends(None if kind == 'none' else last if kind == 'one' else first, last)
    old = d._first_bucket
    b = BUCKET(d, k, v)
    g.check(b.key == k and b.value == v, 'pair')
    g.check(b.prev is last and b.next is None, 'behind the last one')
    g.check(d._last_bucket is b and d._first_bucket is (b if kind == 'none' else old), 'ends')
    if last is not None:
        g.check(last.next is b and last.prev is (None if kind == 'one' else far), 'neighbour')


@harness(functions=UNLINK)
def h_unlink(g):
    """A bucket is taken out between its neighbours, which follow each other then."""
    if not hasattr(OrderedMultiDict(), '_first_bucket'):
        raise Missing('the list of buckets')
    d = Ends(None, None)
    b = BUCKET(d, 'k', 'v')
    before, behind = g.tok('before'), g.tok('behind')
    prev = Near(before, b) if g.bool('prev') else None
    next = Near(b, behind) if g.bool('next') else None
    b.prev, b.next = prev, next
    first, last = g.tok('first'), g.tok('last')
    d._first_bucket = first if prev is not None else b
    d._last_bucket = last if next is not None else b
    b.unlink(d)
    if prev is not None:
        g.check(prev.next is next and prev.prev is before, 'prev')
    if next is not None:
        g.check(next.prev is prev and next.next is behind, 'next')
    g.check(d._first_bucket is (first if prev is not None else next), 'first')
    g.check(d._last_bucket is (last if next is not None else prev), 'last')


class Held(object):
    """A bucket of a dict that remembers being taken out."""
    def __init__(self, value, home, log):
        self.value = value
        self.home = home
        self.log = log

    def unlink(self, omd):
        assert omd is self.home, 'not the dict of the bucket'
        self.log.append(self.value)


def holding(g, k, other, log):
    """A dict with some buckets for one key and some for another one."""
    d = OrderedMultiDict()
    buckets = g.list('buckets', lambda g: Held(g.tok('value'), d, log))
    rest = g.list('other', lambda g: Held(g.tok('other value'), d, log))
    if len(buckets) > 0:
        dict.__setitem__(d, k, buckets)
    if len(rest) > 0:
        dict.__setitem__(d, other, rest)
    return d, [b.value for b in buckets], [b.value for b in rest]


@harness(functions=[O + '__getitem__', O + 'getlist'])
def h_held_read(g):
    """Looking up a key gives the values of its buckets, in order, and takes none out."""
    log = []
    k, other, missing = 'k', 'o', 'm'
    d, want, rest = holding(g, k, other, log)
    g.check(same(d.getlist(k), want) and same(d.getlist(other), rest) and d.getlist(missing) == [], 'getlist')
    g.check(same(outcome(lambda: d[k]), ('ok', want[0]) if len(want) > 0 else ('exc', BadRequestKeyError)), 'item')
    g.check((k in d) == (len(want) > 0) and missing not in d, 'contains')
    g.check(log == [], 'nothing taken out')


@harness(functions=[O + 'poplist', O + 'pop', O + '__delitem__'])
def h_held_pop(g):
    """Removing a key takes each of its buckets out once, in order, and no other one."""
    log = []
    k, other = 'k', 'o'
    d, want, rest = holding(g, k, other, log)
    op = g.choice('op', ['poplist', 'pop', 'pop default', 'del'])
    default = g.tok('default')
    if op == 'poplist':
        g.check(same(d.poplist(k), want), 'values')
    elif op == 'pop default':
        g.check(d.pop(k, default) == (want[0] if len(want) > 0 else default), 'value or default')
    elif len(want) == 0:
        g.check(same(outcome(lambda: d.pop(k) if op == 'pop' else d.__delitem__(k)), ('exc', BadRequestKeyError)), 'missing')
    elif op == 'pop':
        g.check(d.pop(k) == want[0], 'value')
    else:
        del d[k]
    g.check(same(log, want), 'taken out')
    g.check(k not in d and same(d.getlist(other), rest), 'gone')


@scenario(functions=BASE + UNLINK + [O + f for f in (
    '__eq__', '__ne__', '__setitem__', '__delitem__', 'keys', 'values', 'items', 'lists', 'listvalues',
    'getlist', 'setlist', 'poplist', 'pop', 'popitem', 'popitemlist', '__reduce_ex__', '__getstate__',
    '__setstate__', 'clear', 'deepcopy')], n=4000, note='sequences of operations against a list of pairs')
def s_history(g):
    """Through any sequence of operations an OrderedMultiDict stays what its list of pairs says."""
    import copy
    import pickle
    pairs = content(g)
    kind = g.choice('from', ['list', 'omd', 'iter', 'md'])
    if kind == 'md':
        seen = list(dict.fromkeys(k for k, v in pairs))
        d = OrderedMultiDict(MultiDict(pairs))
        pairs = [(k, v) for k in seen for v in values(pairs, k)]
    else:
        d = OrderedMultiDict({'list': lambda: pairs, 'omd': lambda: OrderedMultiDict(pairs),
                              'iter': lambda: iter(pairs)}[kind]())
    pairs = list(pairs)
    for _ in range(g.int('steps', 0, 7)):
        op = g.choice('op', ['set', 'add', 'setlist', 'setdefault', 'pop', 'popd', 'poplist', 'popitem',
                             'popitemlist', 'update', 'del', 'clear', 'copy', 'deep', 'pickle', 'copycopy',
                             'deepcopy', 'state'])
        k, v = key(g), val(g)
        old = values(pairs, k)
        if op == 'set':
            d[k] = v
            pairs = without(pairs, k) + [(k, v)]
        elif op == 'add':
            d.add(k, v)
            pairs = pairs + [(k, v)]
        elif op == 'setlist':
            new = [val(g, 'n') for _ in range(g.int('len', 0, 3))]
            d.setlist(k, iter(new))
            pairs = without(pairs, k) + [(k, n) for n in new]
        elif op == 'setdefault':
            g.check(d.setdefault(k, v) == (old[0] if old else v), 'setdefault')
            pairs = pairs if old else pairs + [(k, v)]
        elif op in ('pop', 'popd'):
            r = outcome(lambda: d.pop(k, 'dflt') if op == 'popd' else d.pop(k))
            g.check(r == (('ok', old[0]) if old else
                          ('ok', 'dflt') if op == 'popd' else ('exc', BadRequestKeyError)), 'pop')
            pairs = without(pairs, k)
        elif op == 'poplist':
            g.check(d.poplist(k) == old, 'poplist')
            pairs = without(pairs, k)
        elif op in ('popitem', 'popitemlist'):
            r = outcome(getattr(d, op))
            if pairs:
                kk, vv = r[1]
                vs = values(pairs, kk)
                g.check(vs and vv == (vs if op == 'popitemlist' else vs[0]), op)
                pairs = without(pairs, kk)
            else:
                g.check(r == ('exc', BadRequestKeyError), op)
        elif op == 'update':
            new = [(k, v), (key(g, 'k2'), 'u'), (k, 'w')]
            d.update(OrderedMultiDict(new) if g.bool('omd') else new)
            pairs = pairs + new
        elif op == 'del':
            g.check((outcome(lambda: d.__delitem__(k))[0] == 'ok') == bool(old), 'del')
            pairs = without(pairs, k)
        elif op == 'clear':
            d.clear()
            pairs = []
        elif op == 'state':
            d.__setstate__(d.__getstate__())
        else:
            src = d
            d = {'copy': lambda: d.copy(), 'deep': lambda: d.deepcopy(), 'copycopy': lambda: copy.copy(d),
                 'pickle': lambda: pickle.loads(pickle.dumps(d)),
                 'deepcopy': lambda: copy.deepcopy(d)}[op]()
            g.check(d == src and not d != src, 'copy equal')
            src.add(k, v)
            src.poplist(pairs[0][0] if pairs else 'x')
            g.check(type(d) is OrderedMultiDict, 'type kept')
        for handed in ([x for _, x in d.lists()], d.listvalues(), d.to_dict(flat=False).values(),
                       [d.getlist(k) for k in d]):
            for x in list(handed):
                x.append('more')
        f = firsts(pairs)
        g.check(list(d.items(multi=True)) == pairs, 'pairs')
        g.check(list(d.items()) == f and list(d) == [a for a, b in f] == list(d.keys()), 'items')
        g.check(list(d.values()) == [b for a, b in f], 'values')
        g.check(list(d.lists()) == [(a, values(pairs, a)) for a, b in f], 'lists')
        g.check(list(d.listvalues()) == [values(pairs, a) for a, b in f], 'listvalues')
        g.check(len(d) == len(f), 'len')
        p = key(g, 'probe')
        g.check(d.getlist(p) == values(pairs, p) and (p in d) == bool(values(pairs, p)), 'getlist')
        g.check(d == OrderedMultiDict(pairs) and not d != OrderedMultiDict(pairs), 'eq')
        g.check((d == OrderedMultiDict(pairs[::-1])) == (pairs == pairs[::-1]), 'eq order')
        g.check(d == MultiDict(pairs) and not d != MultiDict(pairs), 'eq unordered')
        g.check(d != 5 and not d == 5, 'eq other')
        g.check(d.to_dict() == dict(f), 'to_dict')
        g.check(d.to_dict(flat=False) == {a: values(pairs, a) for a, b in f}, 'to_dict lists')


@scenario(functions=['verktyg.datastructures:OrderedMultiDict.deepcopy'], n=600, note='values that are shared')
def s_deep(g):
    """A deep copy has values of its own, and shares among its parts what was shared."""
    import copy
    shared = [g.choice('shared', ['', 'a'])]
    pairs = [('k%d' % g.int('key', 0, 2), shared if g.bool('same') else [i]) for i in range(g.int('pairs', 0, 5))]
    d = OrderedMultiDict(pairs)
    how = g.choice('how', ['deepcopy', 'method', 'together'])
    other = None
    if how == 'deepcopy':
        c = copy.deepcopy(d)
    elif how == 'method':
        c = d.deepcopy()
    else:
        other, c = copy.deepcopy([shared, d])
    g.check(type(c) is OrderedMultiDict and c == d and list(c.items(multi=True)) == list(d.items(multi=True)), 'equal')
    for (k, v), (k2, w) in zip(d.items(multi=True), c.items(multi=True)):
        g.check(k == k2 and v == w and v is not w, 'own values')
        if v is shared:
            if other is None:
                other = w
            g.check(other is w, 'still shared')
    for k, w in c.items(multi=True):
        w.append('more')
    g.check(shared in (['a'], ['']), 'first not changed')
