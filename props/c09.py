"""C09 — Headers is an ordered, case-insensitive multimap."""
from pyvc.api import *
from verktyg.http import Headers

META = {
    'level': 'proof',
    'files': ['verktyg/http/basic.py'],
    'assumptions': ['str.lower is an arbitrary idempotent function of the string in the proofs'],
}

H = 'verktyg.http.basic:Headers.'
KEYS = ['X-A', 'x-a', 'Foo', 'FOO', 'foo', 'fo', 'Fooo', 'Content-Type', 'content-type', '']


def key(g, name='key'):
    return g.str(name, hints=KEYS)


def value(g, name='value'):
    v = g.str(name, max=3, alphabet='ab, ;="\xe9', hints=['', 'a', '42', 'text/html'])
    g.assume('\n' not in v and '\r' not in v)
    return v


def items(g):
    return g.list('items', lambda g: (key(g, 'k'), value(g, 'v')), max=5)


def eqi(a, b):
    return a.lower() == b.lower()


def view(h):
    return [kv for kv in h]


@harness(functions=[H + '__init__', H + 'extend', H + 'add', H + '__iter__', H + '__len__'])
def h_new(g):
    """Headers(list) holds exactly the given pairs in order."""
    it = items(g)
    want = [(k, v) for k, v in it]
    h = Headers(it)
    g.check(same(view(h), want), 'pairs')
    g.check(len(h) == len(want), 'len')
    g.check(same(h.to_wsgi_list(), want), 'wsgi')


@harness(functions=[H + 'extend', H + 'items'])
def h_extend(g):
    """Extending adds every pair that is given in order, also if it is given by the headers themselves."""
    it = items(g)
    h = Headers(it)
    how = g.choice('how', ['itself', 'copy', 'items', 'iterator', 'list', 'nothing'])
    h.extend(h if how == 'itself' else h.copy() if how == 'copy' else h.items() if how == 'items' else
             iter(h) if how == 'iterator' else [kv for kv in it] if how == 'list' else [])
    g.check(same(view(h), it if how == 'nothing' else it + it), 'pairs')


@harness(functions=[H + '__getitem__', H + 'get', H + '__contains__'])
def h_get(g):
    """Lookup gives the first value whose name matches ignoring case."""
    it = items(g)
    k = key(g)
    want = first(it, lambda kv: eqi(kv[0], k))
    h = Headers(it)
    d = g.tok('default')
    if want is None:
        g.check(h.get(k, d) is d, 'default')
        g.check(k not in h, 'absent')
        r = outcome(lambda: h[k])
        g.check(r[0] == 'exc' and issubclass(r[1], KeyError), 'KeyError')
    else:
        g.check(h.get(k, d) == want[1][1], 'get')
        g.check(k in h, 'present')
        g.check(h[k] == want[1][1], 'item')


@harness(functions=[H + 'getlist', H + 'get_all'])
def h_getlist(g):
    """getlist gives all values of the name in order."""
    it = items(g)
    k = key(g)
    want = [v for kk, v in it if eqi(kk, k)]
    h = Headers(it)
    g.check(same(h.getlist(k), want), 'getlist')
    g.check(same(h.get_all(k), want), 'get_all')


@harness(functions=[H + 'items', H + 'keys', H + 'values'])
def h_views(g):
    """items/keys/values list the stored pairs in order; lower only folds names."""
    it = items(g)
    w1 = [(k, v) for k, v in it]
    w2 = [(k.lower(), v) for k, v in it]
    w3 = [k for k, v in it]
    w4 = [k.lower() for k, v in it]
    w5 = [v for k, v in it]
    h = Headers(it)
    g.check(same(list(h.items()), w1), 'items')
    g.check(same(list(h.items(lower=True)), w2), 'items lower')
    g.check(same(list(h.keys()), w3), 'keys')
    g.check(same(list(h.keys(lower=True)), w4), 'keys lower')
    g.check(same(list(h.values()), w5), 'values')


@harness(functions=[H + 'add', H + 'add_header'])
def h_add(g):
    """add appends one pair and changes nothing else."""
    it = items(g)
    k, v = key(g), value(g)
    want = [(a, b) for a, b in it] + [(k, v)]
    h = Headers(it)
    if g.bool('alias'):
        h.add_header(k, v)
    else:
        h.add(k, v)
    g.check(same(view(h), want), 'appended')


@harness(functions=[H + 'set', H + '__setitem__'])
def h_set(g):
    """set replaces the first match in place, drops the other matches, keeps the
    rest in order, and appends when there is none."""
    it = items(g)
    k, v = key(g), value(g)
    f = first(it, lambda kv: eqi(kv[0], k))
    if f is None:
        want = [kv for kv in it] + [(k, v)]
    else:
        want = f[0] + [(k, v)] + [kv for kv in f[2] if not eqi(kv[0], k)]
    h = Headers(it)
    if g.bool('item'):
        h[k] = v
    else:
        h.set(k, v)
    g.check(same(view(h), want), 'set')


@harness(functions=[H + '__delitem__', H + 'remove'])
def h_del(g):
    """Deleting a name removes every match and nothing else."""
    it = items(g)
    k = key(g)
    want = [(a, b) for a, b in it if not eqi(a, k)]
    h = Headers(it)
    if g.bool('item'):
        del h[k]
    else:
        h.remove(k)
    g.check(same(view(h), want), 'deleted')


@harness(functions=[H + 'pop'])
def h_pop(g):
    """pop(name) returns the first value and removes every match."""
    it = items(g)
    k = key(g)
    f = first(it, lambda kv: eqi(kv[0], k))
    want = [(a, b) for a, b in it if not eqi(a, k)]
    h = Headers(it)
    if f is None:
        r = outcome(h.pop, k)
        g.check(r[0] == 'exc' and issubclass(r[1], KeyError), 'KeyError')
        d = g.tok('default')
        g.check(h.pop(k, d) is d, 'default')
    else:
        g.check(same(h.pop(k), f[1][1]), 'value')
    g.check(same(view(h), want), 'rest')


@harness(functions=[H + 'setdefault'])
def h_setdefault(g):
    """setdefault returns the stored value, or stores and returns the default."""
    it = items(g)
    k, v = key(g), value(g)
    f = first(it, lambda kv: eqi(kv[0], k))
    h = Headers(it)
    got = h.setdefault(k, v)
    if f is None:
        g.check(same(got, v), 'default')
        g.check(same(view(h), it + [(k, v)]), 'stored')
    else:
        g.check(same(got, f[1][1]), 'stored value')
        g.check(same(view(h), [kv for kv in it]), 'unchanged')


@harness(functions=[H + 'copy', H + '__copy__', H + '__init__'])
def h_copy(g):
    """A copy has the same pairs and is independent of the original."""
    it = items(g)
    k, v = key(g), value(g)
    want = [(a, b) for a, b in it]
    h = Headers(it)
    c = h.copy() if g.bool('copy method') else h.__copy__()
    g.check(type(c) is Headers and c is not h, 'another one')
    h.add(k, v)
    g.check(same(view(c), want), 'independent')
    g.check(same(view(h), want + [(k, v)]), 'original')


@harness(functions=[H + '__str__', H + 'to_wsgi_list'])
def h_text(g):
    """As text every pair has a line of its own, in order, before an empty line."""
    it = items(g)
    h = Headers(it)
    want = '\r\n'.join(['%s: %s' % (k, v) for k, v in it] + ['\r\n'])
    g.check(str(h) == want, 'text')
    sent = h.to_wsgi_list()
    g.check(same(sent, it), 'pairs')
    sent.append(('a', 'b'))
    g.check(same(view(h), it), 'a list of its own')


@harness(functions=[H + 'clear', H + '__len__'])
def h_clear(g):
    """clear empties the object and leaves the argument of the constructor alone."""
    it = items(g)
    want = [(a, b) for a, b in it]
    h = Headers(it)
    h.clear()
    g.check(len(h) == 0 and same(view(h), []), 'cleared')
    g.check(same([kv for kv in it], want), 'argument unchanged')


@scenario(functions=[H + f for f in (
    'add', 'set', '__setitem__', '__delitem__', 'remove', 'pop', 'popitem', 'setdefault',
    'extend', 'clear', 'getlist', 'get', '__getitem__', '__contains__', '__len__', 'copy')],
    n=4000, note='histories of operations against a reference list, including the integer and '
                 'slice forms')
def s_history(g):
    """Any history of operations agrees with a reference list of pairs."""
    ref = [kv for kv in items(g)]
    h = Headers(list(ref))
    ops = ['add', 'set', 'item', 'del', 'remove', 'pop', 'popd', 'setdefault', 'extend', 'clear',
           'idx', 'slice', 'setidx', 'delidx', 'popidx', 'poplast', 'copy', 'setslice', 'extdict',
           'delslice']
    for _ in range(g.int('n', 1, 6)):
        op = g.choice('op', ops)
        k, v = key(g), value(g)
        if op == 'add':
            h.add(k, v)
            ref.append((k, v))
        elif op in ('set', 'item'):
            if op == 'set':
                h.set(k, v)
            else:
                h[k] = v
            hit = [i for i, kv in enumerate(ref) if eqi(kv[0], k)]
            if hit:
                ref[hit[0]] = (k, v)
                for i in reversed(hit[1:]):
                    del ref[i]
            else:
                ref.append((k, v))
        elif op in ('del', 'remove'):
            if op == 'del':
                del h[k]
            else:
                h.remove(k)
            ref = [kv for kv in ref if not eqi(kv[0], k)]
        elif op in ('pop', 'popd'):
            r = outcome(h.pop, k) if op == 'pop' else outcome(h.pop, k, 'dflt')
            hit = [b for a, b in ref if eqi(a, k)]
            if hit:
                g.check(r == ('ok', hit[0]), 'pop')
            elif op == 'popd':
                g.check(r == ('ok', 'dflt'), 'pop default')
            else:
                g.check(r[0] == 'exc' and issubclass(r[1], KeyError), 'pop missing')
            ref = [kv for kv in ref if not eqi(kv[0], k)]
        elif op == 'setdefault':
            r = h.setdefault(k, v)
            hit = [b for a, b in ref if eqi(a, k)]
            g.check(r == (hit[0] if hit else v), 'setdefault')
            if not hit:
                ref.append((k, v))
        elif op == 'extend':
            more = items(g)
            h.extend(list(more))
            ref.extend(more)
        elif op == 'extdict':
            h.extend({k: [v, 'second'], k + 'z': 'third'})
            ref.extend([(k, v), (k, 'second'), (k + 'z', 'third')])
        elif op == 'clear':
            h.clear()
            ref = []
        elif op == 'idx' and ref:
            i = g.int('i', -len(ref), len(ref) - 1)
            g.check(h[i] == ref[i], 'index')
        elif op == 'slice':
            i, j = g.int('i'), g.int('j')
            g.check(list(h[i:j]) == ref[i:j], 'slice')
        elif op == 'setidx' and ref:
            i = g.int('i', -len(ref), len(ref) - 1)
            h[i] = (k, v)
            ref[i] = (k, v)
        elif op == 'delidx' and ref:
            i = g.int('i', -len(ref), len(ref) - 1)
            del h[i]
            del ref[i]
        elif op == 'delslice':
            i, j = g.int('i'), g.int('j')
            del h[i:j]
            del ref[i:j]
        elif op == 'setslice':
            i, j = g.int('i'), g.int('j')
            h[i:j] = [(k, v)]
            ref[i:j] = [(k, v)]
        elif op == 'popidx' and ref:
            i = g.int('i', -len(ref), len(ref) - 1)
            g.check(h.pop(i) == ref.pop(i), 'pop index')
        elif op == 'poplast' and ref:
            if g.bool('item'):
                g.check(h.popitem() == ref.pop(), 'popitem')
            else:
                g.check(h.pop() == ref.pop(), 'pop last')
        elif op == 'copy':
            c = h.copy()
            h.add('after', 'copy')
            h = c
        g.check(list(h) == ref, 'view')
        g.check(len(h) == len(ref), 'len')
        q = key(g, 'query')
        hit = [b for a, b in ref if eqi(a, q)]
        g.check(h.getlist(q) == hit, 'getlist')
        g.check((q in h) == bool(hit), 'contains')
        g.check(h.get(q) == (hit[0] if hit else None), 'get')
    g.check(Headers(list(ref)) == h, 'equal to a fresh one')


@scenario(functions=[H + 'get', H + 'getlist'], n=2000, note='conversion callables')
def s_typed(g):
    """A conversion that fails gives the default, and drops the value from a list."""
    it = [(key(g, 'k'), g.choice('v', ['1', '22', 'x', '', '-3', '1.5'])) for _ in range(
        g.int('n', 0, 4))]
    h = Headers(list(it))
    k = key(g)
    vals = [v for kk, v in it if eqi(kk, k)]

    def conv(v):
        try:
            return [int(v)]
        except ValueError:
            return []
    got = h.get(k, 'd', type=int)
    g.check(got == ((conv(vals[0]) or ['d'])[0] if vals else 'd'), 'typed get')
    g.check(h.getlist(k, type=int) == [x for v in vals for x in conv(v)], 'typed getlist')
    g.check(h.get(k, as_bytes=True) == (vals[0].encode('latin1') if vals else None), 'bytes')
