"""C14 — HeaderSet: an ordered case-insensitive set that tells its owner of every change."""
from pyvc.api import *
from verktyg.http.basic import HeaderSet, parse_set_header

META = {
    'level': 'proof',
    'files': ['verktyg/http/basic.py'],
    'assumptions': [],
}

S = 'verktyg.http.basic:HeaderSet.'
NAMES = ['Accept', 'accept', 'COOKIE', 'cookie', 'x', 'X', 'foo bar', '']


def name(g, n='name'):
    return g.str(n, hints=NAMES)


def has(names, x):
    return exists(names, lambda n: n.lower() == x.lower())


def distinct(g):
    """Names of which no two are equal but for case."""
    return g.list('names', lambda g: name(g, 'n'), max=4, distinct=lambda n: n.lower())


class Owner(object):
    """Counts the notifications it gets."""
    def __init__(self):
        self.calls = 0

    def __call__(self, hs):
        self.calls += 1


def agrees(g, hs, names, label):
    """hs holds exactly these names, in this order."""
    g.check(same([n for n in hs], names), label + ' content')
    g.check(len(hs) == len(names), label + ' len')
    probe = name(g, 'probe')
    g.check((probe in hs) == has(names, probe), label + ' contains')


@harness(functions=[S + '__init__', S + 'update', S + '__contains__', S + '__len__', S + '__iter__'])
def h_init(g):
    """Built from different names it holds exactly those."""
    names = distinct(g)
    want = [n for n in names]
    owner = Owner()
    hs = HeaderSet(names, on_update=owner)
    agrees(g, hs, want, 'init')
    g.check(owner.calls == 0, 'not notified')


@harness(functions=[S + '__init__', S + 'update', S + 'add', S + 'remove', S + 'clear'])
def h_copy(g):
    """A set made from another one, or from a list, is changed on its own."""
    names = [name(g, n) for n in g.choice('names', [[], ['a'], ['a', 'b']])]
    g.assume(len(names) < 2 or names[0].lower() != names[1].lower())
    want = [n for n in names]
    owner = Owner()
    a = HeaderSet(names, on_update=owner)
    b = HeaderSet(a)
    g.check(same([n for n in b], want), 'copy')
    if g.bool('add'):
        b.add(name(g))
    else:
        b.clear()
    g.check(owner.calls == 0, 'not notified')
    g.check(same([n for n in names], want), 'list')
    agrees(g, a, want, 'original')


@harness(functions=[S + 'as_set'])
def h_as_set(g):
    """What is done with the set that is returned does not change the names."""
    names = [name(g, n) for n in g.choice('names', [[], ['a'], ['a', 'b']])]
    g.assume(len(names) < 2 or names[0].lower() != names[1].lower())
    hs = HeaderSet(names)
    casing = g.bool('casing')
    r = hs.as_set(casing)
    probe = name(g, 'looked up')
    g.check((probe in r) == exists(names, lambda n: (n if casing else n.lower()) == probe), 'the names')
    g.check(len(r) == len(names), 'how many')
    r.clear()
    agrees(g, hs, names, 'names')


@harness(functions=[S + '__init__', S + 'update'])
def h_init_dup(g):
    """Built from names with duplicates it keeps the first of each."""
    a, b, c = name(g, 'a'), name(g, 'b'), name(g, 'c')
    want = [a]
    if not has(want, b):
        want = want + [b]
    if not has(want, c):
        want = want + [c]
    agrees(g, HeaderSet([a, b, c]), want, 'init')


@harness(functions=[S + 'add', S + 'update'])
def h_add(g):
    """Adding appends a new name, leaves a known one alone, and notifies on change only."""
    names = distinct(g)
    want = [n for n in names]
    owner = Owner()
    hs = HeaderSet(names, on_update=owner)
    x = name(g)
    known = has(want, x)
    if g.bool('update'):
        hs.update([x, x])
    else:
        hs.add(x)
    agrees(g, hs, want if known else want + [x], 'add')
    g.check(owner.calls == (0 if known else 1), 'notified')


@harness(functions=[S + 'remove', S + 'discard'])
def h_remove(g):
    """Removing takes out exactly the named entry, in any capitalisation."""
    names = distinct(g)
    owner = Owner()
    x = name(g)
    f = first(names, lambda n: n.lower() == x.lower())
    known = f is not None
    want = f[0] + f[2] if known else [n for n in names]
    hs = HeaderSet(names, on_update=owner)
    if g.bool('discard'):
        r = outcome(lambda: hs.discard(x))
        g.check(same(r, ('ok', None)), 'discard result')
    else:
        r = outcome(lambda: hs.remove(x))
        g.check(same(r, ('ok', None) if known else ('exc', KeyError)), 'remove result')
    agrees(g, hs, want, 'remove')
    g.check(owner.calls == (1 if known else 0), 'notified')


@harness(functions=[S + '__setitem__', S + '__delitem__', S + 'find'])
def h_index(g):
    """Writing or deleting at a position keeps the names different."""
    names = distinct(g)
    g.assume(len(names) > 0)
    want = [n for n in names]
    owner = Owner()
    hs = HeaderSet(names, on_update=owner)
    x = name(g)
    if g.bool('delete'):
        del hs[0]
        agrees(g, hs, want[1:], 'delete')
    else:
        rest = want[1:]
        f = first(rest, lambda n: n.lower() == x.lower())
        hs[0] = x
        agrees(g, hs, [x] + (rest if f is None else f[0] + f[2]), 'assign')
    g.check(owner.calls == 1, 'notified')


@harness(functions=[S + 'find', S + 'index', S + '__getitem__'])
def h_find(g):
    """find and index give the position of a name, in any capitalisation."""
    names = distinct(g)
    want = [n for n in names]
    hs = HeaderSet(names)
    x = name(g)
    f = first(want, lambda n: n.lower() == x.lower())
    if f is None:
        g.check(hs.find(x) == -1, 'not found')
        g.check(same(outcome(lambda: hs.index(x)), ('exc', IndexError)), 'no index')
    else:
        g.check(hs.find(x) == len(f[0]), 'found')
        g.check(same(outcome(lambda: hs.index(x)), ('ok', len(f[0]))), 'index')


@harness(functions=[S + 'clear'])
def h_clear(g):
    """clear empties the set and notifies."""
    owner = Owner()
    hs = HeaderSet(distinct(g), on_update=owner)
    hs.clear()
    agrees(g, hs, [], 'clear')
    g.check(owner.calls == 1, 'notified')


@scenario(functions=[S + f for f in ('__init__', 'add', 'remove', 'discard', 'update', 'clear', 'find',
                                     'index', 'as_set', '__setitem__', '__delitem__', '__contains__',
                                     '__len__', '__bool__')] + [
          'verktyg.http.basic:parse_set_header'], n=3000, note='sequences of operations against a list model')
def s_history(g):
    """Through any sequence of operations the set stays what a list of different names would be."""
    owner = Owner()
    names = g.list('names', lambda g: name(g, 'n'), max=4)
    model = []
    for n in names:
        if not has(model, n):
            model.append(n)
    hs = HeaderSet(names, on_update=owner)
    calls = 0
    for _ in range(g.int('steps', 0, 6)):
        op = g.choice('op', ['add', 'update', 'remove', 'discard', 'set', 'del', 'clear', 'neg'])
        x = name(g, 'x')
        before = list(model)
        if op in ('add', 'update'):
            xs = [x] if op == 'add' else [x, name(g, 'y'), x.upper()]
            for y in xs:
                if not has(model, y):
                    model.append(y)
            hs.add(x) if op == 'add' else hs.update(xs)
        elif op in ('remove', 'discard'):
            r = outcome(lambda: getattr(hs, op)(x))
            g.check(r == (('ok', None) if has(model, x) or op == 'discard' else ('exc', KeyError)), op)
            model = [n for n in model if n.lower() != x.lower()]
        elif op == 'clear':
            hs.clear()
            model = []
            calls += not before
        elif model:
            i = g.int('i', 0, len(model) - 1)
            j = i - len(model) if op == 'neg' else i
            if op == 'del':
                del hs[j]
                del model[i]
            else:
                hs[j] = x
                model = [x if k == i else n for k, n in enumerate(model)
                         if k == i or n.lower() != x.lower()]
                calls += model == before
        calls += model != before
        g.check(list(hs) == model and len(hs) == len(model), 'content')
        g.check(bool(hs) == bool(model), 'truth')
        g.check(hs.as_set() == {n.lower() for n in model}, 'as_set')
        g.check(hs.as_set(preserve_casing=True) == set(model), 'as_set casing')
        hs.as_set().clear()
        hs.as_set(preserve_casing=True).add('more')
        copied = HeaderSet(hs)
        copied.add('more')
        copied.discard(x)
        p = name(g, 'probe')
        g.check((p in hs) == has(model, p), 'contains')
        g.check(owner.calls == calls, 'notified exactly on change')
        at = [i for i, n in enumerate(model) if n.lower() == p.lower()]
        g.check(hs.find(p) == (at[0] if at else -1), 'find')
