import functools
from pyvc.vlib import *
from verktyg.http import cache_control as cc, basic
from verktyg.http.basic import Headers, is_byte_range_valid

def h_valid(g):
    a = g.opt('start', lambda g: g.int('start'))
    b = g.opt('stop', lambda g: g.int('stop'))
    n = g.opt('len', lambda g: g.int('len'))
    got = is_byte_range_valid(a, b, n)
    if (a is None) != (b is None):
        want = False
    elif a is None:
        want = n is None or n >= 0
    elif n is None:
        want = 0 <= a < b
    else:
        want = 0 <= a < b and a < n
    g.check(bool(got) == want, 'valid')

def h_rfl(g):
    u = g.str('units')
    n = g.opt('len', lambda g: g.int('len', 0))
    rs = g.list('ranges', lambda g: (g.int('b'), g.opt('e', lambda g: g.int('e'))))
    r = cc.Range(u, rs)
    got = outcome(r.range_for_length, n)
    want = None
    if u == 'bytes' and n is not None and len(rs) == 1:
        b, e = rs[0]
        if e is None:
            if b < 0:
                b = b + n
            e = n
        if 0 <= b < e and b < n:
            want = (b, min(e, n))
    g.check(same(got, ('ok', want)), 'rfl')

def h_getlist(g):
    items = g.list('items', lambda g: (g.str('k'), g.str('v')))
    h = Headers()
    h._list = items
    k = g.str('key')
    want = [v for kk, v in items if kk.lower() == k.lower()]
    got = h.getlist(k)
    g.check(same(got, want), 'getlist')

def h_get(g):
    items = g.list('items', lambda g: (g.str('k'), g.str('v')))
    h = Headers()
    h._list = items
    k = g.str('key')
    f = first(items, lambda kv: kv[0].lower() == k.lower())
    got = h.get(k)
    g.check(same(got, None if f is None else f[1][1]), 'get')

def h_del(g):
    items = g.list('items', lambda g: (g.str('k'), g.str('v')))
    want = [kv for kv in items if kv[0].lower() != 'x']
    h = Headers()
    h._list = items
    del h['X']
    g.check(same(h._list, want), 'del')


class Pass(object):
    def __init__(self, xs):
        self.step = functools.partial(next, iter(xs))

    def __iter__(self):
        return self

    def __next__(self):
        return self.step()


def h_pass(g):
    xs = g.list('xs', lambda g: g.int('x', 0, 3), max=3)
    g.check(same([x for x in Pass(xs)], xs), 'x')


def h_sum(g):
    xs = g.list('xs', lambda g: g.int('x', 0, 3), max=3)
    g.check(sum(x + 1 for x in xs) >= len(xs), 'x')
    g.check(sum(2 for x in xs) == 2 * len(xs), 'y')
    g.check(sum([y + 1 for y in list(xs)]) == sum(x + 1 for x in xs), 'z')


def h_join(g):
    xs = g.list('xs', lambda g: g.str('x', only='ab'))
    out = []
    for x in xs:
        if x != 'a':
            out.append(x + '!')
    g.check(', '.join(out) == ', '.join(x + '!' for x in xs if not x == 'a'), 'x')


def h_order(g):
    a, b, c = g.int('a', 0, 3), g.int('b', 0, 3), g.int('c', 0, 3)
    g.check(([a, b] < [a, c]) == (b < c), 'x')
    g.check(([a, b] < [a]) is False, 'y')
    g.check(([a, b] < [c]) == (a < c), 'z')
    g.check(sorted([[b, c], [a]])[0] == ([a] if a <= b else [b, c]), 'sorted')


def h_class(g):
    bases = [ValueError] if g.bool('b') else []

    class C(*bases, KeyError):
        """Both."""
        kind = 'c'
    g.check(issubclass(C, KeyError) and issubclass(C, ValueError) == (len(bases) == 1), 'x')
    g.check(C('y').kind == 'c' and isinstance(C('y'), KeyError), 'y')
