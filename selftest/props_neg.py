from pyvc.vlib import *
from verktyg.http import cache_control as cc, basic
from verktyg.http.basic import Headers, is_byte_range_valid
def items(g): 
    return g.list('items', lambda g: (g.str('k'), g.str('v')))
def h_n1(g):
    it=items(g); k=g.str('key')
    want = [v for kk, v in it if kk == k]
    h=Headers(); h._list=it
    g.check(same(h.getlist(k), want), 'x')
def h_n2(g):
    it=items(g); k=g.str('key')
    want = [v for kk, v in it if kk.lower() == k.lower()]
    h=Headers(); h._list=it
    got=h.getlist(k)
    got.append('x')
    g.check(same(got, want), 'x')
def h_n3(g):
    it=items(g); k=g.str('key')
    want = [kv for kv in it if kv[0].lower()!=k.lower()]
    h=Headers(); h._list=it
    def mydel(h,k):
        for i,(a,b) in enumerate(h._list):
            if a.lower()==k.lower():
                del h._list[i]
                break
    mydel(h,k)
    g.check(same(h._list, want), 'x')
def h_n4(g):
    it=items(g); k=g.str('key')
    n=0
    for a,b in it:
        if a==k: n+=1
    g.check(n<=len(it), 'ok')
    g.check(n<2, 'x')
def h_n5(g):
    it=items(g)
    out=[]
    for a,b in it:
        if a=='stop': break
        out.append(b)
    g.check(len(out)==len(it), 'x')
def h_n6(g):
    it=items(g)
    out=None
    for a,b in it:
        if a=='x':
            out=b
    f=first(it,lambda kv:kv[0]=='x')
    g.check(same(out, None if f is None else f[1][1]), 'x')
def h_n7(g):
    it=items(g)
    d={}
    for a,b in it:
        d.setdefault(a,b)
    g.check(len(d)==len(it),'x')


def _d(g):
    return g.dict('d', lambda g: g.str('k'), lambda g: g.list('vs', lambda g: g.str('v'), max=3), max=3)



def h_n8(g):
    d = _d(g)
    shared = []
    t = {}
    for k, v in d.items():
        t[k] = shared
    a, b = g.str('a'), g.str('b')
    g.assume(a in d and b in d and a != b)
    t[a].append('x')
    g.check(len(t[b]) == 0, 'x')



def h_n9(g):
    d = _d(g)
    n = 0
    t = {}
    for k, v in d.items():
        t[k] = n
        n += 1
    a = g.str('a')
    g.assume(a in d)
    g.check(t[a] == 0, 'x')



def h_n10(g):
    d = _d(g)
    t = {'c': v for k, v in d.items()}
    g.check(len(t) == len(d), 'x')



def h_n11(g):
    d = _d(g)
    shared = []
    t = []
    for k, v in d.items():
        t.append((k, shared))
    g.assume(len(t) > 1)
    t[0][1].append('x')
    g.check(len(t[1][1]) == 0, 'x')



def h_n12(g):
    d = _d(g)
    t = {k: v for k, v in d.items()}
    a = g.str('a')
    g.assume(a in d)
    n = len(d[a])
    t[a].append('x')
    g.check(len(d[a]) == n, 'x')



def h_n13(g):
    d = _d(g)
    t = {'z': []}
    for k, v in d.items():
        t[k] = v
    g.check(len(t) == len(d) + 1, 'x')



def h_n14(g):
    d = _d(g)
    t = {}
    for k, v in d.items():
        if k in t:
            continue
        t[k] = [x for x in v]
        t['q'] = []
    a = g.str('a')
    g.assume(a in d)
    g.check(len(t[a]) == len(d[a]), 'x')



def h_n15(g):
    d = _d(g)
    t = {}
    last = None
    for k, v in d.items():
        t[k] = last
        last = v
    a = g.str('a')
    g.assume(a in d)
    g.check(t[a] is None, 'x')


def h_n16(g):
    """Route.__eq__ calls all unbound routes equal."""
    from verktyg.routing import Route, Subdomain
    rs = g.list('rs', lambda g: Route('/' + g.str('x'), endpoint='e'), max=3)
    out = []
    for r in Subdomain('s', rs).get_routes(None):
        r = r.empty()
        r.route = r.route + '!'
        out.append(r)
    g.check(same([r.route for r in out], [r.route for r in rs]), 'x')


class Skip(object):
    def __init__(self, xs):
        self.it = iter(xs)

    def __iter__(self):
        return self

    def __next__(self):
        x = next(self.it)
        return x if x else 7


class Twice(object):
    def __init__(self, xs):
        self.it = iter(xs)
        self.n = 0

    def __iter__(self):
        return self

    def __next__(self):
        self.n += 1
        return next(self.it)


def h_n17(g):
    xs = g.list('xs', lambda g: g.int('x', 0, 3), max=3)
    g.check(same([x for x in Skip(xs)], xs), 'x')


def h_n18(g):
    xs = g.list('xs', lambda g: g.int('x', 0, 3), max=3)
    t = Twice(xs)
    g.check(same([x for x in t], xs) and t.n == 0, 'x')


def h_n19(g):
    xs = g.list('xs', lambda g: g.int('x', 0, 3), max=3)
    g.check(sum(x for x in xs) == sum(x + 1 for x in xs), 'x')


def h_n20(g):
    xs = g.list('xs', lambda g: g.int('x', 0, 3), max=3)
    g.check(sum(x for x in xs if x > 1) == sum(x for x in xs), 'x')


class Noting(object):
    def __init__(self, v, log):
        self.v = v
        self.log = log

    def hit(self):
        self.log.append(self.v)


def _hit_all(xs):
    for x in xs:
        x.hit()


def h_n20(g):
    # the list is reached through the elements only
    log = []
    xs = g.list('xs', lambda g: Noting(g.str('v'), log))
    _hit_all(xs)
    g.check(len(log) == 0, 'x')


def _call_all(xs, f):
    for x in xs:
        f(x)


def h_n21(g):
    # a variable of a caller is changed by a function it passed
    n = 0

    def f(x):
        nonlocal n
        n += 1
    _call_all(g.list('xs', lambda g: g.str('v')), f)
    g.check(n == 0, 'x')


def h_n22(g):
    n = 0

    def f(x):
        nonlocal n
        if x == 'a':
            n = 1
    _call_all(g.list('xs', lambda g: g.str('v')), f)
    g.check(n == 0, 'x')


def _counter():
    n = 0

    def f(x):
        nonlocal n
        n += 1
        return n
    return f


def h_n23(g):
    # a variable of a function that has returned
    f = _counter()
    for x in g.list('xs', lambda g: g.str('v')):
        f(x)
    g.check(f('x') == 1, 'x')


class Holder(object):
    def __init__(self):
        self.n = 0


def _inc_while(n, f):
    while n > 0:
        f()
        n -= 1


def h_n24(g):
    o = Holder()

    def f():
        o.n += 1
    _inc_while(g.int('n', 0), f)
    g.check(o.n == 0, 'x')


def h_n25(g):
    n = 0

    def f():
        nonlocal n
        n += 1
    _inc_while(g.int('n', 0), f)
    g.check(n == 0, 'x')


def h_n26(g):
    # an object in a dict of a caller
    o = Holder()
    xs = g.list('xs', lambda g: Noting(g.str('v'), o))

    def go(x):
        x.log.n = 5
    _call_all(xs, go)
    g.check(o.n == 0, 'x')


def h_n27(g):
    xs = g.list('xs', lambda g: g.str('x', only='ab'))
    g.check(', '.join([x for x in xs]) == ', '.join([x + 'c' if x == 'a' else x for x in xs]), 'x')


def h_n28(g):
    xs = g.list('xs', lambda g: g.str('x', only='ab'))
    g.check(','.join(xs) == ';'.join(xs), 'x')


def h_n29(g):
    xs = g.list('xs', lambda g: g.str('x', only='ab'))
    ys = g.list('ys', lambda g: g.str('x', only='ab'))
    g.check(','.join(xs) == ','.join(ys) or len(xs) != len(ys), 'x')


def h_n30(g):
    xs = g.list('xs', lambda g: g.str('x', only='ab', nonempty=True))
    if ','.join([x for x in xs if x != 'a']) == ','.join(xs):
        g.check(not exists(xs, lambda x: x == 'b'), 'x')


def h_n31(g):
    xs = g.list('xs', lambda g: g.str('x', only='ab', nonempty=True))
    y = g.str('y', only='ab')
    g.check(','.join(xs + [y]) != ','.join(xs), 'x')
    g.check(','.join([y] + xs) == ','.join(xs + [y]), 'y')


def h_n32(g):
    bases = [Exception] if g.bool('b') else [ValueError]

    class C(*bases):
        kind = 'c'
    g.check(issubclass(C, ValueError), 'x')


def h_n33(g):
    class C(object):
        kind = 'c'
    a = C
    class C(object):
        kind = 'd'
    g.check(a is C or a.kind == C.kind, 'x')


def h_n34(g):
    a, b, c = g.int('a', 0, 3), g.int('b', 0, 3), g.int('c', 0, 3)
    g.check(([a, b] < [a, c]) == (b < c), 'x')
    g.check(([a, b] < [a]) is False, 'y')
    g.check(([a, b] < [c]) == (a < c), 'z')
    g.check(([a, b] <= [c, b]) == (a < c), 'wrong')
