"""C11 — MultiDict: every key maps to its list of values."""
from pyvc.api import *
from verktyg.datastructures import MultiDict, CombinedMultiDict, iter_multi_items
from verktyg.exceptions import BadRequestKeyError

META = {
    'level': 'proof',
    'files': ['verktyg/datastructures.py'],
    'assumptions': [],
}

M = 'verktyg.datastructures:MultiDict.'
KEYS = ['a', 'b', 'A', '', 'key']


def key(g, name='key'):
    return g.str(name, hints=KEYS)


def val(g, name='value'):
    return g.str(name, hints=['1', '2', ''])


def vals(g, name='vs', min=1):
    return g.list(name, lambda g: val(g, 'v'), max=3, min=min)


def content(g, name='content'):
    """key -> non-empty list of values"""
    return g.dict(name, lambda g: key(g, 'k'), lambda g: vals(g), max=3)


def frozen(d):
    """An independent copy of a mapping to lists."""
    return {k: [x for x in v] for k, v in d.items()}


def at(model, k):
    return model[k] if k in model else []


def agrees(g, d, model, k, label):
    """d and the model agree about key k."""
    want = at(model, k)
    g.check(same(d.getlist(k), want), label + ' getlist')
    g.check((k in d) == (k in model), label + ' contains')
    if k in model:
        g.check(same(outcome(lambda: d[k]), ('ok', want[0])), label + ' first')
        g.check(same(d.get(k), want[0]), label + ' get')
    else:
        g.check(same(outcome(lambda: d[k]), ('exc', BadRequestKeyError)), label + ' missing')
        g.check(d.get(k) is None, label + ' get missing')


@harness(functions=[M + '__init__', M + '__getitem__', M + 'getlist',
                    'verktyg.datastructures:TypeConversionDict.get'])
def h_init(g):
    """Built from a dict of lists it holds exactly those lists."""
    model = content(g)
    d = MultiDict(model)
    agrees(g, d, model, key(g), 'init')
    g.check(len(d) == len(model), 'len')


@harness(functions=[M + '__setitem__', M + 'add', M + 'setlist', M + 'setdefault'])
def h_write(g):
    """Writes change exactly the named key."""
    model = content(g)
    d = MultiDict(model)
    k, v, probe = key(g), val(g), key(g, 'probe')
    old = at(model, k)
    op = g.choice('op', ['set', 'add', 'setlist', 'setdefault', 'poplist', 'pop', 'popd', 'del'])
    if op == 'set':
        d[k] = v
        new = [v]
    elif op == 'add':
        d.add(k, v)
        new = old + [v]
    elif op == 'setlist':
        new = vals(g, 'new')
        d.setlist(k, new)
    elif op == 'setdefault':
        r = d.setdefault(k, v)
        new = old if k in model else [v]
        g.check(same(r, new[0]), 'setdefault result')
    elif op == 'poplist':
        g.check(same(d.poplist(k), old), 'poplist result')
        new = []
    elif op == 'pop':
        r = outcome(lambda: d.pop(k))
        g.check(same(r, ('ok', old[0]) if k in model else ('exc', BadRequestKeyError)), 'pop result')
        new = []
    elif op == 'popd':
        r = d.pop(k, v)
        g.check(same(r, old[0] if k in model else v), 'pop default')
        new = []
    else:
        r = outcome(lambda: d.__delitem__(k))
        g.check((r[0] == 'ok') == (k in model), 'del result')
        new = []
    if probe == k:
        g.check(same(d.getlist(k), new), 'written key')
        g.check((k in d) == (len(new) > 0), 'written key present')
    else:
        agrees(g, d, model, probe, 'other key')


@harness(functions=[M + '__init__', M + 'setlist', M + 'getlist', M + 'copy', M + 'lists',
                    M + 'to_dict'])
def h_alias(g):
    """What it was built from, what it hands out and copies of it are independent."""
    model = content(g)
    k, v, probe = key(g), val(g), key(g, 'probe')
    before = [x for x in at(model, probe)]
    d = MultiDict(model)
    op = g.choice('op', ['source', 'getlist', 'copy', 'copied', 'setlist', 'to_dict', 'lists', 'listvalues',
                         'setlistdefault'])
    if op == 'source':
        if k in model:
            model[k].append(v)
    elif op == 'getlist':
        d.getlist(k).append(v)
    elif op == 'copy':
        e = d.copy()
        g.check(same(e.getlist(probe), before), 'copy equal')
        e.add(k, v)
    elif op == 'copied':
        e = MultiDict(d)
        d.add(k, v)
        d = e
    elif op == 'setlist':
        new = vals(g, 'new')
        g.assume(probe != k)
        d.setlist(k, new)
        new.append(v)
        g.check(len(d.getlist(k)) == len(new) - 1, 'setlist copies')
    elif op == 'lists':
        for _, vs in d.lists():
            vs.append(v)
    elif op == 'listvalues':
        for vs in d.listvalues():
            vs.append(v)
    elif op == 'setlistdefault':
        new = vals(g, 'new')
        g.assume(not k == probe)
        d.setlistdefault(k, new)
        size = len(d.getlist(k))
        new.append(v)
        g.check(len(d.getlist(k)) == size, 'setlistdefault copies')
    else:
        r = d.to_dict(flat=False)
        if k in r:
            r[k].append(v)
    g.check(same(d.getlist(probe), before), 'unchanged')


@harness(functions=[M + 'items', M + 'lists', M + 'values', M + 'listvalues', M + 'keys',
                    M + '__iter__', M + 'to_dict'])
def h_views(g):
    """The iteration methods show every key with its first value or all values."""
    model = content(g)
    pairs = [(k, vs[0]) for k, vs in model.items()]
    lists = [(k, [x for x in vs]) for k, vs in model.items()]
    keys = [k for k in model]
    firsts = [vs[0] for vs in model.values()]
    d = MultiDict(model)
    view = g.choice('view', ['items', 'lists', 'keys', 'iter', 'values', 'listvalues', 'flat', 'full'])
    if view == 'items':
        g.check(same([p for p in d.items()], pairs), 'items')
    elif view == 'lists':
        g.check(same([p for p in d.lists()], lists), 'lists')
    elif view == 'keys':
        g.check(same([k for k in d.keys()], keys), 'keys')
    elif view == 'iter':
        g.check(same([k for k in d], keys), 'iter')
    elif view == 'values':
        g.check(same([v for v in d.values()], firsts), 'values')
    elif view == 'listvalues':
        g.check(same([[x for x in vs] for vs in d.listvalues()], [vs for k, vs in lists]), 'listvalues')
    else:
        k = key(g)
        r = d.to_dict() if view == 'flat' else d.to_dict(flat=False)
        g.check((k in r) == (k in model), 'to_dict keys')
        if k in model:
            g.check(same(r[k], model[k][0] if view == 'flat' else model[k]), 'to_dict')


@harness(functions=[M + 'items'])
def h_items_multi(g):
    """items(multi=True) shows every value of every key, in order."""
    model = content(g)
    pairs = [(k, v) for k, vs in model.items() for v in vs]
    d = MultiDict(model)
    g.check(same([p for p in d.items(multi=True)], pairs), 'items multi')


@harness(functions=[M + 'popitem', M + 'popitemlist'])
def h_popitem(g):
    """popitem and popitemlist remove one key with all its values."""
    model = content(g)
    d = MultiDict(model)
    probe = key(g, 'probe')
    if g.bool('list'):
        r = outcome(d.popitemlist)
        full = True
    else:
        r = outcome(d.popitem)
        full = False
    if len(model) == 0:
        g.check(same(r, ('exc', BadRequestKeyError)), 'empty')
    else:
        k, v = r[1]
        g.check(k in model, 'popped key was there')
        g.check(same(v, model[k] if full else model[k][0]), 'popped value')
        g.check(k not in d, 'popped key gone')
        if probe != k:
            agrees(g, d, model, probe, 'other key')


@harness(functions=[M + 'setlistdefault'])
def h_setlistdefault(g):
    """setlistdefault keeps present values and hands out the live list."""
    model = content(g)
    d = MultiDict(model)
    k, v, probe = key(g), val(g), key(g, 'probe')
    default = vals(g, 'default')
    want = [x for x in model[k]] if k in model else [x for x in default]
    r = d.setlistdefault(k, default)
    g.check(same([x for x in r], want), 'result')
    g.check(same(d.getlist(k), want), 'stored')
    r.append(v)
    g.check(same(d.getlist(k), want + [v]), 'live')
    if probe != k:
        agrees(g, d, model, probe, 'other key')


@harness(functions=[M + 'getlist', 'verktyg.datastructures:TypeConversionDict.get'])
def h_types(g):
    """A conversion is applied to every value; failures are left out or defaulted."""
    model = content(g)
    d = MultiDict(model)
    k, default = key(g), val(g, 'default')
    conv = g.ufunc('conv', ['str'], 'int')
    bad = g.ufunc('bad', ['str'], 'bool')

    def convert(x):
        if bad(x):
            raise ValueError()
        return conv(x)
    want = [conv(x) for x in at(model, k) if not bad(x)]
    g.check(same(d.getlist(k, type=convert), want), 'getlist')
    r = d.get(k, default, type=convert)
    if k in model and not bad(model[k][0]):
        g.check(same(r, conv(model[k][0])), 'get')
    else:
        g.check(same(r, default), 'get default')


@harness(functions=[M + 'update', M + 'add', 'verktyg.datastructures:iter_multi_items'])
def h_update_pairs(g):
    """update with pairs appends each value to its key."""
    model = content(g)
    d = MultiDict(model)
    k1, k2, v1, v2 = key(g, 'k1'), key(g, 'k2'), val(g, 'v1'), val(g, 'v2')
    probe = key(g, 'probe')
    want = at(model, probe) + ([v1] if probe == k1 else []) + ([v2] if probe == k2 else [])
    kind = g.choice('kind', ['pairs', 'multi', 'dict', 'lists'])
    if kind == 'pairs':
        d.update([(k1, v1), (k2, v2)])
    elif kind == 'multi':
        d.update(MultiDict([(k1, v1), (k2, v2)]))
    elif kind == 'dict':
        g.assume(k1 != k2)
        d.update({k1: v1, k2: v2})
    else:
        g.assume(k1 != k2)
        d.update({k1: [v1], k2: [v2]})
    g.check(same(d.getlist(probe), want), 'extended')


@harness(functions=[M + 'update', M + 'add', 'verktyg.datastructures:iter_multi_items'])
def h_update_self(g):
    """Updated with itself, a multi dict has each value twice."""
    model = content(g)
    d = MultiDict(model)
    probe = key(g, 'probe')
    want = at(model, probe)
    if g.bool('pairs'):
        d.update(d.items(multi=True))
    else:
        d.update(d)
    g.check(same(d.getlist(probe), want + want), 'twice')
    g.check(len(d) == len(model), 'keys')


C = 'verktyg.datastructures:CombinedMultiDict.'


@harness(functions=[C + '__getitem__', C + 'get', C + 'getlist', C + '__contains__'])
def h_combined(g):
    """A combined dict reads its parts in order."""
    ma, mb = content(g, 'a'), content(g, 'b')
    d = CombinedMultiDict([MultiDict(ma), MultiDict(mb)])
    k = key(g)
    want = at(ma, k) + at(mb, k)
    g.check(same(d.getlist(k), want), 'getlist')
    g.check((k in d) == (len(want) > 0), 'contains')
    r = outcome(lambda: d[k])
    if len(want) > 0:
        g.check(same(r, ('ok', want[0])), 'first')
        g.check(same(d.get(k), want[0]), 'get')
    else:
        g.check(same(r, ('exc', BadRequestKeyError)), 'missing')
        g.check(d.get(k) is None, 'get missing')


@scenario(functions=[M + f for f in ('__init__', '__getitem__', '__setitem__', 'add', 'getlist', 'setlist',
                                     'setdefault', 'setlistdefault', 'items', 'lists', 'values',
                                     'listvalues', 'copy', 'deepcopy', 'to_dict', 'update', 'pop',
                                     'popitem', 'poplist', 'popitemlist', '__copy__', '__deepcopy__',
                                     '__getstate__', '__setstate__')],
          n=3000, note='sequences of operations against a dict of lists')
def s_history(g):
    """Through any sequence of operations a MultiDict stays what a dict of lists would be."""
    import copy
    import pickle
    pairs = g.list('pairs', lambda g: (key(g, 'k'), val(g, 'v')), max=5)
    model = {}
    for k, v in pairs:
        model.setdefault(k, []).append(v)
    d = MultiDict(pairs if g.bool('list') else iter(pairs))
    for _ in range(g.int('steps', 0, 6)):
        op = g.choice('op', ['set', 'add', 'setlist', 'setdefault', 'setlistdefault', 'pop', 'popd',
                             'poplist', 'popitem', 'popitemlist', 'update', 'del', 'clear', 'copy',
                             'deep', 'pickle', 'state', 'aliased', 'copycopy'])
        k, v = key(g), val(g)
        if op == 'set':
            d[k] = v
            model[k] = [v]
        elif op == 'add':
            d.add(k, v)
            model.setdefault(k, []).append(v)
        elif op == 'setlist':
            new = vals(g)
            d.setlist(k, new)
            model[k] = list(new)
            new.append('later')
        elif op == 'setdefault':
            g.check(d.setdefault(k, v) == model.setdefault(k, [v])[0], 'setdefault')
        elif op == 'setlistdefault':
            g.check(d.setlistdefault(k, [v, v]) == model.setdefault(k, [v, v]), 'setlistdefault')
        elif op in ('pop', 'popd'):
            r = outcome(lambda: d.pop(k, 'dflt') if op == 'popd' else d.pop(k))
            old = model.pop(k, None)
            g.check(r == (('ok', old[0]) if old else
                          ('ok', 'dflt') if op == 'popd' else ('exc', BadRequestKeyError)), 'pop')
        elif op == 'poplist':
            g.check(d.poplist(k) == model.pop(k, []), 'poplist')
        elif op in ('popitem', 'popitemlist'):
            r = outcome(getattr(d, op))
            if model:
                kk, vv = r[1]
                old = model.pop(kk)
                g.check(vv == (old if op == 'popitemlist' else old[0]), op)
            else:
                g.check(r == ('exc', BadRequestKeyError), op)
        elif op == 'update':
            kind = g.choice('kind', ['pairs', 'dict', 'dictlist', 'multi', 'gen'])
            k2 = key(g, 'k2')
            new = [(k, v), (k2, 'u'), (k, 'w')] if kind in ('pairs', 'multi', 'gen') else [(k, v)]
            d.update({'pairs': lambda: new, 'dict': lambda: {k: v}, 'dictlist': lambda: {k: (v,)},
                      'multi': lambda: MultiDict(new), 'gen': lambda: (p for p in new)}[kind]())
            for a, b in new:
                model.setdefault(a, []).append(b)
        elif op == 'del':
            r = outcome(lambda: d.__delitem__(k))
            g.check((r[0] == 'ok') == (k in model), 'del')
            model.pop(k, None)
        elif op == 'clear':
            d.clear()
            model = {}
        elif op in ('copy', 'deep', 'pickle', 'state', 'copycopy'):
            old = d
            d = {'copy': lambda: d.copy(), 'deep': lambda: d.deepcopy(), 'copycopy': lambda: copy.copy(d),
                 'pickle': lambda: pickle.loads(pickle.dumps(d)),
                 'state': lambda: copy.deepcopy(d)}[op]()
            old.add(k, v)
            for kk in list(model)[:1]:
                old.setlistdefault(kk).append('changed')
            g.check(type(d) is MultiDict, 'type kept')
        else:
            for kk in list(model):
                d.getlist(kk).append('x')
            for _, l in d.lists():
                l.append('x')
            for l in d.to_dict(flat=False).values():
                l.append('x')
            for l in d.listvalues():
                l.append('x')
        g.check({kk: d.getlist(kk) for kk in d} == model, 'content')
        g.check(len(d) == len(model) and sorted(d.keys()) == sorted(model), 'keys')
        g.check(sorted(d.items(multi=True)) == sorted((a, b) for a, bs in model.items() for b in bs), 'items')
        g.check(dict(d.items()) == {a: bs[0] for a, bs in model.items()}, 'firsts')
        g.check(dict(d.lists()) == model and d.to_dict(flat=False) == model, 'lists')
        g.check(sorted(d.values()) == sorted(bs[0] for bs in model.values()), 'values')
        g.check(sorted(d.listvalues()) == sorted(model.values()), 'listvalues')
        p = key(g, 'probe')
        g.check((p in d) == (p in model) and d.get(p) == (model[p][0] if p in model else None), 'get')


@scenario(functions=[C + f for f in ('__init__', '__getitem__', 'get', 'getlist', 'keys', 'items', 'values',
                                     'lists', 'listvalues', 'copy', 'to_dict', '__len__', '__contains__')],
          n=2000, note='combined dicts against the list of their pairs')
def s_combined(g):
    """A combined dict shows the values of its parts, first part first."""
    models = g.list('dicts', lambda g: g.list('pairs', lambda g: (key(g, 'k'), val(g, 'v')), max=4), max=3)
    d = CombinedMultiDict([MultiDict(m) for m in models])
    if g.bool('copy'):
        d = d.copy()
    allkeys = {k for m in models for k, v in m}

    def values(k):
        return [v for m in models for kk, v in m if kk == k]
    g.check(set(d.keys()) == allkeys and len(d) == len(allkeys) and set(iter(d)) == allkeys, 'keys')
    g.check(sorted(d.keys()) == sorted(allkeys), 'keys once')
    for k in sorted(allkeys | {key(g)}):
        want = values(k)
        g.check(d.getlist(k) == want and (k in d) == bool(want), 'getlist')
        g.check(d.get(k, 'no') == (want[0] if want else 'no'), 'get')
        ints = [len(v) for v in want]
        g.check(d.getlist(k, type=len) == ints, 'getlist type')
        g.check(outcome(lambda: d[k]) == (('ok', want[0]) if want else ('exc', BadRequestKeyError)), 'item')

        def notone(v):
            if v == '1':
                raise ValueError()
            return v
        firsts = [[v for kk, v in m if kk == k][0] for m in models if any(kk == k for kk, v in m)]
        conv = [v for v in firsts if v != '1']
        g.check(d.get(k, 'no', type=notone) == (conv[0] if conv else 'no'), 'get type')
    g.check(sorted(d.items()) == sorted((k, values(k)[0]) for k in allkeys), 'items')
    g.check(sorted(d.items(multi=True)) == sorted((k, v) for k in allkeys for v in values(k)), 'items multi')
    g.check(sorted(d.lists()) == sorted((k, values(k)) for k in allkeys), 'lists')
    g.check(sorted(d.listvalues()) == sorted(values(k) for k in allkeys), 'listvalues')
    g.check(sorted(d.values()) == sorted(values(k)[0] for k in allkeys), 'values')
    g.check(d.to_dict() == {k: values(k)[0] for k in allkeys}, 'to_dict')
    g.check(d.to_dict(flat=False) == {k: values(k) for k in allkeys}, 'to_dict lists')
    for handed in ([x for _, x in d.lists()], d.listvalues(), d.to_dict(flat=False).values(),
                   [d.getlist(k) for k in allkeys]):
        for x in list(handed):
            x.append('more')
    g.check(sorted(d.lists()) == sorted((k, values(k)) for k in allkeys), 'lists of its own')


@scenario(functions=['verktyg.datastructures:MultiDict.deepcopy'], n=600, note='values that are shared')
def s_deep(g):
    """A deep copy has values of its own, and shares among its parts what was shared."""
    import copy
    shared = [g.choice('shared', ['', 'a'])]
    pairs = [('k%d' % g.int('key', 0, 2), shared if g.bool('same') else [i]) for i in range(g.int('pairs', 0, 5))]
    d = MultiDict(pairs)
    how = g.choice('how', ['deepcopy', 'method', 'together'])
    other = None
    if how == 'deepcopy':
        c = copy.deepcopy(d)
    elif how == 'method':
        c = d.deepcopy()
    else:
        other, c = copy.deepcopy([shared, d])
    g.check(type(c) is MultiDict and c == d and list(c.items(multi=True)) == list(d.items(multi=True)), 'equal')
    for (k, v), (k2, w) in zip(d.items(multi=True), c.items(multi=True)):
        g.check(k == k2 and v == w and v is not w, 'own values')
        if v is shared:
            if other is None:
                other = w
            g.check(other is w, 'still shared')
    for k, w in c.items(multi=True):
        w.append('more')
    g.check(shared in (['a'], ['']), 'first not changed')
