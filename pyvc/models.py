"""Trusted models of the Python built-ins the code under contract uses.

Each entry replaces a built-in when at least one argument is symbolic; with
only concrete arguments the real built-in runs.
"""
import sys
import functools
import itertools
import re
import types
import z3

from . import rope

from .core import zstr, Unsupported, PathEnd, PyExc, Sym, Chunk, MapChunk, Entry, HObj
from .interp import (
    Bound, Func, Lazy, Partial, SuperObj, SpecialCallable, UFunc, is_concrete, _missing,
)
from . import vlib

MODELS = {}


def model(*targets):
    def deco(f):
        for t in targets:
            MODELS[t] = f
        return f
    return deco


def all_concrete(args, kw=()):
    return all(is_concrete(a) for a in args) and all(is_concrete(kw[k]) for k in kw)


def chunky(parts):
    return any(isinstance(p, (Chunk, MapChunk)) for p in parts)


# ------------------------------------------------------------------ functions
@model(len)
def len_(I, o):
    if isinstance(o, HObj):
        m = I.class_lookup(o.cls, '__len__')
        if isinstance(m, types.FunctionType):
            return I.call(m, (o,), {})
        if o.kind and o.cls is not types.GeneratorType:
            return I.length(o)
        raise I.pyexc(TypeError, 'object has no len()')
    if isinstance(o, Sym):
        if o.k in ('str', 'bytes'):
            return I.mk(z3.Length(o.t), 'int')
        raise I.pyexc(TypeError, 'object has no len()')
    try:
        return len(o)
    except Exception as e:
        raise PyExc(e)


@model(isinstance)
def isinstance_(I, o, t):
    return I.isinstance_(o, t)


@model(callable)
def callable_(I, o):
    if isinstance(o, (Func, Bound, Partial, SpecialCallable, UFunc)):
        return True
    if isinstance(o, HObj):
        return I.class_lookup(o.cls, '__call__') is not None
    if isinstance(o, Sym):
        return False
    return callable(o)


@model(type)
def type_(I, o, *rest):
    if rest:
        raise Unsupported('dynamic class')
    return I.pytype(o)


@model(hasattr)
def hasattr_(I, o, name):
    try:
        I.getattr(o, name)
        return True
    except PyExc as e:
        if issubclass(e.cls, AttributeError):
            return False
        raise


@model(getattr)
def getattr_(I, o, name, default=_missing):
    if not isinstance(name, str):
        raise Unsupported('symbolic attribute name')
    return I.getattr(o, name, default)


@model(setattr)
def setattr_(I, o, name, v):
    if not isinstance(name, str):
        raise Unsupported('symbolic attribute name')
    I.setattr(o, name, v)


@model(delattr)
def delattr_(I, o, name):
    if not isinstance(name, str):
        raise Unsupported('delattr with a name that is not known')
    I.delattr(o, name)


@model(object.__setattr__)
def osetattr(I, o, name, v):
    I.note_write(o, name)
    o.attrs[name] = v


@model(object.__getattribute__)
def ogetattr(I, o, name):
    return I.getattr_(o, name)


@model(object.__init__)
def oinit(I, o, *a, **k):
    return None


@model(object.__new__)
def onew(I, cls, *a, **k):
    return I.new_object(cls)


for _c in (dict, list, set, tuple, frozenset):
    if _c not in (tuple, frozenset):
        @model(_c.__new__)
        def cnew(I, cls, *a, **k):
            return I.new_object(cls)


@model(BaseException.__init__, Exception.__init__)
def excinit(I, o, *args, **k):
    if isinstance(o, HObj):
        o.attrs['args'] = tuple(args)


for _e in (KeyError, ValueError, TypeError, LookupError, StopIteration, RuntimeError):
    MODELS[_e.__init__] = excinit


@model(super)
def super_(I, cls, obj):
    return SuperObj(cls, obj)


@model(functools.partial)
def partial_(I, f, *args, **kw):
    return Partial(f, args, kw)


@model(functools.wraps, functools.update_wrapper)
def wraps_(I, *a, **k):
    return SpecialCallable(lambda f: f, 'wraps')


@model(id)
def id_(I, o):
    raise Unsupported('id()')


@model(hash)
def hash_(I, o):
    if is_concrete(o):
        try:
            return hash(o)
        except Exception as e:
            raise PyExc(e)
    if isinstance(o, HObj):
        m = I.class_lookup(o.cls, '__hash__')
        if isinstance(m, types.FunctionType):
            return I.call(m, (o,), {})
        if o.kind and m is None:
            raise I.pyexc(TypeError, 'unhashable')
    I.path.inexact.append('hash')
    t = hash_term(I, o)
    return I.path.fresh('hash', 'int') if t is None else Sym(t, 'int')


def hash_term(I, o):
    """A value that depends on what is hashed only (and for sets on the elements only), or None."""
    if isinstance(o, (Sym, str, bytes, bool, int)):
        k = I.kind_of(o)
        if k == 'bool':
            t = I.term(o)
            return HASH['int'](z3.If(t, z3.IntVal(1), z3.IntVal(0)))
        return HASH[k](I.term(o)) if k in HASH else None
    if o is None:
        return HASH['int'](z3.IntVal(-7))
    if type(o) is tuple:
        r = z3.IntVal(len(o))
        for x in o:
            t = hash_term(I, x)
            if t is None:
                return None
            r = HASH_NEXT(r, t)
        return r
    if isinstance(o, HObj) and o.kind == 'set' and o.cls is frozenset and \
            not any(isinstance(x, (Chunk, MapChunk)) for x in o.parts):
        r = z3.IntVal(0)
        for x in o.parts:
            t = hash_term(I, x)
            if t is None:
                return None
            r = r + HASH_NEXT(z3.IntVal(-1), t)
        return r
    return None


HASH = {k: z3.Function('value_hash_' + k, s, z3.IntSort()) for k, s in (
    ('str', z3.StringSort()), ('bytes', z3.StringSort()), ('int', z3.IntSort()))}
HASH_NEXT = z3.Function('next_of_hash', z3.IntSort(), z3.IntSort(), z3.IntSort())


@model(issubclass)
def issubclass_(I, a, b):
    try:
        return issubclass(a, b)
    except TypeError as e:
        raise PyExc(e)


@model(abs)
def abs_(I, x):
    if isinstance(x, Sym):
        t = I.as_num(x, x.k, 'int')
        return I.mk(z3.If(t >= 0, t, -t), 'int' if x.k != 'real' else 'real')
    return abs(x)


def _minmax(I, args, kw, less):
    key = kw.pop('key', None)
    default = kw.pop('default', _missing)
    if kw:
        raise Unsupported('min/max keywords')
    if len(args) == 1:
        parts = I.iter_parts(args[0])
        if chunky(parts):
            raise Unsupported('min/max over unknown length')
        if not parts:
            if default is not _missing:
                return default
            raise I.pyexc(ValueError, 'empty sequence')
    else:
        parts = list(args)
    best = parts[0]
    bk = best if key is None else I.call(key, (best,), {})
    for p in parts[1:]:
        pk = p if key is None else I.call(key, (p,), {})
        if I.test(I.order('Lt' if less else 'Gt', pk, bk)):
            best, bk = p, pk
    return best


@model(min)
def min_(I, *args, **kw):
    if len(args) == 2 and not kw and all(I.kind_of(a) == 'int' for a in args) and not all_concrete(args):
        a, b = I.term(args[0]), I.term(args[1])
        return I.mk(z3.If(b < a, b, a), 'int')
    return _minmax(I, args, kw, True)


def nonneg(t):
    """Obviously not negative: a sum of lengths and such numbers."""
    if z3.is_int_value(t):
        return t.as_long() >= 0
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_LENGTH:
        return True
    return z3.is_add(t) and all(nonneg(c) for c in t.children())


@model(max)
def max_(I, *args, **kw):
    if len(args) == 2 and not kw and all(I.kind_of(a) == 'int' for a in args) and not all_concrete(args):
        a, b = I.term(args[0]), I.term(args[1])
        if nonneg(z3.simplify(a - b)):
            return I.mk(z3.simplify(a), 'int')
        if nonneg(z3.simplify(b - a)):
            return I.mk(z3.simplify(b), 'int')
        if any(isinstance(x, int) for x in args) and length_less(z3.simplify(a - b)) and not I.path.nofork:
            return args[1] if I.path.decide(b > a) else args[0]
        return I.mk(z3.If(b > a, b, a), 'int')
    return _minmax(I, args, kw, False)


def length_less(t):
    """The length of some text less a number."""
    cs = t.children() if z3.is_add(t) else []
    return len(cs) >= 2 and z3.is_int_value(cs[0]) and all(nonneg(c) for c in cs[1:])


@model(any)
def any_(I, it):
    parts = I.iter_parts(it)
    if chunky(parts):
        return I.find_in(I.mklist(parts), lambda y: I.test(y)) is not None
    for p in parts:
        if I.test(p):
            return True
    return False


@model(all)
def all_(I, it):
    parts = I.iter_parts(it)
    if chunky(parts):
        return I.find_in(I.mklist(parts), lambda y: not I.test(y)) is None
    for p in parts:
        if not I.test(p):
            return False
    return True


@model(sum)
def sum_(I, it, start=0):
    parts = I.iter_parts(it)
    r = start
    for p in parts:
        r = I.binop('Add', r, chunk_sum(I, p) if isinstance(p, (Chunk, MapChunk)) else p)
    return r


def chunk_sum(I, p):
    """The sum of an unknown number of integers: a function of the list and of
    what is made of an arbitrary element of it."""
    base = p.base if isinstance(p, MapChunk) else p
    if base.split is not None:
        raise Unsupported('sum of a split list')
    if not I.path.decide(base.len > 0):
        base.split = []
        return 0
    I.path.nofork = True
    try:
        if base.probe is None:
            x = I.element(base)
            for f in base.facts:
                f(x)
            base.probe = (x, len(base.facts))
        x, n = base.probe
        if n != len(base.facts):
            for f in base.facts[n:]:
                f(x)
            base.probe = (x, len(base.facts))
        outs = p.outs(x) if isinstance(p, MapChunk) else [x]
        if any(isinstance(o, (Chunk, MapChunk)) or I.kind_of(o) != 'int' for o in outs):
            raise Unsupported('sum over unknown length')
        t = z3.IntVal(0)
        for o in outs:
            t = t + I.term(o)
        t = z3.simplify(t)
    except PyExc:
        raise Unsupported('sum over elements that may fail')
    finally:
        I.path.nofork = False
    if z3.is_int_value(t):
        return Sym(base.len * t, 'int')
    for u, s in base.sums:
        if u.eq(t):
            return Sym(s, 'int')
    s = I.path.fresh_term('sum', 'int')
    I.path.inexact.append('sum of a list')
    if I.path.entails(t >= 1):
        I.path.assume(s >= base.len)
    elif I.path.entails(t >= 0):
        I.path.assume(s >= 0)
    base.sums.append((t, s))
    return Sym(s, 'int')


@model(range)
def range_(I, *a):
    if all_concrete(a):
        return range(*a)
    raise Unsupported('symbolic range')


@model(enumerate)
def enumerate_(I, it, start=0):
    src = srcs(it)
    parts = I.iter_parts(it)
    if not chunky(parts):
        return mkiter(I, [(I.binop('Add', i, start), p) for i, p in enumerate(parts)], src, True)
    # indices after a chunk are symbolic
    off = I.term(start)
    out = []
    for p in parts:
        if isinstance(p, (Chunk, MapChunk)):
            if isinstance(p, MapChunk) and not p.total:
                raise Unsupported('enumerate over map chunk')
            base = p.base if isinstance(p, MapChunk) else p

            def fn(x, base=base, off=off, p=p):
                n = prefix_len(base, x)
                if n is None:
                    raise Unsupported('enumerate')
                y = p.outs(x)[0] if isinstance(p, MapChunk) else x
                return [(I.mk(off + n, 'int'), y)]
            m = MapChunk(I.path, base, fn, label='enum', total=True)
            out.append(m)
            off = off + p.len
        else:
            out.append((I.mk(off, 'int'), p))
            off = off + 1
    return mkiter(I, out, src, True)


def prefix_len(c, x):
    """z3 number of elements of chunk c before element x."""
    if c.split is None:
        return None
    acc = z3.IntVal(0)
    for p in c.split:
        if p is x:
            return acc
        if isinstance(p, Chunk):
            r = prefix_len(p, x)
            if r is not None:
                return acc + r
            acc = acc + p.len
        else:
            acc = acc + 1
    return None


@model(zip)
def zip_(I, *its):
    src = srcs(*its)
    ps = [I.iter_parts(i) if not isinstance(i, Repeat) else i for i in its]
    n = [len(p) for p in ps if not isinstance(p, Repeat)]
    if any(chunky(p) for p in ps if not isinstance(p, Repeat)):
        raise Unsupported('zip over unknown length')
    out = []
    for i in range(min(n)):
        out.append(tuple(p.v if isinstance(p, Repeat) else p[i] for p in ps))
    if src and any(len(p) > min(n) for p in ps if not isinstance(p, Repeat)):
        raise Unsupported('zip of iterators of different lengths')
    return mkiter(I, out, src)


class Repeat(object):
    def __init__(self, v):
        self.v = v


@model(itertools.repeat)
def repeat_(I, v, n=None):
    if n is not None:
        return I.mklist([v] * n)
    return Repeat(v)


@model(itertools.chain)
def chain_(I, *its):
    out = []
    src = srcs(*its)
    owners = []
    for i in its:
        ps = list(I.iter_parts(i))
        out.extend(ps)
        owners.extend([i if any(i is j for j in src) else None] * len(ps))
    o = mkiter(I, out, src)
    if src and not chunky(out):
        o.extra['owners'] = owners
    return o


@model(itertools.chain.from_iterable)
def chain_from(I, its):
    out = []
    for i in I.iter_parts(its):
        if isinstance(i, (Chunk, MapChunk)):
            raise Unsupported('chain over unknown length')
        out.extend(I.iter_parts(i))
    return mkiter(I, out)


def mkiter(I, parts, src=(), enum=False):
    o = I.mklist(parts, LIST_ITERATOR)
    o.extra = {'iter': True}
    if src:
        o.extra['srcs'] = tuple(src)
        o.extra['enum'] = enum
    return o


def srcs(*its):
    """Those arguments that are themselves one-shot iterators."""
    out = [i for i in its if isinstance(i, HObj) and (
        i.cls is types.GeneratorType or i.extra is not None and 'iter' in i.extra)]
    for n, i in enumerate(out):
        if any(i is j for j in out[:n]):
            raise Unsupported('the same iterator twice')
    return out


LIST_ITERATOR = type(iter([]))


@model(iter)
def iter_(I, o, *sentinel):
    if sentinel:
        raise Unsupported('iter with sentinel')
    if isinstance(o, HObj):
        m = I.class_lookup(o.cls, '__iter__')
        if isinstance(m, types.FunctionType):
            return I.call(m, (o,), {})
        if o.cls is types.GeneratorType or (o.extra and 'iter' in o.extra):
            return o
    return mkiter(I, I.iter_parts(o))


@model(next)
def next_(I, it, default=_missing):
    if isinstance(it, HObj):
        m = I.class_lookup(it.cls, '__next__')
        if isinstance(m, types.FunctionType):
            try:
                return I.call(m, (it,), {})
            except PyExc as e:
                if default is not _missing and issubclass(e.cls, StopIteration):
                    return default
                raise
        if it.kind == 'list' and (it.cls is types.GeneratorType or (it.extra and 'iter' in it.extra)):
            if I.probing is not None:
                if I.probing[0] is not None:
                    raise Unsupported('two steps at once')
                I.probing[0] = it
                if I.probing[1] is not None:
                    return I.probing[1]
                if default is not _missing:
                    return default
                raise I.pyexc(StopIteration)
            if it.extra and it.extra.get('srcs'):
                return next_derived(I, it, default)
            if it.extra and 'thunk' in it.extra:
                I.force(it, strict=True)
            if not I.front(it):
                if default is not _missing:
                    return default
                raise I.pyexc(StopIteration)
            ps = I.parts(it)
            I.note_write(it, 'store')
            it.parts = ps[1:]
            return ps[0]
        raise I.pyexc(TypeError, 'not an iterator')
    if is_concrete(it):
        try:
            return next(it) if default is _missing else next(it, default)
        except Exception as e:
            raise PyExc(e)
    raise I.pyexc(TypeError, 'not an iterator')


def next_derived(I, it, default):
    """One step of a chain whose elements are all known: the iterator an element comes from advances with it."""
    owners = it.extra.get('owners')
    ps = I.parts(it)
    if owners is None or len(owners) != len(ps) or chunky(ps):
        raise Unsupported('next() of a derived iterator')
    for s in it.extra['srcs']:
        if s.extra and (s.extra.get('srcs') or 'thunk' in s.extra) or s.parts:
            raise Unsupported('next() of a derived iterator')
        if any(o is s for o in owners):
            s.extra = dict(s.extra or {}, ahead=True)       # its elements were taken out early: not to be looked at
    if not ps:
        if default is not _missing:
            return default
        raise I.pyexc(StopIteration)
    I.note_write(it, 'store')
    it.parts = ps[1:]
    it.extra['owners'] = owners[1:]
    return ps[0]


@model(re.Pattern.sub)
def pattern_sub(I, pat, repl, text, count=0):
    """Replacing through a function: the places are found by the real pattern."""
    if not is_concrete(text) or not is_concrete(count) or isinstance(repl, (str, bytes)):
        return I.call_native(re.Pattern.sub, (pat, repl, text, count), {})
    if isinstance(repl, Sym):
        raise Unsupported('regular expression')
    out, pos = text[:0], 0
    for n, m in enumerate(pat.finditer(text)):
        if count and n >= count:
            break
        out = I.binop('Add', out, text[pos:m.start()])
        out = I.binop('Add', out, I.call(repl, (m,), {}))
        pos = m.end()
    return I.binop('Add', out, text[pos:])


@model(re.Pattern.split)
def pattern_split(I, pat, text, maxsplit=0):
    """Splitting at a literal, which may be a group."""
    if is_concrete(text):
        return I.call_native(re.Pattern.split, (pat, text, maxsplit), {})
    p = pat.pattern
    b = isinstance(p, bytes)
    t = p.decode('latin1') if b else p
    group = t[:1] == '(' and t[-1:] == ')'
    body = t[1:-1] if group else t
    lit = re.sub(r'\\(.)', r'\1', body, flags=re.S)
    if not lit or re.escape(lit) != body or maxsplit != 0 or pat.flags & ~re.UNICODE.value:
        raise Unsupported('regular expression')
    sep = lit.encode('latin1') if b else lit
    out = I.call(I.getattr(text, 'split'), (sep,), {})
    if not group:
        return out
    ps = I.parts(out)
    if chunky(ps):
        raise Unsupported('split into unknown pieces')
    mixed = []
    for n, x in enumerate(ps):
        if n:
            mixed.append(sep)
        mixed.append(x)
    return I.mklist(mixed)


@model(types.GeneratorType.close)
def gen_close(I, it):
    if not isinstance(it, HObj):
        raise Unsupported('generator')
    if it.extra and 'thunk' in it.extra:
        I.note_write(it, 'store')       # never started: nothing of the body runs
        del it.extra['thunk']
        it.parts = []
    elif I.parts(it):
        raise Unsupported('closing a generator that has begun')


@model(reversed)
def reversed_(I, o):
    parts = I.iter_parts(o)
    if chunky(parts):
        raise Unsupported('reversed over unknown length')
    return mkiter(I, list(reversed(parts)))


@model(sorted)
def sorted_(I, o, key=None, reverse=False):
    parts = I.iter_parts(o)
    if chunky(parts):
        raise Unsupported('sorted over unknown length')
    return I.mklist(sort_parts(I, parts, key, reverse))


def sort_parts(I, parts, key, reverse):
    keyed = [(p if key is None else I.call(key, (p,), {}), p) for p in parts]
    out = []
    for k, p in keyed:       # stable insertion sort
        i = len(out)
        while i > 0:
            prev = out[i - 1][0]
            if I.test(I.order('Gt' if reverse else 'Lt', k, prev)):
                i -= 1
            else:
                break
        out.insert(i, (k, p))
    return [p for k, p in out]


@model(map)
def map_(I, f, it):
    src = srcs(it)
    return mkiter(I, I.map_parts(I.iter_parts(it), lambda x: [I.call(f, (x,), {})], 'map', True), src)


@model(filter)
def filter_(I, f, it):
    def fn(x):
        return [x] if I.test(x if f is None else I.call(f, (x,), {})) else []
    src = srcs(it)
    return mkiter(I, I.map_parts(I.iter_parts(it), fn, 'filter'), src)


@model(print)
def print_(I, *a, **k):
    return None


# ------------------------------------------------------------------ conversion
REPR = {k: z3.Function('repr_' + k, s, z3.StringSort()) for k, s in (
    ('int', z3.IntSort()), ('real', z3.RealSort()), ('bool', z3.BoolSort()),
    ('str', z3.StringSort()), ('bytes', z3.StringSort()))}


@model(repr)
def repr_(I, o):
    if isinstance(o, Sym):
        if o.k == 'int':
            return str_(I, o)
        if o.k in REPR:
            return Sym(REPR[o.k](o.t), 'str')
        return I.path.fresh('repr', 'str')
    if is_concrete(o):
        return repr(o)
    if isinstance(o, HObj):
        m = I.class_lookup(o.cls, '__repr__')
        if isinstance(m, types.FunctionType):
            return I.call(m, (o,), {})
    I.path.inexact.append('repr')
    return I.path.fresh('repr', 'str')


@model(str)
def str_(I, o='', encoding=None, errors=None):
    if encoding is not None:
        return MODELS[bytes.decode](I, o, encoding, errors or 'strict')
    if isinstance(o, Sym):
        if o.k == 'str':
            return o
        if o.k == 'int':
            x = z3.simplify(o.t)
            if I.path.decide(x >= 0):
                return Sym(decimal(I, x), 'str')
            return Sym(z3.Concat(z3.StringVal('-'), decimal(I, z3.simplify(-x))), 'str')
        if o.k == 'bool':
            return I.mk(z3.If(o.t, z3.StringVal('True'), z3.StringVal('False')), 'str')
        if o.k == 'real':
            return Sym(REPR['real'](o.t), 'str')
        return repr_(I, o)
    if isinstance(o, HObj):
        m = I.class_lookup(o.cls, '__str__')
        if isinstance(m, types.FunctionType):
            return I.call(m, (o,), {})
        if issubclass(o.cls, BaseException):
            a = o.attrs.get('args', ())
            if len(a) == 1 and not issubclass(o.cls, KeyError):
                return str_(I, a[0])
            return I.path.fresh('excstr', 'str')
        return repr_(I, o)
    if is_concrete(o):
        try:
            return str(o)
        except Exception as e:
            raise PyExc(e)
    return repr_(I, o)


INT_OK = z3.Function('int_ok', z3.StringSort(), z3.BoolSort())
INT_VAL = z3.Function('int_val', z3.StringSort(), z3.IntSort())
DIGITS = z3.Plus(z3.Range('0', '9'))


DEC = z3.Function('decimal', z3.IntSort(), z3.StringSort())


def decimal(I, x):
    """Decimal text of a non-negative integer term."""
    if z3.is_int_value(x):
        return z3.StringVal(str(x.as_long()))
    t = DEC(x)
    key = ('dec', x.get_id())
    if key not in I.path.ufs_seen:
        I.path.ufs_seen.add(key)
        I.path.ufs_seen.add(t.sexpr())
        I.path.facts.set_only(t, rope.DIGIT)
        I.path.facts.set_nonempty(t)
        I.path.assume(z3.InRe(t, DIGITS))
        I.path.assume(INT_OK(t))
        I.path.assume(INT_VAL(t) == x)
    return t


def is_dec(t):
    return z3.is_app(t) and t.decl().name() == 'decimal'


def int_of(I, s):
    t = I.term(s)
    ps = I.path.facts.known(rope.flatten(t))
    if len(ps) == 1 and not isinstance(ps[0], str) and is_dec(ps[0]):
        return z3.BoolVal(True), ps[0].arg(0)
    if len(ps) == 2 and ps[0] in ('-', '+') and not isinstance(ps[1], str) and is_dec(ps[1]):
        return z3.BoolVal(True), (-ps[1].arg(0) if ps[0] == '-' else ps[1].arg(0))
    if any(isinstance(p, str) and set(p) & set('*/,;=:"xyz') for p in ps):
        return z3.BoolVal(False), INT_VAL(t)
    only = I.path.facts.only.get(t.get_id())
    if only is not None and only <= set('0123456789') and I.path.facts.is_nonempty(t):
        if t.sexpr() not in I.path.ufs_seen:
            I.path.ufs_seen.add(t.sexpr())
            I.path.assume(INT_VAL(t) >= 0)
        return z3.BoolVal(True), INT_VAL(t)
    key = t.sexpr()
    if key not in I.path.ufs_seen and isinstance(s, Sym):
        I.path.ufs_seen.add(key)
        I.path.assume(z3.Implies(z3.InRe(t, DIGITS), z3.And(INT_OK(t), INT_VAL(t) == z3.StrToInt(t))))
        I.path.assume(z3.Implies(t == z3.StringVal(''), z3.Not(INT_OK(t))))
    return INT_OK(t), INT_VAL(t)


@model(int)
def int_(I, x=0, base=None):
    if all_concrete((x, base)):
        try:
            return int(x) if base is None else int(x, base)
        except Exception as e:
            raise PyExc(e)
    if base is not None:
        raise Unsupported('int with base')
    if isinstance(x, Sym):
        if x.k == 'int':
            return x
        if x.k == 'bool':
            return I.mk(z3.If(x.t, z3.IntVal(1), z3.IntVal(0)), 'int')
        if x.k == 'real':
            return I.mk(z3.If(x.t >= 0, z3.ToInt(x.t), -z3.ToInt(-x.t)), 'int')
        if x.k in ('str', 'bytes'):
            ok, val = int_of(I, x)
            if I.path.decide(ok):
                return Sym(val, 'int')
            raise I.pyexc(ValueError, 'invalid literal for int()')
    if isinstance(x, HObj) and I.class_lookup(x.cls, '__int__') is None:
        raise I.pyexc(TypeError, 'int() argument')
    raise Unsupported('int(%r)' % (x,))


FLOAT_OK = z3.Function('float_ok', z3.StringSort(), z3.BoolSort())
FLOAT_VAL = z3.Function('float_val', z3.StringSort(), z3.RealSort())


@model(float)
def float_(I, x=0.0):
    if is_concrete(x):
        try:
            return float(x)
        except Exception as e:
            raise PyExc(e)
    if isinstance(x, Sym):
        if x.k == 'real':
            return x
        if x.k in ('int', 'bool'):
            return Sym(I.as_num(x, x.k, 'real'), 'real')
        if x.k == 'str':
            if I.path.decide(FLOAT_OK(x.t)):
                I.path.inexact.append('float()')
                return Sym(FLOAT_VAL(x.t), 'real')
            raise I.pyexc(ValueError, 'could not convert string to float')
    raise Unsupported('float')


@model(bool)
def bool_(I, x=False):
    t = I.truth(x)
    return t if isinstance(t, bool) else I.mk(t, 'bool')


@model(tuple)
def tuple_(I, it=()):
    parts = I.iter_parts(it)
    if chunky(parts):
        return I.mklist(parts, tuple)
    return tuple(parts)


@model(list)
def list_(I, it=()):
    return I.mklist(I.iter_parts(it))


@model(list.__init__)
def list_init(I, o, it=()):
    o.parts = list(I.iter_parts(it))


@model(set.issubset, frozenset.issubset)
def set_issubset(I, o, other):
    if isinstance(other, HObj) and other.kind == 'set' and all(isinstance(p, str) for p in I.parts(other)):
        other = set(I.parts(other))
    if isinstance(o, HObj) and o.kind == 'charset' and isinstance(other, (set, frozenset, str)):
        cs = [c for c in other if isinstance(c, str) and len(c) == 1]
        if not cs:
            return I.mk(z3.Length(I.term(o.extra['text'])) == 0, 'bool')
        t = I.term(o.extra['text'])
        only = I.path.facts.only.get(t.get_id())
        if only is not None and only <= set(cs):
            return True
        return I.mk(z3.InRe(t, z3.Star(charclass(cs))), 'bool')
    if isinstance(o, HObj) and o.kind == 'set' and all(is_concrete(p) for p in I.parts(o)) and \
            isinstance(other, (set, frozenset, str)):
        return set(I.parts(o)).issubset(other)
    if isinstance(o, HObj) and o.kind == 'set' and isinstance(other, HObj) and other.kind == 'set' and \
            not any(isinstance(p, (Chunk, MapChunk)) for p in I.parts(o)):
        for p in I.parts(o):
            if I.set_find(other, p) is None:
                return False
        return True
    raise Unsupported('issubset')


def charclass(cs):
    """The regular expression of one of the characters."""
    ns = sorted({ord(c) for c in cs})
    spans = []
    for n in ns:
        if spans and n == spans[-1][1] + 1:
            spans[-1][1] = n
        else:
            spans.append([n, n])
    rs = [z3.Range(zstr(chr(a)), zstr(chr(b))) for a, b in spans]
    return rs[0] if len(rs) == 1 else z3.Union(*rs)


@model(set)
def set_(I, it=()):
    if isinstance(it, Sym) and it.k == 'str':
        o = I.alloc(set, 'charset', None)
        o.extra = {'text': it}
        return o
    o = I.alloc(set, 'set', [])
    set_update(I, o, it)
    return o


@model(frozenset)
def frozenset_(I, it=()):
    o = I.alloc(frozenset, 'set', [])
    set_update(I, o, it)
    return o


@model(dict)
def dict_(I, *a, **k):
    o = I.alloc(dict, 'dict', [])
    dict_update(I, o, *a, **k)
    return o


@model(bytearray)
def bytearray_(I, *a):
    o = I.alloc(bytearray, None, None)
    o.attrs['value'] = bytes_(I, *a) if a else b''
    return o


@model(bytearray.extend, bytearray.__iadd__)
def bytearray_extend(I, o, v):
    if isinstance(v, HObj) and v.cls is bytearray:
        v = bytearray_value(I, v)
    if I.kind_of(v) != 'bytes':
        raise Unsupported('bytearray extended by %r' % (v,))
    old = bytearray_value(I, o)
    I.note_write(o, 'value')
    o.attrs['value'] = I.binop('Add', old, v)


@model(bytearray.append)
def bytearray_append(I, o, v):
    if not is_concrete(v):
        raise Unsupported('symbolic byte')
    bytearray_extend(I, o, bytes([v]))


def bytearray_value(I, o):
    I.fresh_read(o, 'value')
    return o.attrs['value']


@model(bytes)
def bytes_(I, *a):
    if len(a) == 1 and isinstance(a[0], HObj) and a[0].cls is bytearray:
        return bytearray_value(I, a[0])
    if all_concrete(a):
        try:
            return bytes(*a)
        except Exception as e:
            raise PyExc(e)
    if len(a) == 1 and I.kind_of(a[0]) == 'bytes':
        return a[0]
    raise Unsupported('bytes()')


# ------------------------------------------------------------------------ list
@model(list.append)
def list_append(I, o, v):
    wl(I, o)
    I.note_write(o, 'store')
    if o.extra is not None and 'thunk' in o.extra:
        I.parts(o)
    o.parts = list(o.parts) + [v]


def wl(I, o):
    if not isinstance(o, HObj):
        raise Unsupported('mutation of a native list')


@model(list.extend, list.__iadd__)
def list_extend(I, o, it):
    wl(I, o)
    ps = I.iter_parts(it)
    I.note_write(o, 'store')
    o.parts = I.parts(o) + list(ps)
    return None


@model(list.insert)
def list_insert(I, o, i, v):
    wl(I, o)
    ps = I.parts(o)
    if i == 0:
        new = [v] + ps
    elif not chunky(ps) and isinstance(i, int):
        new = list(ps)
        new.insert(i, v)
    else:
        raise Unsupported('insert')
    I.note_write(o, 'store')
    o.parts = new


@model(list.pop)
def list_pop(I, o, i=-1):
    wl(I, o)
    if not I.test(len_nonzero(I, o)):
        raise I.pyexc(IndexError, 'pop from empty list')
    j = I.list_index(o, i)
    ps = I.parts(o)
    v = ps[j]
    I.note_write(o, 'store')
    o.parts = ps[:j] + ps[j + 1:]
    return v


def len_nonzero(I, o):
    n = I.length(o)
    return n > 0 if isinstance(n, int) else I.mk(n.t > 0, 'bool')


@model(list.remove)
def list_remove(I, o, v):
    wl(I, o)
    i = I.find_in(o, lambda y: I.path.decide(I.eq(y, v)))
    if i is None:
        raise I.pyexc(ValueError, 'x not in list')
    ps = I.parts(o)
    I.note_write(o, 'store')
    o.parts = ps[:i] + ps[i + 1:]


@model(list.index)
def list_index(I, o, v):
    i = I.find_in(o, lambda y: I.path.decide(I.eq(y, v)))
    if i is None:
        raise I.pyexc(ValueError, 'x not in list')
    t = z3.IntVal(0)
    for p in I.parts(o)[:i]:
        t = t + (p.len if isinstance(p, (Chunk, MapChunk)) else 1)
    return I.mk(t, 'int')


@model(list.count)
def list_count(I, o, v):
    ps = I.parts(o)
    if chunky(ps):
        raise Unsupported('count')
    return sum(1 for p in ps if I.path.decide(I.eq(p, v)))


@model(list.clear)
def list_clear(I, o):
    wl(I, o)
    I.note_write(o, 'store')
    o.parts = []


@model(list.copy)
def list_copy(I, o):
    return I.mklist(I.parts(o))


@model(list.reverse)
def list_reverse(I, o):
    wl(I, o)
    ps = I.parts(o)
    if chunky(ps):
        raise Unsupported('reverse')
    I.note_write(o, 'store')
    o.parts = ps[::-1]


@model(list.sort)
def list_sort(I, o, key=None, reverse=False):
    wl(I, o)
    ps = I.parts(o)
    if chunky(ps):
        raise Unsupported('sort')
    new = sort_parts(I, ps, key, reverse)
    I.note_write(o, 'store')
    o.parts = new


@model(list.__len__, dict.__len__, set.__len__, tuple.__len__)
def c_len(I, o):
    return I.length(o) if isinstance(o, HObj) else len(o)


@model(list.__iter__, set.__iter__, tuple.__iter__)
def c_iter(I, o):
    if isinstance(o, HObj):
        return mkiter(I, I.parts(o))
    return mkiter(I, I.iter_parts(o))


@model(dict.__iter__)
def d_iter(I, o):
    return mkiter(I, I.dict_view(dd(I, o), 'keys'))


@model(list.__contains__, set.__contains__, tuple.__contains__)
def c_contains(I, o, x):
    if isinstance(o, HObj):
        tmp = HObj({'list': list, 'set': set}[o.kind], o.kind, o.parts)
        r = I.contains(tmp, x)
        o.parts = tmp.parts
        return I.boolval(r)
    return I.boolval(I.contains(o, x))


@model(list.__getitem__, tuple.__getitem__)
def list_getitem(I, o, i):
    if not isinstance(o, HObj):
        o = HObj(type(o), 'list', list(o))
    if isinstance(i, slice):
        ps = I.parts(o)
        cls = tuple if issubclass(o.cls, tuple) else list
        if i.start is None and i.stop is None and i.step is None:
            return I.mklist(ps, cls)
        if chunky(ps):
            if i.step is None and i.stop is None and isinstance(i.start, int) and i.start >= 0:
                k = 0
                while k < i.start:
                    rest = HObj(list, 'list', I.parts(o)[k:])
                    if not I.front(rest):
                        return I.mklist([], cls)
                    k += 1
                return I.mklist(I.parts(o)[k:], cls)
            if i.step is None and i.start is None and i.stop == -1:
                if not I.back(o):
                    return I.mklist([], cls)
                return I.mklist(I.parts(o)[:-1], cls)
            raise Unsupported('slice of unknown list')
        r = ps[I.lower_slice(i)]
        return tuple(r) if cls is tuple else I.mklist(r)
    if I.kind_of(i) not in ('int', 'bool'):
        raise I.pyexc(TypeError, 'list indices must be integers')
    return _getitem_fix(I, o, i)


def _getitem_fix(I, o, i):
    j = I.list_index(o, i)
    return I.parts(o)[j]


@model(list.__setitem__)
def list_setitem(I, o, i, v):
    wl(I, o)
    if isinstance(i, slice):
        ps = I.parts(o)
        new = I.iter_parts(v)
        if i.start is None and i.stop is None and i.step is None:
            I.note_write(o, 'store')
            o.parts = list(new)
            return
        if i.step is None and i.stop is None and i.start is not None:
            k = slice_pos(I, o, i.start)
            I.note_write(o, 'store')
            o.parts = I.parts(o)[:k] + list(new)
            return
        if chunky(ps):
            raise Unsupported('slice assignment')
        ps = list(ps)
        ps[I.lower_slice(i)] = new
        I.note_write(o, 'store')
        o.parts = ps
        return
    if I.kind_of(i) not in ('int', 'bool'):
        raise I.pyexc(TypeError, 'list indices must be integers')
    j = elem_pos(I, o, i)
    ps = list(I.parts(o))
    ps[j] = v
    I.note_write(o, 'store')
    o.parts = ps


def elem_pos(I, o, i):
    """Like list_index but accepts a symbolic index that is entailed to be
    the position of an explicit element."""
    if isinstance(i, Sym):
        acc = z3.IntVal(0)
        for j, p in enumerate(I.parts(o)):
            if isinstance(p, (Chunk, MapChunk)):
                acc = acc + p.len
            else:
                if I.path.entails(acc == i.t) is True:
                    return j
                acc = acc + 1
    return I.list_index(o, i)


def slice_pos(I, o, i):
    """Number of parts before position i (must fall on a part boundary)."""
    acc = z3.IntVal(0)
    t = I.term(i)
    ps = I.parts(o)
    for j in range(len(ps) + 1):
        if I.path.entails(acc == t) is True:
            return j
        if j < len(ps):
            p = ps[j]
            acc = acc + (p.len if isinstance(p, (Chunk, MapChunk)) else 1)
    if isinstance(i, int) and not chunky(ps):
        return max(0, min(len(ps), i if i >= 0 else len(ps) + i))
    raise Unsupported('slice position')


@model(list.__delitem__)
def list_delitem(I, o, i):
    wl(I, o)
    if isinstance(i, slice):
        if i.start is None and i.stop is None:
            I.note_write(o, 'store')
            o.parts = []
            return
        if i.step is None and i.stop is None:
            k = slice_pos(I, o, i.start)
            I.note_write(o, 'store')
            o.parts = I.parts(o)[:k]
            return
        ps = I.parts(o)
        if chunky(ps):
            raise Unsupported('del slice')
        ps = list(ps)
        del ps[I.lower_slice(i)]
        I.note_write(o, 'store')
        o.parts = ps
        return
    j = elem_pos(I, o, i)
    ps = I.parts(o)
    I.note_write(o, 'store')
    o.parts = ps[:j] + ps[j + 1:]


# ------------------------------------------------------------------------ dict
def dd(I, o):
    return o if isinstance(o, HObj) else I.lift(o)


def wd(I, o):
    if not isinstance(o, HObj):
        raise Unsupported('mutation of a native dict')


@model(dict.__getitem__)
def dict_getitem(I, o, k):
    e = I.dict_find(dd(I, o), k)
    if e is None:
        if isinstance(o, HObj):
            m = I.class_lookup(o.cls, '__missing__')
            if isinstance(m, types.FunctionType):
                return I.call(m, (o, k), {})
        raise I.pyexc(KeyError, k)
    return e.value


@model(dict.get)
def dict_get(I, o, k, default=None):
    e = I.dict_find(dd(I, o), k)
    return default if e is None else e.value


@model(dict.__contains__)
def dict_contains(I, o, k):
    return I.dict_find(dd(I, o), k) is not None


@model(dict.__setitem__)
def dict_setitem(I, o, k, v):
    wd(I, o)
    I.dict_set(o, k, v)


@model(dict.__delitem__)
def dict_delitem(I, o, k):
    wd(I, o)
    if I.dict_del(o, k) is None:
        raise I.pyexc(KeyError, k)


@model(dict.setdefault)
def dict_setdefault(I, o, k, default=None):
    wd(I, o)
    e = I.dict_find(o, k)
    if e is None:
        I.note_write(o, 'store')
        o.parts = I.norm(o.parts) + [Entry(k, default)]
        return default
    return e.value


@model(dict.pop)
def dict_pop(I, o, k, default=_missing):
    wd(I, o)
    e = I.dict_del(o, k)
    if e is None:
        if default is _missing:
            raise I.pyexc(KeyError, k)
        return default
    return e.value


@model(dict.popitem)
def dict_popitem(I, o):
    wd(I, o)
    tmp = HObj(list, 'list', I.norm(o.parts))
    if not I.back(tmp):
        raise I.pyexc(KeyError, 'popitem(): dictionary is empty')
    ps = I.parts(tmp)
    e = ps[-1]
    # distinctness of the popped key
    for q in ps[:-1]:
        if isinstance(q, (Chunk, MapChunk)):
            I.mark_absent(q.base if isinstance(q, MapChunk) else q, e.key)
        elif isinstance(q, Entry):
            I.path.assume(I.neg(I.eq(q.key, e.key)))
    I.note_write(o, 'store')
    o.parts = ps[:-1]
    return (e.key, e.value)


@model(dict.clear)
def dict_clear(I, o):
    wd(I, o)
    I.note_write(o, 'store')
    o.parts = []


@model(dict.keys)
def dict_keys(I, o):
    return I.mklist(I.dict_view(dd(I, o), 'keys'))


@model(dict.values)
def dict_values(I, o):
    return I.mklist(I.dict_view(dd(I, o), 'values'))


@model(dict.items)
def dict_items(I, o):
    return I.mklist(I.dict_view(dd(I, o), 'items'))


@model(dict.copy)
def dict_copy(I, o):
    return I.alloc(dict, 'dict', [Entry(e.key, e.value) if isinstance(e, Entry) else e
                                  for e in I.norm(dd(I, o).parts)])


@model(dict.fromkeys)
def dict_fromkeys(I, *a):
    raise Unsupported('fromkeys')


@model(dict.update)
def dict_update(I, o, *a, **k):
    wd(I, o)
    if a:
        src = a[0]
        if isinstance(src, dict):
            src = I.lift(src)
        if isinstance(src, HObj) and src.kind == 'dict':
            # CPython uses the raw storage only for exact dicts or when keys/
            # __iter__ are not overridden
            km = I.class_lookup(src.cls, '__iter__')
            if isinstance(km, types.FunctionType) and not issubclass(src.cls, dict):
                raise Unsupported('dict.update from mapping')
            if isinstance(km, types.FunctionType):
                keys = I.iter_parts(I.call(I.getattr(src, 'keys'), (), {}))
                if chunky(keys):
                    raise Unsupported('dict.update from unknown mapping')
                for kk in keys:
                    I.dict_set(o, kk, I.getitem(src, kk))
            else:
                es = I.norm(src.parts)
                if chunky(es):
                    if o.parts:
                        raise Unsupported('dict.update with unknown entries')
                    I.note_write(o, 'store')
                    o.parts = [Entry(e.key, e.value) if isinstance(e, Entry) else e for e in es]
                else:
                    for e in es:
                        I.dict_set(o, e.key, e.value)
        elif isinstance(src, HObj) and I.class_lookup(src.cls, 'keys') is not None:
            for kk in I.iterate_known(I.call(I.getattr(src, 'keys'), (), {})):
                I.dict_set(o, kk, I.getitem(src, kk))
        else:
            parts = I.iter_parts(src)
            if chunky(parts):
                if o.parts:
                    raise Unsupported('dict.update with unknown pairs')
                new = I.entry_parts(parts)
                I.note_write(o, 'store')
                o.parts = new
                parts = []
            for p in parts:
                kv = I.iterate_known(p, 2)
                if len(kv) != 2:
                    raise I.pyexc(ValueError, 'dictionary update sequence')
                I.dict_set(o, kv[0], kv[1])
    for n, v in k.items():
        I.dict_set(o, n, v)


MODELS[dict.__init__] = dict_update


@model(dict.__ior__)
def dict_ior(I, o, other):
    dict_update(I, o, other)
    return o


def dict_or(I, a, b):
    o = I.alloc(dict, 'dict', list(I.norm(a.parts)))
    dict_update(I, o, b)
    return o


@model(dict.__eq__)
def dict_eq(I, a, b):
    return I.boolval(I.eq_dict(a, b))


@model(dict.__repr__, list.__repr__, set.__repr__, object.__repr__, object.__str__)
def c_repr(I, o):
    if is_concrete(o):
        return repr(o)
    I.path.inexact.append('repr')
    return I.path.fresh('repr', 'str')


# ------------------------------------------------------------------------- set
@model(set.add)
def set_add(I, o, v):
    if not isinstance(o, HObj):
        raise Unsupported('mutation of a native set')
    I.set_add(o, v)


@model(set.discard)
def set_discard(I, o, v):
    e = I.set_find(o, v)
    if e is not None:
        set_drop(I, o, e)


@model(set.remove)
def set_remove(I, o, v):
    e = I.set_find(o, v)
    if e is None:
        raise I.pyexc(KeyError, v)
    set_drop(I, o, e)


def set_drop(I, o, e):
    if not I.keyed_set(o):
        raise Unsupported('removal from a set of unknown elements')
    I.note_write(o, 'store')
    o.parts = [p for p in I.parts(o) if p is not e]


@model(set.clear)
def set_clear(I, o):
    I.note_write(o, 'store')
    o.parts = []


@model(set.update, set.__init__)
def set_update(I, o, *its):
    for it in its:
        parts = I.iter_parts(it)
        if chunky(parts):
            if o.parts:
                raise Unsupported('set update with unknown elements')
            I.note_write(o, 'store')
            o.parts = list(parts)
            continue
        for p in parts:
            I.set_add(o, p)


@model(set.copy)
def set_copy(I, o):
    return I.alloc(set, 'set', list(I.parts(o)))


def set_binop(I, op, a, b):
    o = I.alloc(set, 'set', [])
    if op == 'BitOr':
        set_update(I, o, a)
        set_update(I, o, b)
        return o
    for p in I.parts(a):
        if isinstance(p, (Chunk, MapChunk)):
            raise Unsupported('set operator')
        inb = I.path.decide(I.contains(b, p))
        if inb == (op == 'BitAnd'):
            I.set_add(o, p)
    return o


# ------------------------------------------------------------------------- str
def need(I, o, k):
    if I.kind_of(o) != k:
        raise I.pyexc(TypeError, 'expected %s' % k)
    return I.term(o)


def smodel(name):
    def deco(f):
        for t, k in ((str, 'str'), (bytes, 'bytes')):
            if not hasattr(t, name):
                continue
            real = getattr(t, name)

            def wrapper(I, s, *args, __real=real, __k=k, **kw):
                s = pinned(I, s)
                args = tuple(pinned(I, a) for a in args)
                if is_concrete(s) and all_concrete(args, kw):
                    try:
                        return I.wrap_native(__real(s, *args, **kw))
                    except Exception as e:
                        raise PyExc(e)
                try:
                    la = tuple(I.lower(a) for a in args)
                    if is_concrete(s):
                        return I.wrap_native(__real(s, *la, **{n: I.lower(v) for n, v in kw.items()}))
                except Unsupported:
                    pass
                except Exception as e:
                    raise PyExc(e)
                return f(I, __k, s, *args, **kw)
            MODELS[real] = wrapper
        return f
    return deco


def pinned(I, s):
    """The text s is known to be on this path, if it is known."""
    if I.path.facts.value and isinstance(s, Sym) and s.k in ('str', 'bytes') and s.t is not None:
        ps = I.path.facts.known(rope.flatten(s.t))
        if not ps or len(ps) == 1 and isinstance(ps[0], str):
            return I.mk(z3.StringVal(ps[0] if ps else ''), s.k)
    return s


def pcs(I, s):
    return I.path.facts.known(rope.flatten(I.term(s)))


def mkr(I, k, pieces):
    return I.mk(rope.build(pieces), k)


def litof(I, p):
    """Literal text of a concrete str/bytes, else None."""
    if isinstance(p, str):
        return p
    if isinstance(p, bytes):
        return p.decode('latin1')
    return None


def has(I, s, p):
    """z3 condition / bool: p occurs in s."""
    lp = litof(I, p)
    t = I.term(s)
    if lp is not None:
        if lp == '':
            return True
        r = rope.find(I.path.facts, I.path.facts.known(rope.flatten(t)), lp)
        if r is None:
            return False
        if r is not rope.UNKNOWN:
            return True
    elif litof(I, s) is not None:
        for x in pcs(I, p):
            if I.path.facts.is_nonempty(x) and I.path.facts.excludes_all(x, litof(I, s)):
                return False
    return z3.Contains(t, I.term(p))


def note_absent(I, s, p):
    lp = litof(I, p)
    if lp is not None and len(lp) == 1:
        for x in pcs(I, s):
            if not isinstance(x, str):
                I.path.facts.add_excl(x, lp)


def cut_first(I, k, s, p):
    """(before, after) the first occurrence of p in s, which is known to occur."""
    lp = litof(I, p)
    F = I.path.facts
    t = I.term(s)
    if lp:
        ps = I.path.facts.known(rope.flatten(t))
        loc = rope.find(F, ps, lp)
        if loc is not None and loc is not rope.UNKNOWN:
            a, b = rope.cut(ps, loc, len(lp))
            return mkr(I, k, a), mkr(I, k, b)
        if len(lp) == 1:
            memo = I.path.__dict__.setdefault('_cuts', {})
            key = ('l', t.get_id(), lp)
            if key not in memo:
                a = I.path.fresh_term('pre', 'str')
                b = I.path.fresh_term('post', 'str')
                I.path.assume(t == z3.Concat(a, z3.StringVal(lp), b))
                I.path.assume(z3.Not(z3.Contains(a, z3.StringVal(lp))))
                F.inherit(ps, a)
                F.inherit(ps, b)
                F.add_excl(a, lp)
                memo[key] = (a, b, t)
            a, b = memo[key][:2]
            return Sym(a, k), Sym(b, k)
    p = I.term(p)
    i = z3.IndexOf(t, p, 0)
    return (I.mk(z3.SubString(t, 0, i), k),
            I.mk(z3.SubString(t, i + z3.Length(p), z3.Length(t)), k))


LOWER = {'str': z3.Function('lower', z3.StringSort(), z3.StringSort()),
         'bytes': z3.Function('lower_b', z3.StringSort(), z3.StringSort())}
UPPER = z3.Function('upper', z3.StringSort(), z3.StringSort())
TITLE = z3.Function('title', z3.StringSort(), z3.StringSort())


def uf1(I, decl, s, k):
    t = I.term(s)
    r = decl(t)
    key = (decl.name(), t.sexpr())
    if key not in I.path.ufs_seen:
        I.path.ufs_seen.add(key)
        I.path.assume(decl(r) == r)                        # idempotent
        I.path.assume((z3.Length(t) == 0) == (z3.Length(r) == 0))
    return Sym(r, k)


@smodel('lower')
def s_lower(I, k, s):
    ps = pcs(I, s)
    F = I.path.facts
    if all(isinstance(p, str) and p.isascii() or
           not isinstance(p, str) and p.get_id() in F.only and
           all(c.isascii() and c.lower() == c for c in F.only[p.get_id()]) for p in ps):
        return mkr(I, k, [p.lower() if isinstance(p, str) else p for p in ps])
    I.path.inexact.append('lower')
    r = uf1(I, LOWER[k], s, k)
    # relate to the constants the program compares with
    for c in I.ex.lower_consts:
        kk = ('lc', r.t.sexpr(), c)
        if kk not in I.path.ufs_seen:
            I.path.ufs_seen.add(kk)
            I.path.assume(z3.Implies(I.term(s) == z3.StringVal(c), r.t == z3.StringVal(c.lower())))
    return r


@smodel('upper')
def s_upper(I, k, s):
    return uf1(I, UPPER, s, k)


@smodel('title')
def s_title(I, k, s):
    return uf1(I, TITLE, s, k)


@smodel('startswith')
def s_startswith(I, k, s, p, *rest):
    if rest:
        raise Unsupported('startswith with bounds')
    if isinstance(p, tuple):
        return I.boolval(I.disj([I.truth(s_startswith(I, k, s, q)) for q in p]))
    need(I, p, k)
    lp = litof(I, p)
    if lp is not None:
        r = rope.startswith(I.path.facts, pcs(I, s), lp)
        if r is not rope.UNKNOWN:
            return r if isinstance(r, bool) else I.boolval(r)
    if k == 'str' and lp is None:
        return I.boolval(rope.facts_term(rope.align(I.path.facts, pcs(I, p), pcs(I, s), True)))
    return I.mk(z3.PrefixOf(need(I, p, k), need(I, s, k)), 'bool')


@smodel('endswith')
def s_endswith(I, k, s, p, *rest):
    if rest:
        raise Unsupported('endswith with bounds')
    if isinstance(p, tuple):
        return I.boolval(I.disj([I.truth(s_endswith(I, k, s, q)) for q in p]))
    need(I, p, k)
    lp = litof(I, p)
    if lp is not None:
        r = rope.endswith(I.path.facts, pcs(I, s), lp)
        if r is not rope.UNKNOWN:
            return r if isinstance(r, bool) else I.boolval(r)
    return I.mk(z3.SuffixOf(need(I, p, k), need(I, s, k)), 'bool')


@smodel('find')
def s_find(I, k, s, p, *rest):
    if rest:
        raise Unsupported('find with bounds')
    return I.mk(z3.IndexOf(I.term(s), need(I, p, k), 0), 'int')


@smodel('replace')
def s_replace(I, k, s, a, b, *rest):
    if rest:
        raise Unsupported('replace with count')
    if is_concrete(a) and len(a) == 0:
        raise Unsupported('replace of empty string')
    la, lb = litof(I, a), litof(I, b)
    a, b = need(I, a, k), need(I, b, k)
    ps = pcs(I, s)
    F = I.path.facts
    if la is not None and lb is not None and len(la) == 1 and (
            len(ps) > 1 or F.excludes(ps[0], la)):
        out = []
        for p in ps:
            if isinstance(p, str):
                out.append(p.replace(la, lb))
            elif F.excludes(p, la):
                out.append(p)
            else:
                out.append(s_replace(I, k, Sym(p, k), *((la, lb) if k == 'str' else (
                    la.encode('latin1'), lb.encode('latin1')))).t)
        return mkr(I, k, out)
    if la is not None and lb is not None and len(la) > 1 and all(
            isinstance(p, str) or all(F.excludes(p, c) for c in la) for p in ps):
        # text that cannot take part in an occurrence separates the literals
        if la not in ''.join(p for p in ps if isinstance(p, str)):
            return s
        out = ['']
        for p in ps:
            if isinstance(p, str):
                out[-1] += p
            elif not I.path.decide(z3.Length(p) == 0):
                out += [p, '']
        return mkr(I, k, [p.replace(la, lb) if isinstance(p, str) else p for p in out if not isinstance(p, str) or p])
    ra = z3.Function('replace_all_' + k, z3.StringSort(), z3.StringSort(), z3.StringSort(), z3.StringSort())
    t = I.term(s)
    r = ra(t, a, b)
    I.path.inexact.append('replace')
    I.path.assume(z3.Implies(z3.Not(z3.Contains(t, a)), r == t))
    return Sym(r, k)


WS = (' \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006'
      '\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000')
WSB = ' \t\n\r\x0b\x0c'


def _strip(I, k, s, chars, left, right):
    t = I.term(s)
    if chars is None:
        cs = WS if k == 'str' else WSB
    else:
        if not is_concrete(chars):
            raise Unsupported('strip of symbolic characters')
        cs = chars if isinstance(chars, str) else chars.decode('latin1')
        if I.kind_of(chars) != k:
            raise I.pyexc(TypeError, 'strip arg')
    r = rope.strip(I.path.facts, I.path.facts.known(rope.flatten(t)), cs, left, right)
    if r is not rope.UNKNOWN:
        return mkr(I, k, r)
    one = z3.Union(*[z3.Re(z3.StringVal(c)) for c in cs]) if len(cs) > 1 else z3.Re(z3.StringVal(cs))
    ws = z3.Star(one)
    memo = I.path.__dict__.setdefault('_strips', {})
    key = (t.sexpr(), k, cs, left, right)
    if key in memo:
        return memo[key]
    mid = I.path.fresh_term('strip', 'str')
    a = I.path.fresh_term('ws', 'str') if left else z3.StringVal('')
    b = I.path.fresh_term('ws', 'str') if right else z3.StringVal('')
    I.path.assume(t == z3.Concat(a, mid, b))
    n = z3.Length(mid)
    if left:
        I.path.assume(z3.InRe(a, ws))
        I.path.assume(z3.Or(n == 0, z3.Not(z3.InRe(z3.SubString(mid, 0, 1), one))))
    if right:
        I.path.assume(z3.InRe(b, ws))
        I.path.assume(z3.Or(n == 0, z3.Not(z3.InRe(z3.SubString(mid, n - 1, 1), one))))
    memo[key] = Sym(mid, k)
    return memo[key]


@smodel('strip')
def s_strip(I, k, s, chars=None):
    return _strip(I, k, s, chars, True, True)


@smodel('lstrip')
def s_lstrip(I, k, s, chars=None):
    return _strip(I, k, s, chars, True, False)


@smodel('rstrip')
def s_rstrip(I, k, s, chars=None):
    return _strip(I, k, s, chars, False, True)


@smodel('partition')
def s_partition(I, k, s, sep):
    t, p = I.term(s), need(I, sep, k)
    if I.path.decide(has(I, s, sep)):
        a, b = cut_first(I, k, s, sep)
        return (a, sep, b)
    note_absent(I, s, sep)
    e = '' if k == 'str' else b''
    return (s, e, e)


@smodel('rpartition')
def s_rpartition(I, k, s, sep):
    t, p = I.term(s), need(I, sep, k)
    e = '' if k == 'str' else b''
    if I.path.decide(has(I, s, sep)):
        a, b = rsplit1(I, k, t, p)
        return (a, sep, b)
    note_absent(I, s, sep)
    return (e, e, s)


def rsplit1(I, k, t, p):
    if z3.is_string_value(p):
        lp = rope.unlit(p)
        ps = I.path.facts.known(rope.flatten(t))
        loc = rope.rfind(I.path.facts, ps, lp)
        if loc is not None and loc is not rope.UNKNOWN:
            a, b = rope.cut(ps, loc, len(lp))
            return mkr(I, k, a), mkr(I, k, b)
    memo = I.path.__dict__.setdefault('_cuts', {})
    key = ('r', t.get_id(), p.get_id())
    if key not in memo:
        a = I.path.fresh_term('pre', 'str')
        b = I.path.fresh_term('post', 'str')
        I.path.assume(t == z3.Concat(a, p, b))
        I.path.assume(z3.Not(z3.Contains(z3.Concat(z3.SubString(p, 1, z3.Length(p)), b), p)))
        if z3.is_string_value(p) and len(lp) == 1:
            F = I.path.facts
            F.inherit(ps, a)
            F.inherit(ps, b)
            F.add_excl(b, lp)
        memo[key] = (a, b, t, p)
    a, b = memo[key][:2]
    return Sym(a, k), Sym(b, k)


@smodel('split')
def s_split(I, k, s, sep=None, maxsplit=-1):
    if sep is None:
        r = rope.split_ws(I.path.facts, pcs(I, s), WS if k == 'str' else WSB, maxsplit)
        if r is not rope.UNKNOWN:
            return I.mklist([mkr(I, k, x) for x in r])
        raise Unsupported('split on whitespace')
    need(I, sep, k)
    if not isinstance(maxsplit, int):
        raise Unsupported('split')
    out = []
    n = maxsplit
    rounds = 0
    while True:
        if n == 0:
            break
        if not I.path.decide(has(I, s, sep)):
            note_absent(I, s, sep)
            break
        a, s = cut_first(I, k, s, sep)
        out.append(a)
        n -= 1
        rounds += 1
        if maxsplit < 0 and rounds > I.ex.unroll:
            if I.ex.mode == 'bounded':
                I.path.bounded.append('split into more than %d pieces' % rounds)
                raise PathEnd()
            raise Unsupported('unbounded split')
    out.append(s)
    return I.mklist(out)


LINES = '\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029'


@smodel('splitlines')
def s_splitlines(I, k, s, keepends=False):
    breaks = LINES if k == 'str' else '\n\r'
    ps = pcs(I, s)
    if not isinstance(keepends, (bool, int)) or not all(
            isinstance(p, str) or I.path.facts.excludes_all(p, breaks) for p in ps):
        raise Unsupported('splitlines')
    # pieces of text that may be empty matter only between \r and \n and at the end
    flat = []
    for p in ps:
        flat.extend(list(p) if isinstance(p, str) else [p])
    out, line = [], []

    def empty(p):
        return not I.path.facts.is_nonempty(p) and I.path.decide(z3.Length(p) == 0)
    n = 0
    while n < len(flat):
        c = flat[n]
        n += 1
        if not isinstance(c, str) or c not in breaks:
            line.append(c)
            continue
        end = [c]
        if c == '\r':
            m = n
            while m < len(flat) and not isinstance(flat[m], str):
                if not empty(flat[m]):
                    break
                m += 1
            if m < len(flat) and isinstance(flat[m], str) and flat[m] == '\n':
                end.append('\n')
                n = m + 1
        out.append(mkr(I, k, rope.clean(line + (end if keepends else []))))
        line = []
    if any(isinstance(p, str) for p in line) or line and not all(empty(p) for p in line):
        out.append(mkr(I, k, line))
    return I.mklist(out)


@smodel('rsplit')
def s_rsplit(I, k, s, sep=None, maxsplit=-1):
    if sep is None or maxsplit != 1:
        raise Unsupported('rsplit')
    t, p = I.term(s), need(I, sep, k)
    if I.path.decide(has(I, s, sep)):
        a, b = rsplit1(I, k, t, p)
        return I.mklist([a, b])
    note_absent(I, s, sep)
    return I.mklist([s])


@smodel('join')
def s_join(I, k, s, it):
    parts = I.iter_parts(it)
    if chunky(parts):
        return join_chunk(I, k, s, parts)
    out = '' if k == 'str' else b''
    for i, p in enumerate(parts):
        if I.kind_of(p) != k:
            raise I.pyexc(TypeError, 'sequence item: expected str')
        if i:
            out = I.binop('Add', out, s)
        out = I.binop('Add', out, p)
    return out


def join_chunk(I, k, s, parts):
    """Joining a list of unknown length: some string, the same for equal lists."""
    path = I.path
    parts = list(I.norm(parts))
    for p in parts:
        if not isinstance(p, (Chunk, MapChunk)):
            if I.kind_of(p) != k:
                raise I.pyexc(TypeError, 'sequence item: expected str')
        elif isinstance(p, MapChunk):
            if path.choose(2) == 1:
                path.assume(p.base.len > 0)
                D, x, R = I.split(p.base)
                path.prune()
                if any(I.kind_of(o) != k for o in p.outs(x)):
                    raise I.pyexc(TypeError, 'sequence item: expected str')
                raise PathEnd()
        elif I.kind_of(I.element(p)) != k:
            raise I.pyexc(TypeError, 'sequence item: expected str')
    for k2, s2, parts2, text in path.joins:
        if k2 != k or len(I.norm(parts2)) != len(I.norm(parts)) or path.entails(I.truth(I.eq(s, s2))) is not True:
            continue
        try:
            c = same_parts(I, parts, parts2)
        except Unsupported:
            continue
        if path.decide(c):
            return text
    text = path.fresh('joined', k)
    path.inexact.append('join')
    bases = [p.base if isinstance(p, MapChunk) else p for p in parts if isinstance(p, (Chunk, MapChunk))]
    if len(bases) == len(parts):
        path.assume(z3.Implies(z3.And(*[b.len == 0 for b in bases]), I.term(text) == z3.StringVal('')))
    path.joins.append((k, s, parts, text))
    return text


@smodel('isdecimal')
def s_isdecimal(I, k, s):
    ps = pcs(I, s)
    if ps and all(p.isdecimal() if isinstance(p, str) else is_dec(p) for p in ps):
        return True
    f = z3.Function('isdecimal_' + k, z3.StringSort(), z3.BoolSort())
    t = I.term(s)
    I.path.assume(z3.Implies(z3.InRe(t, DIGITS), f(t)))
    I.path.assume(z3.Implies(t == z3.StringVal(''), z3.Not(f(t))))
    ok, val = int_of(I, s)
    I.path.assume(z3.Implies(f(t), z3.And(ok, val >= 0)))
    return Sym(f(t), 'bool')


@smodel('isdigit')
def s_isdigit(I, k, s):
    ps = pcs(I, s)
    if ps and all(p.isdigit() if isinstance(p, str) else is_dec(p) for p in ps):
        return True
    f = z3.Function('isdigit_' + k, z3.StringSort(), z3.BoolSort())
    t = I.term(s)
    I.path.assume(z3.Implies(z3.InRe(t, DIGITS), f(t)))
    I.path.assume(z3.Implies(t == z3.StringVal(''), z3.Not(f(t))))
    if k == 'bytes':
        I.path.assume(f(t) == z3.InRe(t, DIGITS))
    return Sym(f(t), 'bool')


ENC = {}


def encfn(name, direction):
    key = (name, direction)
    if key not in ENC:
        ENC[key] = (z3.Function('%s_%s' % (direction, name), z3.StringSort(), z3.StringSort()),
                    z3.Function('%s_ok_%s' % (direction, name), z3.StringSort(), z3.BoolSort()))
    return ENC[key]


def codec(name):
    n = name.lower().replace('_', '').replace('-', '')
    return {'utf8': 'utf8', 'latin1': 'latin1', 'iso88591': 'latin1', 'ascii': 'ascii'}.get(n)


LATIN = z3.Star(z3.Range(z3.StringVal('\x00'), z3.StringVal('\xff')))
ASCII = z3.Star(z3.Range(z3.StringVal('\x00'), z3.StringVal('\x7f')))


def surely(I, s, test):
    """Whether what is known of the pieces of the text says that all its characters pass."""
    F = I.path.facts
    for p in pcs(I, s):
        if isinstance(p, str):
            chars = p
        elif p.get_id() in F.only:
            chars = F.only[p.get_id()]
        elif z3.is_app(p) and p.decl().name() == 'decimal':
            chars = '-0123456789'
        else:
            return False
        if not all(test(c) for c in chars):
            return False
    return True


@smodel('isascii')
def s_isascii(I, k, s):
    if surely(I, s, str.isascii):
        return True
    return I.mk(z3.InRe(I.term(s), ASCII), 'bool')


@smodel('encode')
def s_encode(I, k, s, encoding='utf-8', errors='strict'):
    if not is_concrete(encoding):
        raise Unsupported('symbolic codec')
    c = codec(encoding)
    t = I.term(s)
    if c in ('latin1', 'ascii'):
        r = LATIN if c == 'latin1' else ASCII
        if surely(I, s, (lambda x: ord(x) < 256) if c == 'latin1' else str.isascii) or I.path.decide(z3.InRe(t, r)):
            return Sym(t, 'bytes')
        if errors != 'strict':
            raise Unsupported('lossy encode')
        raise PyExc(UnicodeEncodeError(c, 'x', 0, 1, 'symbolic'))
    if c == 'utf8':
        enc, ok = encfn('utf8', 'enc')
        dec, dok = encfn('utf8', 'dec')
        r = enc(t)
        # surrogates are not modelled: every z3 character is encodable
        I.path.assume(z3.InRe(r, LATIN))
        I.path.assume(dec(r) == t)
        I.path.assume(dok(r))
        I.path.assume(z3.Implies(z3.InRe(t, ASCII), r == t))
        I.path.assume((z3.Length(t) == 0) == (z3.Length(r) == 0))
        I.path.inexact.append('utf-8')
        return Sym(r, 'bytes')
    raise Unsupported('codec %s' % encoding)


@smodel('decode')
def s_decode(I, k, s, encoding='utf-8', errors='strict'):
    if k != 'bytes':
        raise I.pyexc(AttributeError, 'decode')
    if not is_concrete(encoding):
        raise Unsupported('symbolic codec')
    c = codec(encoding)
    t = I.term(s)
    if c == 'latin1':
        return Sym(t, 'str')
    if c == 'ascii' and errors == 'strict':
        if I.path.decide(z3.InRe(t, ASCII)):
            return Sym(t, 'str')
        raise PyExc(UnicodeDecodeError(c, b'\xff', 0, 1, 'symbolic'))
    if c == 'utf8':
        dec, ok = encfn('utf8', 'dec')
        enc, eok = encfn('utf8', 'enc')
        I.path.inexact.append('utf-8')
        I.path.assume(z3.Implies(z3.InRe(t, ASCII), z3.And(ok(t), dec(t) == t)))
        if errors == 'strict':
            if I.path.decide(ok(t)):
                r = dec(t)
                I.path.assume(enc(r) == t)
                return Sym(r, 'str')
            raise PyExc(UnicodeDecodeError('utf-8', b'\xff', 0, 1, 'symbolic'))
        lossy = z3.Function('dec_utf8_' + errors, z3.StringSort(), z3.StringSort())
        I.path.assume(z3.Implies(ok(t), z3.And(lossy(t) == dec(t), enc(dec(t)) == t)))
        return Sym(lossy(t), 'str')
    raise Unsupported('codec %s' % encoding)


def cut_at(I, p, i):
    """One piece cut in two at a position known to lie inside it."""
    v = I.term(i.start if i.stop is None else i.stop)
    v = z3.simplify(v)
    for q, u, pre, post in I.path.cuts:
        if q.eq(p) and u.eq(v):
            break
    else:
        if isinstance(p, str) or not I.path.facts.excl.get(p.get_id()) or I.path.nofork or \
                I.path.entails(z3.And(v >= 0, v <= z3.Length(p))) is not True:
            return None, None, None
        pre, post = I.path.fresh_term('pre', 'str'), I.path.fresh_term('post', 'str')
        I.path.facts.inherit([p], pre)
        I.path.facts.inherit([p], post)
        I.path.assume(p == z3.Concat(pre, post))
        I.path.assume(z3.Length(pre) == v)
        I.path.cuts.append((p, v, pre, post))
    return ([pre, post], 0, 1) if i.start is None else ([pre, post], 1, 2)


def piece_at(I, ps, v):
    """How many pieces lie before position v, if it obviously is the end of one."""
    v = I.term(v)
    at = z3.IntVal(0)
    for n in range(len(ps) + 1):
        d = z3.simplify(v - at)
        if z3.is_int_value(d) and d.as_long() == 0:
            return n
        if n < len(ps):
            at = at + (len(ps[n]) if isinstance(ps[n], str) else z3.Length(ps[n]))
    return None


def str_getitem(I, o, i):
    k = I.kind_of(o)
    o = pinned(I, o)
    if is_concrete(o) and (is_concrete(i) if not isinstance(i, slice) else all(
            v is None or is_concrete(v) for v in (i.start, i.stop, i.step))):
        try:
            return o[i]
        except Exception as e:
            raise PyExc(e)
    t = I.term(o)
    n = z3.Length(t)
    if isinstance(i, slice):
        if i.step not in (None, 1):
            raise Unsupported('string slice step')
        if all(v is None or isinstance(v, int) and not isinstance(v, bool) for v in (i.start, i.stop)):
            ps = I.path.facts.known(rope.flatten(t))
            if i.stop == 0:
                return mkr(I, k, [])
            if i.stop is None and i.start in (None, 0):
                return mkr(I, k, ps)
            if len(ps) > 1:
                r = rope.slice_const(ps, i.start, i.stop)
                if r is not rope.UNKNOWN:
                    return mkr(I, k, r)
            if not I.path.nofork and (i.start, i.stop) in ((-1, None), (None, -1)) and \
                    not isinstance(ps[-1], str) and I.path.facts.excl.get(ps[-1].get_id()):
                last = ps[-1]
                if not (I.path.facts.is_nonempty(last) or I.path.decide(z3.Length(last) > 0)):
                    return str_getitem(I, mkr(I, k, ps[:-1]), i)
                two, _, _ = cut_at(I, last, slice(None, I.mk(z3.Length(last) - 1, 'int'), None))
                if two is not None:
                    I.path.facts.set_nonempty(two[1])
                    return mkr(I, k, [two[1]] if i.start == -1 else ps[:-1] + [two[0]])

        elif all(v is None or I.kind_of(v) == 'int' for v in (i.start, i.stop)):
            ps = I.path.facts.known(rope.flatten(t))
            a = 0 if i.start is None else piece_at(I, ps, i.start)
            b = len(ps) if i.stop is None else piece_at(I, ps, i.stop)
            if (a is None or b is None) and len(ps) == 1 and (i.start is None or i.stop is None):
                ps, a, b = cut_at(I, ps[0], i)
            if a is not None and b is not None:
                return mkr(I, k, ps[a:b])

        def clamp(v, default):
            if v is None:
                return default
            if I.kind_of(v) not in ('int', 'bool'):
                raise I.pyexc(TypeError, 'slice indices must be integers')
            x = I.term(v)
            if isinstance(v, int):
                if v >= 0:
                    return z3.If(z3.IntVal(v) > n, n, z3.IntVal(v))
                return z3.If(n + v < 0, z3.IntVal(0), n + v)
            return z3.If(x < 0, z3.If(n + x < 0, z3.IntVal(0), n + x), z3.If(x > n, n, x))
        a = clamp(i.start, z3.IntVal(0))
        b = clamp(i.stop, n)
        return I.mk(z3.If(b > a, z3.SubString(t, a, b - a), z3.StringVal('')), k)
    if I.kind_of(i) not in ('int', 'bool'):
        raise I.pyexc(TypeError, 'string indices must be integers')
    x = I.term(i)
    if isinstance(i, int):
        ps = I.path.facts.known(rope.flatten(t))
        c = None
        if i >= 0 and isinstance(ps[0], str) and i < len(ps[0]):
            c = ps[0][i]
        elif i < 0 and isinstance(ps[-1], str) and -i <= len(ps[-1]):
            c = ps[-1][i]
        if c is not None:
            return ord(c) if k == 'bytes' else c
    pos = z3.If(x < 0, n + x, x)
    if not I.path.decide(z3.And(pos >= 0, pos < n)):
        raise I.pyexc(IndexError, 'string index out of range')
    c = z3.SubString(t, pos, 1)
    if k == 'bytes':
        return I.mk(z3.StrToCode(c), 'int')
    return I.mk(c, k)


for _t in (str, bytes):
    MODELS[_t.__getitem__] = str_getitem


def zero_padded(I, v, width):
    """'%0{width}d' % v"""
    if is_concrete(v):
        return '%0*d' % (width, v)
    sign = ''
    if I.test(I.compare('Lt', v, 0)):
        sign = '-'
        v = I.binop('Sub', 0, v)
        width -= 1
    for k in range(1, width):
        if I.test(I.compare('Lt', v, 10 ** k)):
            return I.binop('Add', sign + '0' * (width - k), str_(I, v))
    return I.binop('Add', sign, str_(I, v))


def percent(I, fmt, arg):
    if not is_concrete(fmt):
        raise Unsupported('symbolic format')
    isb = isinstance(fmt, bytes)
    if isb:
        fmt = fmt.decode('latin1')
    args = list(arg) if isinstance(arg, tuple) else [arg]
    out = ''
    i = 0
    used = 0
    kind = 'bytes' if isb else 'str'

    def lit(x):
        return x.encode('latin1') if isb else x
    out = lit('')
    while i < len(fmt):
        c = fmt[i]
        if c != '%':
            out = I.binop('Add', out, lit(c))
            i += 1
            continue
        d = fmt[i + 1]
        i += 2
        width = 0
        if d == '0' and fmt[i:i + 2][1:] == 'd' and fmt[i].isdigit():
            width = int(fmt[i])
            d = 'd'
            i += 2
        if d == '%':
            out = I.binop('Add', out, lit('%'))
            continue
        if used >= len(args):
            raise I.pyexc(TypeError, 'not enough arguments for format string')
        v = args[used]
        used += 1
        if d == 's':
            if isb:
                if I.kind_of(v) != 'bytes':
                    raise I.pyexc(TypeError, '%b requires bytes')
                p = v
            else:
                p = str_(I, v)
        elif d == 'd':
            if I.kind_of(v) not in ('int', 'bool', 'real'):
                raise I.pyexc(TypeError, '%d format: a number is required')
            v = int_(I, v)
            p = zero_padded(I, v, width) if width else str_(I, v)
            if isb:
                raise Unsupported('bytes %d')
        elif d == 'r':
            p = repr_(I, v)
        else:
            raise Unsupported('format %%%s' % d)
        out = I.binop('Add', out, p)
    if used < len(args) and not (len(args) == 1 and isinstance(arg, HObj) and arg.kind == 'dict'):
        raise I.pyexc(TypeError, 'not all arguments converted')
    return out


@model(str.format)
def s_format(I, fmt, *args, **kw):
    if is_concrete(fmt) and all_concrete(args, kw):
        return fmt.format(*args, **kw)
    import string
    out = ''
    auto = 0
    for litp, field, spec, conv in string.Formatter().parse(fmt):
        out = I.binop('Add', out, litp)
        if field is None:
            continue
        if spec:
            raise Unsupported('format spec')
        if field == '':
            v = args[auto]
            auto += 1
        elif field.isdigit():
            v = args[int(field)]
        elif field in kw:
            v = kw[field]
        else:
            raise Unsupported('format field %r' % field)
        out = I.binop('Add', out, repr_(I, v) if conv == 'r' else str_(I, v))
    return out


# --------------------------------------------------------------- vocabulary
@model(vlib.exists)
def v_exists(I, seq, pred):
    o = seq if isinstance(seq, HObj) and seq.kind in ('list', 'set') else I.mklist(I.iter_parts(seq))
    return I.find_in(o, lambda y: I.test(I.call(pred, (y,), {}))) is not None


@model(vlib.forall)
def v_forall(I, seq, pred):
    o = seq if isinstance(seq, HObj) and seq.kind in ('list', 'set') else I.mklist(I.iter_parts(seq))
    return I.find_in(o, lambda y: not I.test(I.call(pred, (y,), {}))) is None


@model(vlib.first)
def v_first(I, seq, pred):
    o = I.mklist(I.iter_parts(seq))
    i = I.find_in(o, lambda y: I.test(I.call(pred, (y,), {})))
    if i is None:
        return None
    ps = I.parts(o)
    return (I.mklist(ps[:i]), ps[i], I.mklist(ps[i + 1:]))


@model(vlib.flatmap)
def v_flatmap(I, seq, fn):
    return I.mklist(I.map_parts(I.iter_parts(seq), lambda x: list(I.iterate_known(I.call(fn, (x,), {}))), 'flatmap'))


@model(vlib.either)
def v_either(I, *cs):
    return I.boolval(I.disj([I.truth(c) for c in cs]))


@model(vlib.both)
def v_both(I, *cs):
    return I.boolval(I.conj([I.truth(c) for c in cs]))


@model(vlib.same)
def v_same(I, a, b):
    return I.boolval(same_(I, a, b))


def same_(I, a, b):
    """Structural equality as a bool/z3 Bool; forks for mapped chunks."""
    if a is b:
        return True
    if isinstance(a, HObj) and a.kind == 'list' and isinstance(b, HObj) and b.kind == 'list':
        if issubclass(a.cls, tuple) != issubclass(b.cls, tuple):
            return False
        return same_parts(I, I.parts(a), I.parts(b))
    if isinstance(a, HObj) and a.kind == 'list' or isinstance(b, HObj) and b.kind == 'list':
        h, o = (a, b) if isinstance(a, HObj) and a.kind == 'list' else (b, a)
        if isinstance(o, list) or (isinstance(o, tuple) and issubclass(h.cls, tuple)):
            return same_parts(I, I.parts(h), list(o))
        return False
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return I.conj([same_(I, x, y) for x, y in zip(a, b)])
    if isinstance(a, dict) and isinstance(b, HObj):
        a = I.lift(a)
    if isinstance(b, dict) and isinstance(a, HObj):
        b = I.lift(b)
    if isinstance(a, HObj) and isinstance(b, HObj) and a.kind == b.kind == 'dict':
        pa, pb = I.norm(a.parts), I.norm(b.parts)
        fa = [(p.key, p.value) if isinstance(p, Entry) else p for p in pa]
        fb = [(p.key, p.value) if isinstance(p, Entry) else p for p in pb]
        return same_parts(I, fa, fb)
    ka, kb = I.kind_of(a), I.kind_of(b)
    if ka != kb:
        if {ka, kb} <= {'int', 'real'}:
            return I.eq(a, b)
        return False
    if a is None or b is None:
        return False
    if isinstance(a, HObj) and isinstance(b, HObj) and not a.kind and \
            not isinstance(I.class_lookup(a.cls, '__eq__'), types.FunctionType):
        return I.identical(a, b)
    return I.eq(a, b)


def same_parts(I, pa, pb, cmp=None):
    cmp = cmp or same_
    pa, pb = I.norm(pa), I.norm(pb)
    # align mapped chunks over the same base whose functions differ
    if len(pa) == len(pb):
        todo = []
        ok = True
        for x, y in zip(pa, pb):
            if I.same_part(x, y):
                continue
            if isinstance(x, (Chunk, MapChunk)) and isinstance(y, (Chunk, MapChunk)):
                bx = x.base if isinstance(x, MapChunk) else x
                by = y.base if isinstance(y, MapChunk) else y
                if bx is by:
                    todo.append((x, y, bx))
                    continue
            ok = False
            break
        if ok:
            for x, y, base in todo:
                if I.path.choose(2) == 1:
                    # pointwise equality on an arbitrary element
                    I.path.assume(base.len > 0)
                    D, e, R = I.split(base)
                    I.path.prune()
                    ox = x.outs(e) if isinstance(x, MapChunk) else [e]
                    oy = y.outs(e) if isinstance(y, MapChunk) else [e]
                    return same_parts(I, list(ox), list(oy), cmp)
            return I.conj([cmp(I, x, y) for x, y in zip(pa, pb)
                           if not isinstance(x, (Chunk, MapChunk))])
    if not chunky(pa) and not chunky(pb):
        if len(pa) != len(pb):
            return False
        return I.conj([cmp(I, x, y) for x, y in zip(pa, pb)])
    # lengths may be forced: try deciding emptiness of leftover chunks
    for ps in (pa, pb):
        for p in ps:
            if isinstance(p, MapChunk):
                p = p.base
            if isinstance(p, Chunk) and I.path.entails(p.len == 0) is True:
                p.split = []
                return same_parts(I, pa, pb, cmp)
    raise Unsupported('comparison of lists of unknown length')



def twin(I, a, b, seen=None):
    """Nothing can tell a from b, except that they may be two objects."""
    if a is b:
        return True
    if isinstance(a, Lazy):
        a = a.force()
    if isinstance(b, Lazy):
        b = b.force()
    seen = seen or {}

    def go(I, x, y):
        return twin(I, x, y, seen)
    if isinstance(a, HObj) and isinstance(b, HObj):
        if a is b or (id(a), id(b)) in seen:
            return True
        if a.kind != b.kind or a.cls is not b.cls or a.extra is not None or b.extra is not None or \
                list(a.attrs) != list(b.attrs):
            return False
        seen[(id(a), id(b))] = True
        cs = [go(I, a.attrs[k], b.attrs[k]) for k in a.attrs]
        if a.kind == 'dict':
            pa, pb = ([(p.key, p.value) if isinstance(p, Entry) else p for p in I.norm(o.parts)] for o in (a, b))
            cs.append(same_parts(I, pa, pb, go))
        elif a.kind:
            cs.append(same_parts(I, I.parts(a), I.parts(b), go))
        return I.conj(cs)
    if isinstance(a, HObj) or isinstance(b, HObj):
        return False
    if type(a) is tuple and type(b) is tuple:
        if len(a) != len(b):
            return False
        return I.conj([go(I, x, y) for x, y in zip(a, b)])
    ka, kb = I.kind_of(a), I.kind_of(b)
    if ka != kb or ka is None:
        return False
    return I.eq(a, b)


class _Traceback(object):
    """Stands for some traceback."""


TRACEBACK = _Traceback()


@model(sys.exc_info)
def sys_exc_info(I):
    if not I.exc_stack:
        return (None, None, None)
    e = I.exc_stack[-1]
    return (e.cls if isinstance(e, HObj) else type(e), e, TRACEBACK)
