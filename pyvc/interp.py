"""AST interpreter over concrete and symbolic values."""
import ast
import builtins
import functools
import inspect
import sys
import types
import z3

from .core import (
    Unsupported, PathEnd, Restart, PyExc, Return, Break, Continue,
    Sym, Chunk, MapChunk, Entry, HObj, zstr, SORTS,
)
from . import vlib, rope

_missing = object()

_ast_cache = {}


def file_ast(filename):
    if filename not in _ast_cache:
        with open(filename, encoding='utf-8') as f:
            src = f.read()
        tree = ast.parse(src, filename)
        index = {}
        for node in ast.walk(tree):
            if isinstance(node, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef)):
                name = getattr(node, 'name', '<lambda>')
                index.setdefault((name, node.lineno), []).append(node)
                for d in getattr(node, 'decorator_list', ()):
                    index.setdefault((name, d.lineno), []).append(node)
        _ast_cache[filename] = index
    return _ast_cache[filename]


def node_of(fn):
    code = fn.__code__
    nodes = file_ast(code.co_filename).get((code.co_name, code.co_firstlineno), [])
    uniq = []
    for n in nodes:
        if n not in uniq:
            uniq.append(n)
    if len(uniq) > 1:
        pos = next(iter(code.co_positions()), None)
        want = [p for p in code.co_positions() if p[0] is not None]
        cols = {p[2] for p in want if p[0] == code.co_firstlineno}
        m = [n for n in uniq if any(c is not None and n.col_offset <= c for c in cols)]
        # several lambdas on one line: choose the one whose body spans the code
        best = [n for n in uniq if all(
            (p[0], p[2]) >= (n.lineno, n.col_offset) and
            (p[1], p[3]) <= (n.end_lineno, n.end_col_offset)
            for p in want if p[1] is not None and p[2] is not None and (p[0], p[2]) != (code.co_firstlineno, 0))]
        uniq = best[:1] or m[:1] or uniq[:1]
    if not uniq:
        raise Unsupported('no source for %s' % code.co_name)
    return uniq[0]


_scope_cache = {}


def scope_info(node):
    """(local names, nonlocal names, global names, is_generator)"""
    if node in _scope_cache:
        return _scope_cache[node]
    loc, nl, gl = set(), set(), set()
    gen = [False]
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        loc.add(x.arg)
    if a.vararg:
        loc.add(a.vararg.arg)
    if a.kwarg:
        loc.add(a.kwarg.arg)

    def walk(n, top):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            if not top:
                loc.add(n.name)
                for d in n.decorator_list:
                    walk(d, False)
                return
        if isinstance(n, ast.Lambda) and not top:
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    loc.add(c.target.id)
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            gen[0] = True
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            loc.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            loc.add(n.name)
        if isinstance(n, ast.Nonlocal):
            nl.update(n.names)
        if isinstance(n, ast.Global):
            gl.update(n.names)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                loc.add((al.asname or al.name).split('.')[0])
        for c in ast.iter_child_nodes(n):
            walk(c, False)
    if isinstance(node, ast.Lambda):
        walk(node.body, False)
    else:
        for s in node.body:
            walk(s, False)
    loc -= nl
    loc -= gl
    _scope_cache[node] = (loc, nl, gl, gen[0])
    return _scope_cache[node]


class Func(object):
    """A Python function as the verifier sees it."""
    def __init__(self, node, globs, parent, defaults, kwdefaults, name, native=None):
        self.node = node
        self.globs = globs
        self.parent = parent
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.name = name
        self.native = native
        self.free = {}
        if native is not None and native.__closure__:
            for n, c in zip(native.__code__.co_freevars, native.__closure__):
                try:
                    self.free[n] = c.cell_contents
                except ValueError:
                    pass

    def __repr__(self):
        return 'Func<%s>' % self.name


_func_cache = {}


def to_func(fn):
    f = _func_cache.get(fn)
    if f is None:
        f = Func(node_of(fn), fn.__globals__, None, fn.__defaults__ or (),
                 fn.__kwdefaults__ or {}, fn.__qualname__, fn)
        _func_cache[fn] = f
    return f


class Bound(object):
    def __init__(self, func, self_):
        self.func = func
        self.self_ = self_

    def __repr__(self):
        return 'Bound<%r>' % (self.func,)


class SuperObj(object):
    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class Partial(object):
    def __init__(self, func, args, kwargs):
        self.func = func
        self.args = args
        self.kwargs = kwargs


class SpecialCallable(object):
    """Callable implemented by the engine."""
    def __init__(self, fn, name=''):
        self.fn = fn
        self.name = name


class UFunc(object):
    """An arbitrary deterministic total function, standing for unknown code."""
    def __init__(self, path, name, argkinds, reskind):
        self.name = name
        self.argkinds = argkinds
        self.reskind = reskind
        self.decl = z3.Function(path.fresh_name(name), *([SORTS[k] for k in argkinds] + [SORTS[reskind]]))


class Frame(object):
    def __init__(self, func, parent, globs, depth):
        self.func = func
        self.parent = parent
        self.globs = globs
        self.vars = {}
        self.depth = depth
        self.yields = None
        self.locals, self.nonlocals, self.globalnames, self.isgen = (set(), set(), set(), False)
        self.start_seq = 0
        self.site = None


class Lazy(object):
    """Value of a local variable after havoc, chosen when it is first read."""
    def __init__(self, I, shapes, v0, make):
        self.I, self.shapes, self.v0, self.make = I, shapes, v0, make
        self.done = False
        self.value = self.shape = None

    def force(self):
        if not self.done:
            i = self.I.path.choose(len(self.shapes)) if len(self.shapes) > 1 else 0
            self.done = True
            self.shape = self.shapes[i]
            self.value = unlazy(self.make(self.shape))
        return self.value


def poison(shape):
    raise Unsupported('loop body depends on what earlier passes changed')


def unlazy(v):
    return v.force() if isinstance(v, Lazy) else v


class State(dict):
    def __getitem__(self, k):
        return unlazy(dict.__getitem__(self, k))


def snapshot(frame):
    if frame is None:
        return None
    f = Frame(frame.func, snapshot(frame.parent), frame.globs, frame.depth)
    f.vars = dict(frame.vars)
    f.yields = frame.yields
    f.locals, f.nonlocals, f.globalnames, f.isgen = (
        frame.locals, frame.nonlocals, frame.globalnames, frame.isgen)
    f.start_seq = frame.start_seq
    f.site = frame.site
    return f


CACHED = type(functools.lru_cache()(len))


def is_prop(attr):
    """A property that is not redefined in Python."""
    return isinstance(attr, property) and not any(
        isinstance(c.__dict__.get(n), types.FunctionType)
        for c in type(attr).__mro__ for n in ('__get__', '__set__', '__delete__'))


def is_concrete(v, depth=0):
    if isinstance(v, (Sym, HObj, Bound, Func, SuperObj, Partial, SpecialCallable, UFunc, Chunk, MapChunk)):
        return False
    if isinstance(v, (tuple, list)) and type(v) in (tuple, list):
        return all(is_concrete(x) for x in v)
    return True


INTERP_MODULES = ('verktyg', 'props', 'props_neg', 'props_smoke', 'pyvc.vlib')
INTERP_STDLIB = {'functools'}


class Hole(object):
    """Some value that may only be passed on."""
    def _no(self, *a, **k):
        raise Unsupported('value looked at')
    __bool__ = __eq__ = __hash__ = __len__ = __iter__ = __getattr__ = __call__ = __contains__ = __getitem__ = _no
    __add__ = __radd__ = __lt__ = __le__ = __gt__ = __ge__ = __str__ = __repr__ = __format__ = _no


class ListView(object):
    """Iterator state over parts."""


class Interp(object):
    def __init__(self, ex, path):
        self.ex = ex
        self.path = path
        self.stack = []
        self.loops = []
        self.depth = 0
        self.frames = []
        self.steps = 0
        self.maps = []          # registered (root base chunk, fn)
        self.exc_stack = []
        self.probing = None         # [iterator, Hole or None] while looking at a __next__
        self.allocs = {}
        self.in_factory = 0
        self.iters = []         # position in enclosing loops that are unrolled
        self.chosen = {}        # (loop, location) -> (havocked value, its shape)
        self.storecands = {}
        self.own = []           # objects a delayed loop body may read and write
        self.elements = []
        self.cur = None
        from . import models
        self.models = models

    # ---------------------------------------------------------------- util
    def pyexc(self, cls, *args):
        args = tuple(a if is_concrete(a) else '<symbolic>' for a in args)
        return PyExc(cls(*args))

    def alloc(self, cls, kind=None, parts=None):
        o = HObj(cls, kind, parts)
        o.elem = bool(self.in_factory)
        o.seq = self.path.next_seq()
        key = (tuple(self.stack[-2:]), self.cur)
        n = self.allocs.get(key, 0)
        self.allocs[key] = n + 1
        o.site = (key, n)
        return o

    def mklist(self, parts, cls=list):
        return self.alloc(cls, 'list', list(parts))

    def fresh_read(self, o, what='store'):
        """A comprehension evaluated late must not see later writes."""
        since = self.path.lazy_since
        if since is None or o.seq > self.path.lazy_start:
            return
        if what is None:
            late = any(w > since for w in o.wseq.values())
        elif what == 'store' and any(o is x for x in self.own):
            late = False
        else:
            late = o.wseq.get(what, 0) > since
        if late:
            raise Unsupported('delayed comprehension reads an object written since')

    def note_write(self, obj, what):
        if self.probing is not None:
            raise Unsupported('write while probing')
        if obj.havoc:
            raise Unsupported('write to a havocked object')
        if obj.elem and self.loops and not self.in_factory:
            raise Unsupported('write to an element in a loop')
        if (obj.elem or obj.mapped) and not self.in_factory and not obj.wseq:
            self.settle(obj)
        if not (self.in_factory and obj.elem):
            obj.wseq[what] = self.path.next_seq()
        for ctx in self.loops:
            if obj.seq <= ctx['start']:
                ctx['writes'].add(('O', obj.site, what))
                ctx['direct'].add(('O', obj.site, what))
                ctx['objs'][obj.site] = obj

    def settle(self, obj):
        """An element is about to be changed: compute now what delayed
        comprehensions made of it."""
        for x, c in self.elements:
            made = [o for m in self.path.allmaps if id(x) in m.memo for o in m.memo[id(x)][0]]
            if id(obj) not in self.objects([x] + [o for o in made if not isinstance(o, (Chunk, MapChunk))]):
                continue
            seen = set()
            for m in list(self.path.allmaps):
                if id(m.memo) not in seen and id(x) not in m.memo and self.derived(c, m.base):
                    seen.add(id(m.memo))
                    try:
                        m.outs(x)
                    except Unsupported:
                        pass            # unsupported later, if it is needed

    def note_local(self, frame, name):
        for ctx in self.loops:
            if frame.start_seq <= ctx['start'] and (
                    (id(frame), name) in ctx['prevars'] or id(frame) not in ctx['chain']):
                ctx['writes'].add(('L', frame.site, name))
                ctx['direct'].add(('L', frame.site, name))

    # ------------------------------------------------------------ truth, eq
    def truth(self, v):
        """Concrete bool or z3 Bool."""
        if isinstance(v, Sym):
            if v.k == 'bool':
                return v.t
            if v.k == 'int':
                return v.t != 0
            if v.k == 'real':
                return v.t != 0
            if v.k in ('str', 'bytes'):
                return z3.Length(v.t) > 0
            return True
        if isinstance(v, HObj):
            for nm in ('__bool__', '__len__'):
                m = self.class_lookup(v.cls, nm)
                if m is not None and isinstance(m, types.FunctionType):
                    r = self.call(Bound(m, v), (), {})
                    return self.truth(r)
                if m is not None and nm == '__len__' and v.kind:
                    break
            if v.kind == 'set':
                ps = self.parts(v)
                if any(not isinstance(p, (Chunk, MapChunk)) for p in ps):
                    return True
                return z3.Or([p.len > 0 for p in ps]) if ps else False
            if v.kind:
                n = self.length(v)
                return (n > 0) if isinstance(n, int) else (n.t > 0)
            return True
        if isinstance(v, (Func, Bound, SuperObj, Partial, SpecialCallable, UFunc)):
            return True
        if isinstance(v, tuple):
            return len(v) > 0
        return bool(v)

    def test(self, v):
        return self.path.decide(self.truth(v))

    def eq(self, a, b, ident=False):
        """python bool or z3 Bool; structural equality of values."""
        if type(a) is Hole or type(b) is Hole:
            raise Unsupported('value looked at')
        if a is b:
            return True
        if isinstance(a, Sym) or isinstance(b, Sym):
            return self.eq_sym(a, b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return self.conj([self.eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, HObj) or isinstance(b, HObj):
            if not isinstance(a, HObj):
                a, b = b, a
            m = self.class_lookup(a.cls, '__eq__')
            if isinstance(m, types.FunctionType):
                r = self.call(Bound(m, a), (b,), {})
                if r is not NotImplemented:
                    return self.truth(r)
                return False
            if isinstance(b, HObj):
                m = self.class_lookup(b.cls, '__eq__')
                if isinstance(m, types.FunctionType):
                    r = self.call(Bound(m, b), (a,), {})
                    if r is not NotImplemented:
                        return self.truth(r)
                    return False
            if a.kind == 'list':
                if isinstance(b, HObj) and b.kind != 'list':
                    return False
                if not isinstance(b, (HObj, list, tuple)):
                    return False
                ta = tuple if issubclass(a.cls, tuple) else list
                tb = type(b) if not isinstance(b, HObj) else (tuple if issubclass(b.cls, tuple) else list)
                if not issubclass(tb, ta):
                    return False
                return self.eq_parts(self.parts(a), self.parts(b))
            if a.kind == 'dict':
                return self.eq_dict(a, b)
            if a.kind == 'set':
                return self.eq_set(a, b)
            if a.kind == 'charset' or a.cls is bytearray or isinstance(b, HObj) and b.kind == 'charset':
                raise Unsupported('eq')
            return self.identical(a, b)
        if isinstance(a, Bound) and isinstance(b, Bound):
            return a.func is b.func and a.self_ is b.self_
        if isinstance(a, (list, dict, set)) and not is_concrete(a):
            raise Unsupported('eq on native container with symbolic content')
        try:
            return bool(a == b)
        except Unsupported:
            raise
        except Exception as e:
            raise PyExc(e)

    def eq_sym(self, a, b):
        ka, kb = self.kind_of(a), self.kind_of(b)
        num = ('int', 'bool', 'real')
        if ka in num and kb in num:
            if ka == kb:
                return self.term(a) == self.term(b)
            return self.as_num(a, ka, kb) == self.as_num(b, kb, ka)
        if ka != kb or ka is None:
            return False
        if (isinstance(a, Sym) and a.t is None) or (isinstance(b, Sym) and b.t is None):
            raise Unsupported('eq')
        x, y = self.term(a), self.term(b)
        if ka in ('str', 'bytes') and (rope.is_rope(x) or rope.is_rope(y) or
                                    z3.is_string_value(x) or z3.is_string_value(y)):
            return rope.facts_term(rope.align(
                self.path.facts, self.path.facts.known(rope.flatten(x)), self.path.facts.known(rope.flatten(y))))
        return x == y

    def as_num(self, v, k, other):
        t = self.term(v)
        if k == 'bool':
            t = z3.If(t, z3.IntVal(1), z3.IntVal(0))
            k = 'int'
        if k == 'int' and other == 'real':
            t = z3.ToReal(t)
        return t

    def conj(self, cs):
        out = []
        for c in cs:
            if c is False:
                return False
            if c is True:
                continue
            out.append(c)
        if not out:
            return True
        return z3.And(*out) if len(out) > 1 else out[0]

    def neg(self, c):
        return (not c) if isinstance(c, bool) else z3.Not(c)

    def eq_parts(self, pa, pb):
        pa, pb = self.norm(pa), self.norm(pb)
        if len(pa) == len(pb) and all(self.same_part(x, y) for x, y in zip(pa, pb)):
            return self.conj([self.eq(x, y) for x, y in zip(pa, pb)
                              if not isinstance(x, (Chunk, MapChunk))])
        ca = [x for x in pa if isinstance(x, (Chunk, MapChunk))]
        cb = [x for x in pb if isinstance(x, (Chunk, MapChunk))]
        if not ca and not cb:
            if len(pa) != len(pb):
                return False
            return self.conj([self.eq(x, y) for x, y in zip(pa, pb)])
        raise Unsupported('equality of lists of unknown length')

    def same_part(self, x, y):
        cx, cy = isinstance(x, (Chunk, MapChunk)), isinstance(y, (Chunk, MapChunk))
        if cx != cy:
            return False
        if not cx:
            return True
        if x is y:
            return True
        return isinstance(x, MapChunk) and isinstance(y, MapChunk) and x.base is y.base and x.memo is y.memo

    def eq_dict(self, a, b):
        if isinstance(b, dict):
            b = self.lift(b)
        if not isinstance(b, HObj) or b.kind != 'dict':
            return False
        pa, pb = self.norm(a.parts), self.norm(b.parts)
        ca = [p for p in pa if not isinstance(p, Entry)]
        cb = [p for p in pb if not isinstance(p, Entry)]
        if ca or cb:
            if ca != cb:
                raise Unsupported('dict equality')
        ea = [p for p in pa if isinstance(p, Entry)]
        eb = [p for p in pb if isinstance(p, Entry)]
        if len(ea) != len(eb):
            return False
        for e in ea:
            for f in eb:
                if self.path.decide(self.eq(e.key, f.key)):
                    if not self.path.decide(self.eq(e.value, f.value)):
                        return False
                    break
            else:
                return False
        return True

    def eq_set(self, a, b):
        if isinstance(b, (set, frozenset)):
            b = self.lift(b)
        if not isinstance(b, HObj) or b.kind != 'set':
            return False
        pa, pb = self.norm(a.parts), self.norm(b.parts)
        if pa == pb:
            return True
        if any(isinstance(p, (Chunk, MapChunk)) for p in pa + pb):
            raise Unsupported('set equality')
        if len(pa) != len(pb):
            return False
        for x in pa:
            if not self.path.decide(self.disj([self.eq(x, y) for y in pb])):
                return False
        return True

    def disj(self, cs):
        out = []
        for c in cs:
            if c is True:
                return True
            if c is False:
                continue
            out.append(c)
        if not out:
            return False
        return z3.Or(*out) if len(out) > 1 else out[0]

    def identical(self, a, b):
        if a is b:
            return True
        if isinstance(a, Sym) and isinstance(b, Sym):
            if a.k == b.k == 'tok':
                return a.t == b.t
            if a.k == b.k == 'bool':
                return a.t == b.t
            if a.k != b.k:
                return False
            if a.t.eq(b.t):
                return True
            raise Unsupported('identity of symbolic scalars')
        if isinstance(a, Sym) or isinstance(b, Sym):
            s, o = (a, b) if isinstance(a, Sym) else (b, a)
            if s.k == 'bool' and isinstance(o, bool):
                return s.t if o else z3.Not(s.t)
            if o is None or isinstance(o, (HObj, type)) or not isinstance(o, (int, str, bytes, float)):
                return False
            if self.kind_of(o) != s.k:
                return False
            raise Unsupported('identity of symbolic scalar and constant')
        if isinstance(a, (HObj,)) or isinstance(b, HObj):
            if isinstance(a, HObj) and isinstance(b, HObj) and a.cls is b.cls and (a.havoc or b.havoc):
                raise Unsupported('identity of a havocked object')
            return False
        if isinstance(a, Bound) or isinstance(b, Bound):
            return False
        if isinstance(a, Func) and isinstance(b, Func):
            return a is b
        if isinstance(a, Func) and a.native is not None and a.native is b:
            return True
        if isinstance(b, Func) and b.native is not None and b.native is a:
            return True
        return a is b

    # ------------------------------------------------------------- kinds
    def kind_of(self, v):
        if isinstance(v, Sym):
            return v.k
        if isinstance(v, bool):
            return 'bool'
        if isinstance(v, int):
            return 'int'
        if isinstance(v, float):
            return 'real'
        if isinstance(v, str):
            return 'str'
        if isinstance(v, (bytes, bytearray)):
            return 'bytes'
        return None

    def term(self, v):
        if isinstance(v, Sym):
            return v.t
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if isinstance(v, int):
            return z3.IntVal(int(v))
        if isinstance(v, float):
            if v != v or v in (float('inf'), float('-inf')):
                raise Unsupported('non-finite float')
            n, d = v.as_integer_ratio()
            return z3.RealVal(n) / z3.RealVal(d) if d != 1 else z3.RealVal(n)
        if isinstance(v, (str, bytes, bytearray)):
            return zstr(v)
        raise Unsupported('no term for %r' % (v,))

    def mk(self, term, kind):
        """Wrap a z3 term, folding constants back to Python values."""
        if isinstance(term, (bool, int, str, bytes)) and not z3.is_expr(term):
            return term
        t = z3.simplify(term)
        if kind == 'bool':
            if z3.is_true(t):
                return True
            if z3.is_false(t):
                return False
        elif kind == 'int' and z3.is_int_value(t):
            return t.as_long()
        elif kind in ('str', 'bytes') and z3.is_string_value(t):
            from .core import unescape
            s = unescape(t.as_string())
            return s if kind == 'str' else s.encode('latin1')
        return Sym(t, kind)

    def pytype(self, v):
        if type(v) is Hole:
            raise Unsupported('value looked at')
        if isinstance(v, Sym):
            if v.k == 'tok':
                return v.pytype or vlib.Tok
            return v.pytype
        if isinstance(v, HObj):
            return v.cls
        if isinstance(v, (Func,)):
            return types.FunctionType
        if isinstance(v, Bound):
            return types.MethodType
        if isinstance(v, (Partial,)):
            return functools.partial
        if isinstance(v, (SpecialCallable, UFunc)):
            return types.BuiltinFunctionType
        return type(v)

    def isinstance_(self, v, t):
        if isinstance(t, tuple):
            return any(self.isinstance_(v, x) for x in t)
        if isinstance(t, HObj):
            raise Unsupported('isinstance with symbolic class')
        return issubclass(self.pytype(v), t)

    # ------------------------------------------------------------- parts
    def norm(self, parts):
        out = []
        for p in parts:
            if isinstance(p, Chunk):
                if p.split is not None:
                    out.extend(self.norm(p.split))
                else:
                    out.append(p)
            elif isinstance(p, MapChunk):
                if isinstance(p.base, MapChunk):
                    raise Unsupported('nested map chunk')
                if p.base.split is not None:
                    for q in self.norm(p.base.split):
                        if isinstance(q, Chunk):
                            out.append(self.submap(p, q))
                        else:
                            out.extend(p.outs(q))
                else:
                    out.append(p)
            else:
                out.append(p)
        return out

    def submap(self, p, base):
        cache = p.memo.setdefault('sub', {})
        if base not in cache:
            cache[base] = MapChunk(self.path, base, p.fn, p.memo, p.label, p.total, p.keyed)
        return cache[base]

    def parts(self, o):
        """Normalised parts of an iterable container value."""
        if isinstance(o, HObj) and self.path.lazy_since is not None:
            self.fresh_read(o)
        if isinstance(o, HObj) and o.kind == 'list':
            if o.extra is not None:
                if 'ahead' in o.extra:
                    raise Unsupported('iterator read through another one')
                if 'thunk' in o.extra:
                    self.force(o)
            o.parts = self.norm(o.parts)
            return o.parts
        if isinstance(o, HObj) and o.kind == 'set':
            o.parts = self.norm(o.parts)
            return o.parts
        if isinstance(o, (tuple, list)):
            return list(o)
        if isinstance(o, (set, frozenset)):
            return sorted(o, key=repr)
        raise Unsupported('parts of %r' % (o,))

    def force(self, gen, strict=False):
        """Run a generator body to the end.  With `strict` (the consumer has
        effects of its own between elements) only effect-free bodies are
        accepted, because evaluation order would matter."""
        thunk = gen.extra.pop('thunk')
        ctx = self.context()
        self.loops.append(ctx)
        try:
            gen.parts = thunk()
        except PyExc:
            if strict and gen.extra.get('yielded', lambda: True)():
                raise Unsupported('generator that raises after yielding')
            raise
        finally:
            self.loops.remove(ctx)
        if strict and ctx['writes']:
            for w in ctx['writes']:
                o = ctx['objs'].get(w[1]) if w[0] == 'O' and w[2] == 'store' else None
                if o is None or o.kind != 'list' or not (
                        o.cls is types.GeneratorType or o.extra is not None and 'iter' in o.extra):
                    raise Unsupported('generator with effects')
            # it only drew from other iterators: these are not to be looked at any more
            for w in ctx['writes']:
                o = ctx['objs'][w[1]]
                o.extra = dict(o.extra or {}, ahead=True)

    def element(self, c):
        self.in_factory += 1
        try:
            return c.factory()
        finally:
            self.in_factory -= 1

    def split(self, c):
        """Split chunk c around one arbitrary element: returns D, x, R."""
        if isinstance(c, MapChunk):
            raise Unsupported('split of map chunk')
        assert c.split is None
        D = Chunk(self.path, c.factory, c.facts, c.label)
        x = self.element(c)
        R = Chunk(self.path, c.factory, c.facts, c.label)
        c.split = [D, x, R]
        self.elements.append((x, c))
        self.path.assume(c.len == D.len + 1 + R.len)
        for f in c.facts:
            f(x)
        if c.group is not None:
            D.group = R.group = c.group
            c.group.live[:] = [q for q in c.group.live if q is not c] + [D, R]
            k = c.group.keyof(x)
            for q in c.group.live:
                self.mark_absent(q, k)
        return D, x, R

    def add_fact(self, parts, fact):
        for p in self.norm(parts):
            if isinstance(p, Chunk):
                p.facts.append(fact)
            elif isinstance(p, MapChunk):
                mp = p

                def basefact(x, mp=mp):
                    for o in mp.outs(x):
                        fact(o)
                mp.base.facts.append(basefact)
            else:
                fact(p)

    def length(self, o):
        if isinstance(o, HObj) and o.kind:
            ps = self.norm(o.parts) if o.kind == 'dict' else self.parts(o)
            n = 0
            t = None
            for p in ps:
                if isinstance(p, (Chunk, MapChunk)):
                    if o.kind == 'set' and not (isinstance(p, MapChunk) and p.keyed):
                        raise Unsupported('size of a set of unknown elements')
                    t = p.len if t is None else t + p.len
                else:
                    n += 1
            return n if t is None else Sym(t + n, 'int')
        raise Unsupported('length')

    # lists --------------------------------------------------------------
    def front(self, o):
        """Make the first element of list o explicit; returns True if there is one."""
        while True:
            ps = self.parts(o)
            if not ps:
                return False
            if not isinstance(ps[0], (Chunk, MapChunk)):
                return True
            c = ps[0]
            if isinstance(c, MapChunk):
                if not c.total:
                    raise Unsupported('front of map chunk')
                c = c.base
            if self.path.decide(c.len > 0):
                D, x, R = self.split(c)
                self.path.assume(D.len == 0)
                D.split = []
            else:
                c.split = []

    def back(self, o):
        while True:
            ps = self.parts(o)
            if not ps:
                return False
            if not isinstance(ps[-1], (Chunk, MapChunk)):
                return True
            c = ps[-1]
            if isinstance(c, MapChunk):
                if not c.total:
                    raise Unsupported('back of map chunk')
                c = c.base
            if self.path.decide(c.len > 0):
                D, x, R = self.split(c)
                self.path.assume(R.len == 0)
                R.split = []
            else:
                c.split = []

    def list_index(self, o, i):
        """Position in parts of element i (explicit)."""
        if isinstance(i, Sym):
            ps = self.parts(o)
            if any(isinstance(p, (Chunk, MapChunk)) for p in ps):
                raise Unsupported('symbolic index into unknown list')
            for j in range(len(ps)):
                if self.path.decide(z3.Or(i.t == j, i.t == j - len(ps))):
                    return j
            raise self.pyexc(IndexError, 'list index out of range')
        i = int(i)
        ps = self.parts(o)
        if not any(isinstance(p, (Chunk, MapChunk)) for p in ps):
            if not -len(ps) <= i < len(ps):
                raise self.pyexc(IndexError, 'list index out of range')
            return i % len(ps) if ps else 0
        if i == 0:
            if not self.front(o):
                raise self.pyexc(IndexError, 'list index out of range')
            return 0
        if i == -1:
            if not self.back(o):
                raise self.pyexc(IndexError, 'list index out of range')
            return len(self.parts(o)) - 1
        if i > 0:
            k = 0
            ps = self.parts(o)
            while k <= i:
                tmp = HObj(list, 'list', ps[k:])
                if not self.front(tmp):
                    raise self.pyexc(IndexError, 'list index out of range')
                ps = self.parts(o)
                k += 1
            return i
        raise Unsupported('negative index into unknown list')

    # existence ------------------------------------------------------------
    def find_in(self, o, pred, mode='first'):
        """Fork on whether some element of container o satisfies pred (an
        engine-level function value -> python bool via decide).  Returns
        (index in parts) of the first one or None."""
        i = 0
        while True:
            ps = self.parts(o)
            if i >= len(ps):
                return None
            p = ps[i]
            if isinstance(p, Chunk):
                ch = self.path.choose(2)
                if ch == 0:
                    # not in this chunk
                    p.facts.append(lambda x: self.require_not(pred, x))
                    i += 1
                else:
                    D, x, R = self.split(p)
                    D.facts.append(lambda y: self.require_not(pred, y))
                    if not pred(x):
                        raise PathEnd()
                    self.path.prune()
                    ps = self.parts(o)
                    return next(j for j, q in enumerate(ps) if q is x)
            elif isinstance(p, MapChunk):
                ch = self.path.choose(2)
                if ch == 0:
                    mp = p

                    def none(x, mp=mp):
                        for y in mp.outs(x):
                            self.require_not(pred, y)
                    p.base.facts.append(none)
                    i += 1
                else:
                    mp = p
                    D, x, R = self.split(p.base)

                    def none(x, mp=mp):
                        for y in mp.outs(x):
                            self.require_not(pred, y)
                    D.facts.append(none)
                    outs = mp.outs(x)
                    hit = None
                    for y in outs:
                        if pred(y):
                            hit = y
                            break
                    if hit is None:
                        raise PathEnd()
                    self.path.prune()
                    ps = self.parts(o)
                    k = [j for j, q in enumerate(ps) if q is self.submap(mp, D) or (isinstance(q, MapChunk) and q.base is D)]
                    base = k[0] + 1 if k else i
                    return base + [id(q) for q in outs].index(id(hit))
            else:
                if pred(p):
                    return i
                i += 1

    def require_not(self, pred, x):
        if pred(x):
            raise PathEnd()

    # dicts ----------------------------------------------------------------
    def dict_find(self, o, key):
        """Entry for key in dict object o, or None (forks)."""
        self.check_hashable(key)
        self.fresh_read(o)
        o.parts = self.norm(o.parts)
        for e in [p for p in o.parts if isinstance(p, Entry)]:
            if self.path.decide(self.eq(e.key, key)):
                return e
        if any(isinstance(p, MapChunk) and not p.keyed for p in o.parts):
            raise Unsupported('dict of map chunk')
        chunks = [p for p in o.parts if isinstance(p, (Chunk, MapChunk))]
        chunks = [c for c in chunks
                  if not any(self.eq(k, key) is True for k in c_absent(base_of(c)))]
        if not chunks:
            return None
        ch = self.path.choose(len(chunks) + 1)
        if ch == 0:
            for c in chunks:
                self.mark_absent(base_of(c), key)
            return None
        c = chunks[ch - 1]
        D, e, R = self.split(base_of(c))
        if isinstance(c, MapChunk):
            e, = c.outs(e)
        self.path.assume(self.eq(e.key, key))
        for q in self.norm(o.parts):
            if isinstance(q, (Chunk, MapChunk)):
                self.mark_absent(base_of(q), e.key)
                self.mark_absent(base_of(q), key)
            elif isinstance(q, Entry) and q is not e:
                self.path.assume(self.neg(self.eq(q.key, e.key)))
        o.parts = self.norm(o.parts)
        self.path.prune()
        return e

    def mark_absent(self, c, key):
        def fact(e, key=key):
            k = c.group.keyof(e)
            self.path.assume(self.neg(self.eq(k, key)))
        fact.absent = key
        c.facts.append(fact)

    def check_hashable(self, key):
        if isinstance(key, HObj):
            if key.kind and self.class_lookup(key.cls, '__hash__') is None:
                raise self.pyexc(TypeError, 'unhashable type')
            if key.kind in ('list', 'dict', 'set') and key.cls in (list, dict, set):
                raise self.pyexc(TypeError, 'unhashable type')
        elif isinstance(key, (list, dict, set)):
            raise self.pyexc(TypeError, 'unhashable type')

    def dict_set(self, o, key, value):
        e = self.dict_find(o, key)
        self.note_write(o, 'store')
        if e is not None:
            i = next(j for j, q in enumerate(o.parts) if q is e)
            o.parts = o.parts[:i] + [Entry(e.key, value)] + o.parts[i + 1:]
        else:
            o.parts = self.norm(o.parts) + [Entry(key, value)]

    def dict_del(self, o, key):
        e = self.dict_find(o, key)
        if e is None:
            return None
        self.note_write(o, 'store')
        o.parts = [q for q in self.norm(o.parts) if q is not e]
        return e

    # sets -------------------------------------------------------------------
    def set_find(self, o, key):
        self.check_hashable(key)
        ps = self.parts(o)
        for p in ps:
            if not isinstance(p, (Chunk, MapChunk)):
                if self.path.decide(self.eq(p, key)):
                    return p
        chunks = [p for p in self.parts(o) if isinstance(p, (Chunk, MapChunk))]
        if not self.keyed_set(o):
            # elements may be repeated in this representation
            i = self.find_in(o, lambda x: self.path.decide(self.eq(x, key)))
            return None if i is None else self.parts(o)[i]

        def absent(c, key):
            def fact(x):
                for y in c.outs(x):
                    self.path.assume(self.neg(self.eq(y, key)))
            fact.notin = (c.memo, key)
            c.base.facts.append(fact)
        chunks = [c for c in chunks
                  if not any(f.notin[0] is c.memo and self.eq(f.notin[1], key) is True
                             for f in c.base.facts if hasattr(f, 'notin'))]
        if not chunks:
            return None
        ch = self.path.choose(len(chunks) + 1)
        if ch == 0:
            for c in chunks:
                absent(c, key)
            return None
        c = chunks[ch - 1]
        D, x, R = self.split(c.base)
        e, = c.outs(x)
        self.path.assume(self.eq(e, key))
        for q in self.parts(o):
            if isinstance(q, MapChunk):
                absent(q, e)
                absent(q, key)
            elif q is not e:
                self.path.assume(self.neg(self.eq(q, e)))
        self.path.prune()
        return e

    def keyed_set(self, o):
        return all(p.keyed if isinstance(p, MapChunk) else not isinstance(p, Chunk) for p in self.parts(o))

    def set_add(self, o, key):
        if self.set_find(o, key) is None:
            self.note_write(o, 'store')
            o.parts = self.parts(o) + [key]

    # native -> engine ---------------------------------------------------------
    def lift(self, v):
        """Native container to an engine container (fresh copy)."""
        if isinstance(v, HObj):
            return v
        if type(v) is list:
            return self.mklist(list(v))
        if type(v) is dict:
            return self.alloc(dict, 'dict', [Entry(k, x) for k, x in v.items()])
        if type(v) in (set, frozenset):
            return self.alloc(type(v), 'set', sorted(v, key=repr))
        if isinstance(v, dict) and not getattr(v, '__dict__', None) and all(
                getattr(type(v), m) is getattr(dict, m) for m in ('__iter__', '__getitem__', 'items', 'keys')):
            return self.alloc(type(v), 'dict', [Entry(k, x) for k, x in dict.items(v)])
        raise Unsupported('lift %r' % (type(v),))

    def lower(self, v):
        """Engine value to native, or raise Unsupported if symbolic."""
        if type(v) is Hole:
            raise Unsupported('value looked at')
        if isinstance(v, tuple):
            return tuple(self.lower(x) for x in v)
        if isinstance(v, HObj):
            if v.cls is list and v.kind == 'list':
                ps = self.parts(v)
                if any(isinstance(p, (Chunk, MapChunk)) for p in ps):
                    raise Unsupported('symbolic list passed to native code')
                return [self.lower(p) for p in ps]
            if v.cls is dict:
                ps = self.norm(v.parts)
                if any(isinstance(p, (Chunk, MapChunk)) for p in ps):
                    raise Unsupported('symbolic dict passed to native code')
                return {self.lower(e.key): self.lower(e.value) for e in ps}
            if v.cls in (set, frozenset):
                ps = self.parts(v)
                if any(isinstance(p, (Chunk, MapChunk)) for p in ps):
                    raise Unsupported('symbolic set passed to native code')
                return v.cls(self.lower(p) for p in ps)
            raise Unsupported('object of %s passed to native code' % v.cls.__name__)
        if isinstance(v, Func) and v.native is not None:
            return v.native
        if isinstance(v, Bound) and isinstance(v.func, types.FunctionType) and is_concrete(v.self_):
            return types.MethodType(v.func, v.self_)
        if isinstance(v, (Sym, Func, Bound, Partial, SpecialCallable, UFunc, SuperObj)):
            raise Unsupported('symbolic value passed to native code: %r' % (v,))
        return v

    # ------------------------------------------------------------ attributes
    def class_lookup(self, cls, name, after=None):
        mro = cls.__mro__
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            if name in c.__dict__:
                return c.__dict__[name]
        return None

    def bind(self, attr, obj, cls):
        """Apply the descriptor protocol of a class attribute."""
        if isinstance(attr, types.FunctionType):
            return Bound(attr, obj) if obj is not None else attr
        if is_prop(attr):
            if obj is None:
                return attr
            return self.call(attr.fget, (obj,), {})
        if isinstance(attr, staticmethod):
            return attr.__func__
        if isinstance(attr, classmethod):
            return Bound(attr.__func__, cls)
        if isinstance(attr, (types.WrapperDescriptorType, types.MethodDescriptorType,
                             types.BuiltinFunctionType, types.ClassMethodDescriptorType)):
            return Bound(attr, obj) if obj is not None else attr
        g = self.class_lookup(type(attr), '__get__')
        if isinstance(g, types.FunctionType):
            return self.call(g, (attr, obj, cls), {})
        if isinstance(attr, (types.MemberDescriptorType, types.GetSetDescriptorType)):
            if isinstance(obj, HObj) and attr.__name__ in obj.attrs:
                return obj.attrs[attr.__name__]
            if isinstance(obj, HObj) and issubclass(obj.cls, BaseException):
                if attr.__name__ in ('__cause__', '__context__'):
                    return None
                raise Unsupported(attr.__name__)
            raise self.pyexc(AttributeError, attr.__name__)
        return attr

    def getattr(self, o, name, default=_missing):
        try:
            return self.getattr_(o, name)
        except PyExc as e:
            if default is not _missing and issubclass(e.cls, AttributeError):
                return default
            raise

    def getattr_(self, o, name):
        if isinstance(o, HObj):
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                self.fresh_read(o, None)
                d = self.alloc(dict, 'dict', [Entry(k, v) for k, v in o.attrs.items()])
                d.extra = {'attrs_of': o}
                return d
            attr = _missing
            for c in o.cls.__mro__:
                if name in c.__dict__:
                    attr = c.__dict__[name]
                    break
            if attr is not _missing:
                ta = type(attr)
                if isinstance(attr, (property, types.MemberDescriptorType)) or (
                        self.class_lookup(ta, '__set__') is not None and
                        self.class_lookup(ta, '__get__') is not None and
                        not isinstance(attr, types.FunctionType)):
                    return self.bind(attr, o, o.cls)
            if name in o.attrs:
                self.fresh_read(o, name)
                return o.attrs[name]
            if attr is not _missing:
                return self.bind(attr, o, o.cls)
            ga = self.class_lookup(o.cls, '__getattr__')
            if isinstance(ga, types.FunctionType):
                return self.call(ga, (o, name), {})
            raise self.pyexc(AttributeError, "%r object has no attribute %r" % (o.cls.__name__, name))
        if isinstance(o, SuperObj):
            cls = self.pytype(o.obj) if not isinstance(o.obj, type) else o.obj
            attr = self.class_lookup(cls, name, after=o.cls)
            if attr is None:
                raise self.pyexc(AttributeError, name)
            if isinstance(o.obj, type):
                return self.bind(attr, None, cls)
            return self.bind(attr, o.obj, cls)
        if isinstance(o, Sym):
            if o.k == 'tok':
                raise self.pyexc(AttributeError, name)
            if not hasattr(o.pytype, name):
                raise self.pyexc(AttributeError, name)
            if name == '__class__':
                return o.pytype
            return Bound(getattr(o.pytype, name), o)
        if isinstance(o, Func):
            if name in ('__name__', '__qualname__'):
                return o.name.split('.')[-1]
            if name == '__call__':
                return o
            if o.native is not None:
                try:
                    return getattr(o.native, name)
                except AttributeError as e:
                    raise PyExc(e)
            if name == '__doc__':
                return None
            raise self.pyexc(AttributeError, name)
        if isinstance(o, Bound):
            if name == '__self__':
                return o.self_
            if name == '__func__':
                return o.func
            if name == '__name__':
                return getattr(o.func, '__name__', None) or getattr(o.func, 'name', None)
            raise self.pyexc(AttributeError, name)
        if isinstance(o, (Partial, SpecialCallable, UFunc)):
            if isinstance(o, Partial) and name in ('func', 'args', 'keywords'):
                return {'func': o.func, 'args': o.args, 'keywords': o.kwargs}[name]
            raise self.pyexc(AttributeError, name)
        if getattr(type(o), '_pyvc_gen', False):
            if name == 'native':
                return False
            return SpecialCallable(getattr(o, name), name)
        # native object
        if isinstance(o, type):
            if name == 'mro':
                return SpecialCallable(lambda: self.mklist(list(o.__mro__)), 'mro')
            for c in o.__mro__:
                if name in c.__dict__:
                    attr = c.__dict__[name]
                    if isinstance(attr, (types.FunctionType, staticmethod, classmethod, property)):
                        return self.bind(attr, None, o)
                    break
            try:
                return getattr(o, name)
            except AttributeError as e:
                raise PyExc(e)
        if isinstance(o, types.ModuleType):
            try:
                return getattr(o, name)
            except AttributeError as e:
                raise PyExc(e)
        # instance of an interpretable class: keep methods bound to the native object
        if type(o).__module__.split('.')[0] in INTERP_MODULES and not isinstance(o, type):
            attr = self.class_lookup(type(o), name)
            if isinstance(attr, types.FunctionType) and name not in getattr(o, '__dict__', {}):
                return Bound(attr, o)
            if is_prop(attr):
                return self.call(attr.fget, (o,), {})
        if isinstance(o, tuple) and not is_concrete(o):
            if not hasattr(o, name):
                raise self.pyexc(AttributeError, name)
            return Bound(getattr(tuple, name), o)
        try:
            v = getattr(o, name)
        except AttributeError as e:
            raise PyExc(e)
        except Exception as e:
            raise PyExc(e)
        if isinstance(v, (types.BuiltinMethodType, types.MethodWrapperType)) and \
                getattr(v, '__self__', None) is o and not isinstance(o, types.ModuleType):
            d = self.class_lookup(type(o), name)
            if d is not None and not isinstance(d, (classmethod, staticmethod, types.ClassMethodDescriptorType)):
                return Bound(d, o)
        return v

    def setattr(self, o, name, value):
        if isinstance(o, HObj):
            attr = self.class_lookup(o.cls, name)
            if is_prop(attr):
                if attr.fset is None:
                    raise self.pyexc(AttributeError, "can't set attribute")
                self.call(attr.fset, (o, value), {})
                return
            if attr is not None:
                s = self.class_lookup(type(attr), '__set__')
                if isinstance(s, types.FunctionType):
                    self.call(s, (attr, o, value), {})
                    return
            sa = self.class_lookup(o.cls, '__setattr__')
            if isinstance(sa, types.FunctionType):
                self.call(sa, (o, name, value), {})
                return
            self.note_write(o, name)
            o.attrs[name] = value
            return
        raise Unsupported('attribute assignment on %r' % (type(o),))

    def delattr(self, o, name):
        if isinstance(o, HObj):
            attr = self.class_lookup(o.cls, name)
            if is_prop(attr):
                if attr.fdel is None:
                    raise self.pyexc(AttributeError, "can't delete attribute")
                self.call(attr.fdel, (o,), {})
                return
            if attr is not None:
                s = self.class_lookup(type(attr), '__delete__')
                if isinstance(s, types.FunctionType):
                    self.call(s, (attr, o), {})
                    return
            if name in o.attrs:
                self.note_write(o, name)
                del o.attrs[name]
                return
            raise self.pyexc(AttributeError, name)
        raise Unsupported('del attribute on %r' % (type(o),))

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kwargs):
        self.steps += 1
        if self.steps > self.ex.max_steps:
            raise Unsupported('step limit')
        args = tuple(args)
        if isinstance(f, Bound):
            return self.call(f.func, (f.self_,) + args, kwargs)
        if isinstance(f, Partial):
            kw = dict(f.kwargs)
            kw.update(kwargs)
            return self.call(f.func, f.args + args, kw)
        if isinstance(f, SpecialCallable):
            return f.fn(*args, **kwargs)
        if isinstance(f, UFunc):
            return self.call_ufunc(f, args)
        if isinstance(f, Func):
            return self.call_func(f, args, kwargs)
        if isinstance(f, HObj):
            m = self.class_lookup(f.cls, '__call__')
            if m is None:
                raise self.pyexc(TypeError, 'not callable')
            return self.call(m, (f,) + args, kwargs)
        if isinstance(f, Sym):
            raise self.pyexc(TypeError, 'not callable')
        if isinstance(f, types.MethodType):
            return self.call(f.__func__, (f.__self__,) + args, kwargs)
        m = self.find_model(f)
        if m is not None:
            return m(self, *args, **kwargs)
        if isinstance(f, type):
            contract = self.ex.contracts.get(f) if f.__module__ not in INTERP_MODULES else None
            if contract is not None and contract.spec is not None:
                self.ex.used_contracts.add(contract)
                return self.call_func(to_func(contract.spec), args, kwargs)
            return self.instantiate(f, args, kwargs)
        if isinstance(f, (types.FunctionType, CACHED)):
            contract = self.ex.contracts.get(f)
            if contract is not None and f not in self.ex.verifying:
                self.ex.used_contracts.add(contract)
                if contract.spec is None:
                    return self.call_opaque(f, contract, args, kwargs)
                return self.call_func(to_func(contract.spec), args, kwargs)
            mod = (f.__module__ or '')
            if any(mod == m or mod.startswith(m + '.') for m in INTERP_MODULES) or mod in INTERP_STDLIB:
                return self.call_func(to_func(f), args, kwargs)
        if not callable(f):
            raise self.pyexc(TypeError, '%r object is not callable' % type(f).__name__)
        c = self.class_lookup(type(f), '__call__')
        if isinstance(c, types.FunctionType) and any(
                c.__module__ == m or c.__module__.startswith(m + '.') for m in INTERP_MODULES):
            return self.call(c, (f,) + args, kwargs)
        return self.call_native(f, args, kwargs)

    def find_model(self, f):
        try:
            m = self.ex.models.get(f)
            if m is not None:
                return m
            return self.models.MODELS.get(f)
        except TypeError:
            return None

    def call_native(self, f, args, kwargs):
        name = getattr(f, '__qualname__', None) or repr(f)
        mod = getattr(f, '__module__', None)
        if mod in ('os', 'posix', 'subprocess', 'shutil', 'socket', 'sys', 'time', 'random', 'threading',
                   '_thread', 'inspect') or name in ('open', 'exec', 'eval'):
            raise Unsupported('system call %s' % name)
        a = tuple(self.lower(x) for x in args)
        k = {n: self.lower(x) for n, x in kwargs.items()}
        # functions receiving containers could mutate them: only allow reads
        try:
            r = f(*a, **k)
        except Exception as e:
            raise PyExc(e)
        if self.mutates(f, args):
            raise Unsupported('native mutation through %s' % name)
        return self.wrap_native(r)

    def mutates(self, f, args):
        for x in args:
            if isinstance(x, HObj) and x.kind and isinstance(
                    f, (types.MethodDescriptorType, types.WrapperDescriptorType)):
                return True
        return False

    def wrap_native(self, r):
        if type(r) in (list, dict, set):
            return self.lift_deep(r)
        if isinstance(r, types.GeneratorType):
            return self.mklist(list(r))
        return r

    def lift_deep(self, r):
        if type(r) is list:
            return self.mklist([self.lift_deep(x) for x in r])
        if type(r) is dict:
            return self.alloc(dict, 'dict', [Entry(k, self.lift_deep(x)) for k, x in r.items()])
        if type(r) is set:
            return self.alloc(set, 'set', sorted(r, key=repr))
        return r

    def call_opaque(self, f, c, args, kwargs):
        if kwargs or len(args) != len(c.argkinds):
            raise Unsupported('arguments of opaque %s' % c.target)
        decl = z3.Function('opaque!' + c.target, *([SORTS[k] for k in c.argkinds] + [SORTS[c.reskind]]))
        if all(is_concrete(a) for a in args):
            r = self.call_native(f, args, kwargs)
            if is_concrete(r) and self.kind_of(r) == c.reskind and \
                    all(self.kind_of(a) == k for a, k in zip(args, c.argkinds)):
                self.path.assume(decl(*[self.term(a) for a in args]) == self.term(r))
            return r
        ts = []
        for a, k in zip(args, c.argkinds):
            if self.kind_of(a) != k:
                raise Unsupported('argument kind of opaque %s' % c.target)
            ts.append(self.term(a))
        self.path.inexact.append('opaque %s' % c.target)
        return Sym(decl(*ts), c.reskind)

    def call_ufunc(self, f, args):
        if len(args) != len(f.argkinds):
            raise self.pyexc(TypeError, 'arity')
        ts = []
        for a, k in zip(args, f.argkinds):
            if self.kind_of(a) != k:
                raise Unsupported('argument kind of unknown function %s' % f.name)
            ts.append(self.term(a))
        return Sym(f.decl(*ts), f.reskind)

    def instantiate(self, cls, args, kwargs):
        mod = cls.__module__.split('.')[0]
        interp = mod in ('verktyg', 'props', 'pyvc') or mod.startswith('props_')
        meta_call = self.class_lookup(type(cls), '__call__')
        if isinstance(meta_call, types.FunctionType):
            raise Unsupported('metaclass __call__')
        if not interp and not issubclass(cls, BaseException):
            return self.call_native(cls, args, kwargs)
        new = self.class_lookup(cls, '__new__')
        if isinstance(new, (staticmethod, types.FunctionType)):
            fn = new.__func__ if isinstance(new, staticmethod) else new
            if isinstance(fn, types.FunctionType):
                o = self.call(fn, (cls,) + args, kwargs)
            else:
                o = self.new_object(cls, args)
        else:
            o = self.new_object(cls, args)
        if not isinstance(o, HObj):
            return o
        init = self.class_lookup(cls, '__init__')
        if isinstance(init, types.FunctionType):
            self.call(init, (o,) + args, kwargs)
        elif issubclass(cls, BaseException):
            o.attrs['args'] = tuple(args)
        elif o.kind:
            self.call(init, (o,) + args, kwargs)
        elif (args or kwargs) and not isinstance(new, (staticmethod, types.FunctionType)):
            raise self.pyexc(TypeError, '%s() takes no arguments' % cls.__name__)
        return o

    def new_object(self, cls, args=()):
        kind = None
        if issubclass(cls, dict):
            kind = 'dict'
        elif issubclass(cls, (set, frozenset)):
            kind = 'set'
        elif issubclass(cls, (list, tuple)):
            kind = 'list'
        elif issubclass(cls, (str, bytes, int, float)):
            raise Unsupported('subclass of %s' % cls.__name__)
        o = self.alloc(cls, kind, [] if kind else None)
        if issubclass(cls, BaseException):
            o.attrs['args'] = tuple(args)
        return o

    def call_func(self, f, args, kwargs):
        if self.depth > 80:
            raise Unsupported('recursion limit')
        frame = Frame(f, f.parent, f.globs, self.depth + 1)
        key = ('frame', tuple(self.stack[-2:]), self.cur, f.name)
        n = self.allocs.get(key, 0)
        self.allocs[key] = n + 1
        frame.site = (key, n)
        frame.locals, frame.nonlocals, frame.globalnames, frame.isgen = scope_info(f.node)
        frame.start_seq = self.path.next_seq()
        self.bind_args(f, frame, args, kwargs)
        self.ex.functions_seen.add((f.globs.get('__name__'), f.name)) if f.native is not None else None
        if frame.isgen:
            gen = self.mklist([], types.GeneratorType)
            gen.extra = {'thunk': lambda: self.run_gen(f, frame, gen),
                         'yielded': lambda: bool(frame.yields and frame.yields.parts)}
            return gen
        return self.run_body(f, frame)

    def run_gen(self, f, frame, gen):
        frame.yields = self.mklist([])
        frame.start_seq = self.path.next_seq()
        self.run_body(f, frame)
        return self.parts(frame.yields)

    def run_body(self, f, frame):
        self.depth += 1
        frame.depth = self.depth
        self.frames.append(frame)
        self.stack.append((f.name, getattr(self.cur, 'lineno', 0) if False else self.cur))
        saved = self.cur
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, frame)
            self.exec_block(f.node.body, frame)
            return None
        except Return as r:
            return r.value
        finally:
            self.cur = saved
            self.stack.pop()
            self.frames.pop()
            self.depth -= 1

    def bind_args(self, f, frame, args, kwargs):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vars_ = frame.vars
        args = list(args)
        kwargs = dict(kwargs)
        for i, n in enumerate(names):
            if i < len(args):
                vars_[n] = args[i]
                if n in kwargs and n not in [x.arg for x in a.posonlyargs]:
                    raise self.pyexc(TypeError, 'multiple values for argument %r' % n)
            elif n in kwargs:
                vars_[n] = kwargs.pop(n)
            else:
                di = i - (len(names) - len(f.defaults))
                if di >= 0:
                    vars_[n] = f.defaults[di]
                else:
                    raise self.pyexc(TypeError, '%s() missing argument %r' % (f.name, n))
        extra = args[len(names):]
        if a.vararg:
            vars_[a.vararg.arg] = tuple(extra)
        elif extra:
            raise self.pyexc(TypeError, '%s() takes %d positional arguments' % (f.name, len(names)))
        for x in a.kwonlyargs:
            if x.arg in kwargs:
                vars_[x.arg] = kwargs.pop(x.arg)
            elif x.arg in f.kwdefaults:
                vars_[x.arg] = f.kwdefaults[x.arg]
            else:
                raise self.pyexc(TypeError, '%s() missing keyword argument %r' % (f.name, x.arg))
        if a.kwarg:
            vars_[a.kwarg.arg] = self.alloc(dict, 'dict', [Entry(k, v) for k, v in kwargs.items()])
        elif kwargs:
            raise self.pyexc(TypeError, '%s() got unexpected keyword argument %r' % (f.name, sorted(kwargs)[0]))

    # ------------------------------------------------------------------ names
    def load(self, name, frame):
        fr = frame
        first = True
        while fr is not None:
            if name in fr.vars:
                return unlazy(fr.vars[name])
            if first and name in fr.locals and name not in fr.nonlocals:
                raise self.pyexc(UnboundLocalError, name)
            if fr.func is not None and name in fr.func.free:
                return fr.func.free[name]
            fr = fr.parent
            first = False
        g = frame.globs
        if name in g:
            return g[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise self.pyexc(NameError, name)

    def store(self, name, value, frame):
        if name in frame.globalnames:
            raise Unsupported('global assignment')
        if name in frame.nonlocals:
            fr = frame.parent
            while fr is not None:
                if name in fr.vars or name in fr.locals:
                    self.note_local(fr, name)
                    fr.vars[name] = value
                    return
                fr = fr.parent
            raise Unsupported('nonlocal into native closure')
        self.note_local(frame, name)
        frame.vars[name] = value

    # ------------------------------------------------------------- statements
    def exec_block(self, body, frame):
        for s in body:
            self.exec(s, frame)

    def exec(self, s, frame):
        self.steps += 1
        if self.steps > self.ex.max_steps:
            raise Unsupported('step limit')
        self.cur = (s.lineno, s.col_offset)
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(s).__name__)
        m(s, frame)

    def x_Expr(self, s, frame):
        self.eval(s.value, frame)

    def x_Pass(self, s, frame):
        pass

    def x_Return(self, s, frame):
        raise Return(self.eval(s.value, frame) if s.value is not None else None)

    def x_Assign(self, s, frame):
        v = self.eval(s.value, frame)
        for t in s.targets:
            self.assign(t, v, frame)

    def x_ClassDef(self, s, frame):
        """A class made in a function: real, of real bases, with nothing but constants of its own."""
        if s.decorator_list or s.keywords:
            raise Unsupported('statement ClassDef')
        ns = {'__module__': frame.globs.get('__name__'), '__qualname__': s.name}
        for b in s.body:
            if isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant) or isinstance(b, ast.Pass):
                continue
            if isinstance(b, ast.Assign) and isinstance(b.value, ast.Constant) and \
                    all(isinstance(t, ast.Name) for t in b.targets):
                ns.update({t.id: b.value.value for t in b.targets})
                continue
            raise Unsupported('statement ClassDef')
        bases = []
        for b in s.bases:
            if isinstance(b, ast.Starred):
                bases.extend(self.iterate_known(self.eval(b.value, frame)))
            else:
                bases.append(self.eval(b, frame))
        if not all(isinstance(b, type) for b in bases):
            raise Unsupported('statement ClassDef')
        for b in bases:
            if type(b) is not type or '__init_subclass__' in [n for c in b.__mro__[:-1] for n in vars(c)]:
                raise Unsupported('statement ClassDef')
        try:
            c = type(s.name, tuple(bases), ns)
        except TypeError as e:
            raise self.pyexc(TypeError, str(e))
        self.store(s.name, c, frame)

    def x_AnnAssign(self, s, frame):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, frame), frame)

    def x_AugAssign(self, s, frame):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.load(t.id, frame)
            self.store(t.id, self.binop(type(s.op).__name__, cur, self.eval(s.value, frame), True), frame)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, frame)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.binop(type(s.op).__name__, cur, self.eval(s.value, frame), True))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, frame)
            i = self.eval_slice(t.slice, frame)
            cur = self.getitem(o, i)
            self.setitem(o, i, self.binop(type(s.op).__name__, cur, self.eval(s.value, frame), True))
        else:
            raise Unsupported('augassign')

    def assign(self, t, v, frame):
        if isinstance(t, ast.Name):
            self.store(t.id, v, frame)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, frame)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, frame), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, frame)
            self.setitem(o, self.eval_slice(t.slice, frame), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, frame)
        else:
            raise Unsupported('assignment target')

    def unpack(self, elts, v, frame):
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        vals = self.iterate_known(v, None if star else len(elts))
        if star:
            i = star[0]
            after = len(elts) - i - 1
            if len(vals) < len(elts) - 1:
                raise self.pyexc(ValueError, 'not enough values to unpack')
            for e, x in zip(elts[:i], vals[:i]):
                self.assign(e, x, frame)
            self.assign(elts[i].value, self.mklist(vals[i:len(vals) - after]), frame)
            for e, x in zip(elts[i + 1:], vals[len(vals) - after:]):
                self.assign(e, x, frame)
            return
        if len(vals) != len(elts):
            raise self.pyexc(ValueError, 'unpack: expected %d values' % len(elts))
        for e, x in zip(elts, vals):
            self.assign(e, x, frame)

    def iterate_known(self, v, n=None):
        """All the elements of an iterable with explicit elements."""
        it = self.iter_parts(v)
        if n is not None and any(isinstance(p, (Chunk, MapChunk)) for p in it):
            # make the length explicit where possible
            o = HObj(list, 'list', it)
            k = 0
            while k <= n:
                rest = HObj(list, 'list', self.parts(o)[k:])
                if not self.front(rest):
                    break
                k += 1
            it = self.parts(o)
            if k > n:
                raise self.pyexc(ValueError, 'too many values to unpack')
        if any(isinstance(p, (Chunk, MapChunk)) for p in it):
            raise Unsupported('unknown number of elements')
        return list(it)

    def x_Delete(self, s, frame):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.load(t.id, frame)
                del frame.vars[t.id]
            elif isinstance(t, ast.Attribute):
                self.delattr(self.eval(t.value, frame), t.attr)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.eval(t.value, frame), self.eval_slice(t.slice, frame))
            else:
                raise Unsupported('del')

    def x_If(self, s, frame):
        if self.test(self.eval(s.test, frame)):
            self.exec_block(s.body, frame)
        else:
            self.exec_block(s.orelse, frame)

    def x_Assert(self, s, frame):
        if not self.test(self.eval(s.test, frame)):
            raise self.pyexc(AssertionError)

    def x_Raise(self, s, frame):
        if s.exc is None:
            if not self.exc_stack:
                raise self.pyexc(RuntimeError, 'No active exception to reraise')
            raise PyExc(self.exc_stack[-1])
        e = self.eval(s.exc, frame)
        if isinstance(e, type) and issubclass(e, BaseException):
            e = self.call(e, (), {})
        cause = None
        if s.cause is not None:
            cause = self.eval(s.cause, frame)
            if isinstance(cause, type) and issubclass(cause, BaseException):
                cause = self.call(cause, (), {})
        if isinstance(e, HObj) and issubclass(e.cls, BaseException):
            if s.cause is not None and (cause is not None or '__cause__' in e.attrs):
                self.note_write(e, '__cause__')
                e.attrs['__cause__'] = cause
            if self.exc_stack and self.exc_stack[-1] is not e:
                self.note_write(e, '__context__')
                e.attrs['__context__'] = self.exc_stack[-1]
            raise PyExc(e)
        if isinstance(e, BaseException):
            raise PyExc(e)
        raise self.pyexc(TypeError, 'exceptions must derive from BaseException')

    def x_Try(self, s, frame):
        try:
            try:
                self.exec_block(s.body, frame)
            except PyExc as pe:
                for h in s.handlers:
                    if h.type is None or self.exc_match(pe, self.eval(h.type, frame)):
                        if h.name:
                            self.store(h.name, pe.value, frame)
                        self.exc_stack.append(pe.value)
                        try:
                            self.exec_block(h.body, frame)
                        finally:
                            self.exc_stack.pop()
                            if h.name:
                                frame.vars.pop(h.name, None)
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, frame)
        except (PyExc, Return, Break, Continue):
            self.exec_block(s.finalbody, frame)
            raise
        else:
            self.exec_block(s.finalbody, frame)

    def exc_match(self, pe, t):
        ts = t if isinstance(t, tuple) else (t,)
        return any(issubclass(pe.cls, x) for x in ts)

    def x_With(self, s, frame):
        self.do_with(s, list(s.items), frame)

    def do_with(self, s, items, frame):
        if not items:
            self.exec_block(s.body, frame)
            return
        it = items[0]
        cm = self.eval(it.context_expr, frame)
        v = self.call(self.getattr(cm, '__enter__'), (), {})
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, frame)
        ex = self.getattr(cm, '__exit__')
        try:
            self.do_with(s, items[1:], frame)
        except PyExc as pe:
            if not self.test(self.call(ex, (pe.cls, pe.value, None), {})):
                raise
        except (Return, Break, Continue):
            self.call(ex, (None, None, None), {})
            raise
        else:
            self.call(ex, (None, None, None), {})

    def x_FunctionDef(self, s, frame):
        f = self.make_func(s, frame)
        for d in reversed(s.decorator_list):
            f = self.call(self.eval(d, frame), (f,), {})
        self.store(s.name, f, frame)

    def make_func(self, node, frame):
        a = node.args
        defaults = tuple(self.eval(d, frame) for d in a.defaults)
        kwd = {x.arg: self.eval(d, frame) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        f = Func(node, frame.globs, frame, defaults, kwd, getattr(node, 'name', '<lambda>'))
        return f

    def x_Import(self, s, frame):
        import importlib
        for al in s.names:
            m = importlib.import_module(al.name)
            if al.asname:
                self.store(al.asname, m, frame)
            else:
                self.store(al.name.split('.')[0], sys.modules[al.name.split('.')[0]], frame)

    def x_ImportFrom(self, s, frame):
        import importlib
        if s.level:
            pkg = frame.globs.get('__package__') or frame.globs['__name__'].rpartition('.')[0]
            mod = importlib.import_module('.' * s.level + (s.module or ''), pkg)
        else:
            mod = importlib.import_module(s.module)
        for al in s.names:
            self.store(al.asname or al.name, getattr(mod, al.name), frame)

    def x_Nonlocal(self, s, frame):
        pass

    def x_Global(self, s, frame):
        pass

    def x_Break(self, s, frame):
        raise Break()

    def x_Continue(self, s, frame):
        raise Continue()

    # ------------------------------------------------------------------ loops
    def iter_parts(self, v):
        """Parts of an iteration over v."""
        if isinstance(v, HObj):
            it = self.class_lookup(v.cls, '__iter__')
            if isinstance(it, types.FunctionType):
                r = self.call(Bound(it, v), (), {})
                if r is v:
                    return self.drain(v)
                return self.iter_parts(r)
            if v.extra is not None and 'iter' in v.extra:
                # an iterator object: consumes
                ps = self.parts(v)
                v.parts = []
                return ps
            if v.cls is types.GeneratorType:
                ps = self.parts(v)
                v.parts = []
                return list(ps)
            if v.kind in ('list', 'set'):
                return list(self.parts(v))
            if v.kind == 'dict':
                return self.dict_view(v, 'keys')
            if it is None:
                gi = self.class_lookup(v.cls, '__getitem__')
                if gi is not None:
                    raise Unsupported('sequence protocol iteration')
                raise self.pyexc(TypeError, '%s object is not iterable' % v.cls.__name__)
            raise Unsupported('iteration over %s' % v.cls.__name__)
        if isinstance(v, Sym):
            if v.k in ('str', 'bytes'):
                return self.str_parts(v)
            raise self.pyexc(TypeError, 'not iterable')
        if isinstance(v, (Func, Bound, Partial, SpecialCallable)) or v is None:
            raise self.pyexc(TypeError, 'not iterable')
        if isinstance(v, (tuple, list)):
            return list(v)
        if isinstance(v, (set, frozenset)):
            return sorted(v, key=repr)
        try:
            return list(v)
        except Unsupported:
            raise
        except Exception as e:
            raise PyExc(e)

    def drain(self, v):
        """Iterate an iterator object by calling __next__ until StopIteration."""
        under = self.passes_on(v)
        if under is not None:
            return self.iter_parts(under)
        out = []
        nxt = self.getattr(v, '__next__')
        for i in range(self.ex.unroll + 1):
            try:
                out.append(self.call(nxt, (), {}))
            except PyExc as e:
                if issubclass(e.cls, StopIteration):
                    return out
                raise
        self.path.bounded.append('iterator drained more than %d times' % self.ex.unroll)
        raise PathEnd()

    def passes_on(self, v):
        """The iterator whose values __next__ of v returns unchanged, without
        any other effect, or None."""
        if self.probing is not None or self.path.nofork:
            return None
        found = []
        for hole in (Hole(), None):
            self.probing = [None, hole]
            self.path.nofork = True
            depth = len(self.exc_stack)
            try:
                r = self.call(self.getattr(v, '__next__'), (), {})
                if hole is None or r is not hole:
                    return None
            except PyExc as e:
                if hole is not None or not issubclass(e.cls, StopIteration):
                    return None
            except Unsupported:
                return None
            finally:
                found.append(self.probing[0])
                self.probing = None
                self.path.nofork = False
                del self.exc_stack[depth:]
        return found[0] if found[0] is not None and found[0] is found[1] else None

    def str_parts(self, v):
        if self.ex.mode == 'bounded':
            n = None
            for k in range(self.ex.strmax + 1):
                if self.path.decide(z3.Length(v.t) == k):
                    n = k
                    break
            if n is None:
                self.path.bounded.append('string iterated: length <= %d' % self.ex.strmax)
                raise PathEnd()
            if v.k == 'bytes':
                return [Sym(z3.StrToCode(z3.SubString(v.t, i, 1)), 'int') for i in range(n)]
            return [Sym(z3.SubString(v.t, i, 1), 'str') for i in range(n)]
        if v.k == 'bytes':
            raise Unsupported('iteration over symbolic bytes')
        cache = self.__dict__.setdefault('_strchunks', {})
        key = v.t.sexpr()
        if key not in cache:
            def factory():
                c = self.path.fresh('ch', 'str')
                self.path.assume(z3.Length(c.t) == 1)
                self.path.assume(z3.Contains(v.t, c.t))
                return c
            ch = Chunk(self.path, factory, label='chars')
            self.path.assume(ch.len == z3.Length(v.t))
            cache[key] = ch
        return self.norm([cache[key]])

    def dict_view(self, o, which):
        parts = self.norm(o.parts)
        if which == 'entries':
            return parts
        fn = {'keys': lambda e: e.key, 'values': lambda e: e.value,
              'items': lambda e: (e.key, e.value)}[which]
        out = []
        for p in parts:
            if isinstance(p, Chunk):
                memo = self.path.__dict__.setdefault('_viewmemo', {}).setdefault((which,), {})
                out.append(MapChunk(self.path, p, lambda e, fn=fn: [fn(e)], memo, which, True))
            elif isinstance(p, MapChunk):
                memo = p.memo.setdefault(('view', which), {})
                out.append(MapChunk(self.path, p.base, lambda x, fn=fn, p=p: [fn(e) for e in p.outs(x)],
                                    memo, which, p.total))
            else:
                out.append(fn(p))
        return out

    def entry_parts(self, parts):
        """Dict entries for the pairs in parts."""
        out = []
        for p in parts:
            if isinstance(p, (Chunk, MapChunk)):
                out.append(self.entries(p))
            else:
                kv = self.iterate_known(p, 2)
                if len(kv) != 2:
                    raise self.pyexc(ValueError, 'dictionary update sequence')
                out.append(Entry(*kv))
        for i, p in enumerate(out):
            for q in out[i + 1:]:
                if isinstance(p, Entry) and isinstance(q, Entry):
                    ok = self.path.entails(self.neg(self.eq(p.key, q.key)))
                elif isinstance(p, Entry) or isinstance(q, Entry):
                    e, c = (p, q) if isinstance(p, Entry) else (q, p)
                    ok = any(self.eq(e.key, k) is True for k in c_absent(base_of(c)))
                else:
                    ok = p.base.group is q.base.group and p.base is not q.base
                if not ok:
                    raise Unsupported('dict from pairs with unknown keys')
        return out

    def entries(self, p):
        """Chunk of dict entries for the pairs of p, whose keys must differ:
        shown by their being the keys of a dict."""
        if not isinstance(p, MapChunk) or p.base.group is None:
            raise Unsupported('dict from pairs with unknown keys')
        if self.path.choose(2) == 1:
            self.path.assume(p.base.len > 0)
            D, x, R = self.split(p.base)
            outs = p.outs(x)
            if len(outs) > 1:
                raise Unsupported('dict from pairs with unknown keys')
            for pair in outs:
                if self.path.entails(self.eq(self.iterate_known(pair, 2)[0], p.base.group.keyof(x))) is not True:
                    raise Unsupported('dict from pairs with unknown keys')
            raise PathEnd()
        if not p.total:
            raise Unsupported('dict from filtered pairs')
        return MapChunk(self.path, p.base, lambda x: [Entry(*self.iterate_known(y, 2)) for y in p.outs(x)],
                        p.memo.setdefault('entries', {}), 'entries', p.total, True)

    def x_For(self, s, frame):
        v = self.eval(s.iter, frame)
        if isinstance(v, HObj) and v.extra is not None and 'thunk' in v.extra:
            self.force(v, strict=True)
        parts = self.iter_parts(v)
        isiter = isinstance(v, HObj) and (v.cls is types.GeneratorType or
                                          v.extra is not None and 'iter' in v.extra)
        key = tuple(self.stack) + tuple(self.iters) + ((s.lineno, s.col_offset),)

        def body(x):
            self.assign(s.target, x, frame)
            self.exec_block(s.body, frame)


        def run(x, fr):
            self.assign(s.target, x, fr)
            self.exec_block(s.body, fr)

        def fact(x, created):
            """x was passed by the loop without leaving it."""
            path = self.path
            saved, began = path.lazy_since, path.lazy_start
            path.lazy_since = created if saved is None else min(created, saved)
            path.lazy_start = path.seq
            try:
                fr = snapshot(fact.frame)
                self.assign(s.target, x, fr)
                self.exec_block(s.body, fr)
            except Continue:
                pass
            except (Break, Return, PyExc):
                raise PathEnd()
            except Unsupported:
                pass            # only forgoes the fact
            finally:
                path.lazy_since, path.lazy_start = saved, began
        fact.run = run
        self.rest = None
        if self.run_loop(parts, body, key, frame, fact) == 'normal':
            self.exec_block(s.orelse, frame)
        elif isiter:
            self.put_back(v, self.rest)

    def put_back(self, v, rest):
        """A loop over the iterator v was left early with `rest` still to come."""
        self.note_write(v, 'store')
        v.parts = list(rest)
        for src in (v.extra or {}).get('srcs', ()):
            if (v.extra or {}).get('enum'):
                out = []
                for p in self.norm(rest):
                    if isinstance(p, MapChunk):
                        out.append(p.base)
                    elif isinstance(p, tuple):
                        out.append(p[1])
                    else:
                        raise Unsupported('rest of enumerate')
                self.put_back(src, out)
            elif rest:
                raise Unsupported('iterator used after a partial loop over it')

    def run_loop(self, parts, body, key, frame, fact=None):
        pending = list(parts)
        idx = n = 0
        while pending:
            p = pending.pop(0)
            if isinstance(p, (Chunk, MapChunk)):
                sub = self.norm([p])
                if not (len(sub) == 1 and sub[0] is p):
                    pending = sub + pending
                    continue
                r = self.cut_loop(p, body, key + (idx,), frame, fact)
                idx += 1
                if r == 'break':
                    self.rest = self.rest + pending
                    return 'break'
                continue
            n += 1
            self.iters.append((key[-1], n))
            try:
                body(p)
            except Continue:
                pass
            except Break:
                self.rest = pending
                return 'break'
            finally:
                self.iters.pop()
        return 'normal'

    def cut_loop(self, chunk, body, key, frame, fact=None):
        path = self.path
        st = self.ex.loop(key)
        base = chunk.base if isinstance(chunk, MapChunk) else chunk
        if st.get('bail'):
            raise Unsupported('no usable loop invariant at %s' % (key[-2:],))
        # emptiness is worth deciding exactly
        entry = self.capture(st, frame)
        created = path.next_seq()
        self.summary = (entry, chunk, fact, created, snapshot(frame) if st['writes'] else None)
        iterate = path.choose(2) == 0
        cands = self.candidates(st, entry, chunk, base)
        if iterate:
            for c in cands:
                if c['id'] not in st['dropped'] and not c['init']():
                    self.ex.drop(st, c['id'])
            path.assume(base.len > 0)
            path.prune()
            root = base
            D, x, R = self.split(base)
            state = self.havoc(st, entry, frame, chunk, D)
            for c in cands:
                if c['id'] not in st['dropped']:
                    self.assume_candidate(st, c, state, D)
            path.prune()
            ctx = self.context(frame)
            self.loops.append(ctx)
            path.inexact.append(('loop', key))
            elems = chunk.outs(x) if isinstance(chunk, MapChunk) else [x]
            if any(isinstance(e, (Chunk, MapChunk)) for e in elems):
                raise Unsupported('loop over what an inner loop produced')
            done = 0
            try:
                for el in elems:
                    done += 1
                    try:
                        body(el)
                    except Continue:
                        pass
                self.loops.remove(ctx)
                self.loop_back(st, ctx, entry, frame, key, state, chunk, x)
                after = self.current(st, entry, frame)
                for c in cands:
                    if c['id'] not in st['dropped']:
                        if not c['step'](state, after, D, x):
                            self.ex.drop(st, c['id'])
                raise PathEnd()
            except (Return, PyExc):
                self.ex.exits(st)
                raise
            except Break:
                self.ex.exits(st)
                if ctx in self.loops:
                    self.loops.remove(ctx)
                for w in ctx['writes']:
                    for outer in self.loops:
                        outer['writes'].add(w)
                self.rest = list(elems[done:]) + [
                    self.submap(chunk, R) if isinstance(chunk, MapChunk) else R]
                return 'break'
            finally:
                if ctx in self.loops:
                    self.loops.remove(ctx)
        else:
            state = self.havoc(st, entry, frame, chunk, base)
            for c in cands:
                if c['id'] not in st['dropped']:
                    self.assume_candidate(st, c, state, base)
            if st['writes']:
                path.inexact.append(('loop', key))
            elif fact is not None and st.get('exits'):
                created = path.next_seq()
                fact.frame = snapshot(frame)
                if isinstance(chunk, MapChunk):
                    def basefact(x):
                        for o in chunk.outs(x):
                            fact(o, created)
                    base.facts.append(basefact)
                else:
                    base.facts.append(lambda x: fact(x, created))
            path.prune()
            return 'normal'

    # -- loop state --------------------------------------------------------
    def context(self, frame=None):
        chain = set()
        fr = frame
        while fr is not None:
            chain.add(id(fr))
            fr = fr.parent
        return {'start': self.path.seq, 'writes': set(), 'direct': set(), 'objs': {},
                'prevars': self.prevars(frame), 'chain': chain}

    def prevars(self, frame):
        out = set()
        fr = frame
        while fr is not None:
            for n in fr.vars:
                out.add((id(fr), n))
            fr = fr.parent
        return out

    def locate(self, loc, frame, objs):
        if loc[0] == 'L':
            fr = objs.get(('frame', loc[1]))
            return fr if fr is not None and loc[2] in fr.vars else None
        return objs.get(loc[1])

    def reachable(self, frame):
        """Objects and frames reachable from the frames that are active, by allocation site."""
        objs = {}
        seen = set()
        work = []

        def add(fr):
            while fr is not None and id(fr) not in seen:
                seen.add(id(fr))
                objs.setdefault(('frame', fr.site), fr)
                work.extend(fr.vars.values())
                if fr.yields is not None:
                    work.append(fr.yields)
                fr = fr.parent
        add(frame)
        for fr in reversed(self.frames):
            add(fr)
        while work:
            v = work.pop()
            while isinstance(v, Lazy):
                v = v.value if v.done else v.v0
            if isinstance(v, HObj):
                if id(v) in seen:
                    continue
                seen.add(id(v))
                objs[v.site] = v
                work.extend(v.attrs.values())
                if v.kind:
                    for p in v.parts:
                        if isinstance(p, Entry):
                            work.extend((p.key, p.value))
                        elif not isinstance(p, (Chunk, MapChunk)):
                            work.append(p)
            elif isinstance(v, (tuple, list)):
                work.extend(v)
            elif isinstance(v, Bound):
                work.append(v.self_)
                work.append(v.func)
            elif isinstance(v, Partial):
                work.extend(v.args)
            elif isinstance(v, Func):
                add(v.parent)
                work.extend(v.defaults)
        return objs

    def capture(self, st, frame):
        objs = self.reachable(frame) if st['writes'] else {}
        out = {}
        for loc in sorted(st['writes'], key=repr):
            h = self.locate(loc, frame, objs)
            if h is None:
                continue
            out[loc] = (h, self.read_loc(loc, h))
        return out

    def read_loc(self, loc, h):
        if loc[0] == 'L':
            v = h.vars[loc[2]]
            while isinstance(v, Lazy) and v.done:
                v = v.value
            return v
        if loc[2] == 'store':
            return list(self.norm(h.parts))
        return h.attrs.get(loc[2], _missing)

    def write_loc(self, loc, h, v):
        if loc[0] == 'L':
            self.note_local(h, loc[2])
            h.vars[loc[2]] = v
        elif loc[2] == 'store':
            self.note_write(h, 'store')
            h.parts = v
        else:
            self.note_write(h, loc[2])
            if v is _missing:
                h.attrs.pop(loc[2], None)
            else:
                h.attrs[loc[2]] = v

    def current(self, st, entry, frame):
        return State((loc, self.read_loc(loc, h)) for loc, (h, v) in entry.items())

    def shape(self, v):
        if isinstance(v, Sym):
            return (v.k,)
        if v is None:
            return ('none',)
        if isinstance(v, bool):
            return ('bool',)
        k = self.kind_of(v)
        if k:
            return (k,)
        if isinstance(v, tuple):
            return ('tuple',) + tuple(self.shape(x) for x in v)
        if isinstance(v, HObj):
            if v.kind == 'list' and v.cls is list:
                return ('list', None)
            if v.kind:
                return ('unk', v.cls.__name__)
            return ('obj', v.cls, tuple(sorted((n, self.shape(x)) for n, x in v.attrs.items())))
        if v is _missing:
            return ('missing',)
        return ('const', v)

    def fresh_of(self, shape, name):
        k = shape[0]
        if k == 'none':
            return None
        if k in SORTS:
            return self.path.fresh(name, k)
        if k == 'tuple':
            return tuple(self.fresh_of(s, name) for s in shape[1:])
        if k == 'const':
            return shape[1]
        if k == 'missing':
            return _missing
        if k == 'obj':
            o = self.alloc(shape[1])
            o.havoc = True
            for n, s in shape[2]:
                o.attrs[n] = self.fresh_of(s, name + '.' + n)
            return o
        if k == 'list':
            raise Unsupported('havoc of list-valued variable')
        raise Unsupported('havoc of %r' % (shape,))

    def havoc(self, st, entry, frame, chunk, D):
        state = State()
        for loc, (h, v0) in entry.items():
            if loc[0] == 'O' and loc[2] == 'store':
                v = self.havoc_store(st, loc, h, v0, chunk, D)
            else:
                v = self.havoc_value(st, loc, v0, D)
            state[loc] = v
            self.write_loc(loc, h, v)
        return state

    def havoc_value(self, st, loc, v0, D):
        shapes = sorted(st['shapes'].get(loc, ()), key=repr)
        s0 = self.rel_shape(v0, v0, None, None, None)
        if s0 not in shapes:
            shapes = [s0] + shapes

        def make(shape):
            if shape == ('entry',):
                return v0
            if shape == ('elem',):
                return self.some_element(st, loc, D)
            return self.fresh_of(shape, 'h_%s' % loc[2])
        v = Lazy(self, shapes, v0, make)
        if len(shapes) == 1 or loc[0] != 'L':
            v.force() if not isinstance(v0, Lazy) or loc[0] != 'L' else None
        self.chosen[(id(st), loc)] = v
        return v.value if v.done else v

    def some_element(self, st, loc, D):
        """One of the elements the loop has already seen."""
        path = self.path
        if loc in st.get('notx', ()) and D.split is None:
            path.assume(D.len > 0)
            path.prune()
            return self.split(D)[1]
        path.assume(D.len > 0)
        path.prune()
        x = self.element(D)
        for f in D.facts:
            f(x)
        x.havoc = True
        return x

    def rel_shape(self, v, v0, x, st, loc):
        """Shape of the value of a location, relative to its value on entry,
        the element just seen and the value assumed before that."""
        if isinstance(v, Lazy):
            c = self.chosen.get((id(st), loc))
            if c is v:
                return v.shapes[0]          # not even read
            return ('entry',) if v is v0 else self.shape(v.force())
        if isinstance(v, HObj):
            if v is v0:
                return ('entry',)
            if x is not None and v is x and not v.kind:
                return ('elem',)
            c = self.chosen.get((id(st), loc))
            if c is not None and c.done and c.value is v:
                return c.shape
        return self.shape(v)

    def havoc_store(self, st, loc, h, v0, chunk, D):
        if h.kind not in ('list', 'dict', 'set'):
            raise Unsupported('havoc of %s contents' % h.kind)
        key = (id(st), loc)
        cands = self.storecands[key] = self.map_candidates(chunk, st, loc, h)
        i = st['listcand'].get(loc, 0)
        if i >= len(cands):
            raise Unsupported('no list invariant for loop')
        label, mk = cands[i]
        extra = mk(D)
        return list(v0) + extra

    def body_map(self, st, loc, h, chunk):
        """What one pass of the loop body adds to h, as a function of the
        element alone: the body is run on it with h emptied, and may not look
        at anything else the loop changes."""
        entry, _, fact, created, frame = self.summary
        base = base_of(chunk)
        path = self.path
        others = [(l, o) for l, (o, _) in entry.items() if l[0] == 'O']

        def fn(x):
            fr = snapshot(frame)
            start = path.seq
            kept = []
            for l in entry:
                if l[0] == 'L':
                    f = fr
                    while f is not None and f.site != l[1]:
                        f = f.parent
                    if f is None:
                        f = entry[l][0]
                        kept.append((f, l[2], f.vars[l[2]]))
                    f.vars[l[2]] = Lazy(self, [None], None, poison)
            saved = [(o, o.parts, dict(o.attrs), dict(o.wseq)) for l, o in others]
            since, began = path.lazy_since, path.lazy_start
            path.lazy_since = created if since is None else min(created, since)
            path.lazy_start = start
            for l, o in others:
                if l[2] != 'store' or o is not h:
                    o.wseq[l[2]] = path.next_seq()
            keep, self.loops = self.loops, []
            self.own.append(h)
            try:
                h.parts = []
                for y in (chunk.outs(x) if isinstance(chunk, MapChunk) else [x]):
                    try:
                        fact.run(y, fr)
                    except Continue:
                        pass
                return self.made(list(h.parts), start)
            except (Break, Return, PyExc):
                raise PathEnd()
            finally:
                self.own.pop()
                self.loops = keep
                path.lazy_since, path.lazy_start = since, began
                for o, parts, attrs, w in saved:
                    o.parts, o.attrs, o.wseq = parts, attrs, w
                for f, n, v in kept:
                    f.vars[n] = v
        return MapChunk(path, base, fn, label='body', keyed=h.kind in ('dict', 'set'))

    def map_candidates(self, chunk, st, loc, h):
        base = chunk.base if isinstance(chunk, MapChunk) else chunk
        if h.kind in ('dict', 'set'):
            out = [('none', lambda D: [])]
            if self.summary[2] is not None and (base.group is not None or h.kind == 'set'):
                m = self.body_map(st, loc, h, chunk)
                m.total = True
                out.append(('body', lambda D, m=m: [self.submap(m, D)] if isinstance(D, Chunk) else []))
            return out
        out = []
        seen = set()
        for m in self.maps:
            if id(m.memo) in seen:
                continue
            if self.derived(base, m.base):
                seen.add(id(m.memo))
                out.append(('map', lambda D, m=m: [self.submap(m, D)] if isinstance(D, Chunk) else []))
        out.append(('same', lambda D, c=chunk: [self.submap(c, D)] if isinstance(c, MapChunk) else [D]))
        out.append(('none', lambda D: []))
        if self.summary[2] is not None:
            m = self.body_map(st, loc, h, chunk)
            out.append(('body', lambda D, m=m: [self.submap(m, D)] if isinstance(D, Chunk) else []))
        return out

    def derived(self, base, root):
        if base is root:
            return True
        if isinstance(root, Chunk) and root.split is not None:
            return any(self.derived(base, p) for p in root.split if isinstance(p, Chunk))
        return False

    def loop_back(self, st, ctx, entry, frame, key, state, chunk, x):
        """Register new writes and shapes seen on the back edge."""
        new = False
        for w in ctx['writes']:
            for outer in self.loops:
                outer['writes'].add(w)
            if w not in st['writes']:
                st['writes'].add(w)
                new = True
        if new:
            raise Restart()
        self.all_found(ctx, entry)
        for loc, (h, v0) in entry.items():
            v = self.read_loc(loc, h)
            if loc[0] == 'O' and loc[2] == 'store':
                self.check_list_step(st, ctx, loc, h, v0, v, chunk, x, key)
                continue
            s = self.rel_shape(v, v0, x if isinstance(chunk, Chunk) else None, st, loc)
            if v is not x and loc not in st.setdefault('notx', set()):
                st['notx'].add(loc)
                if ('elem',) in st['shapes'].get(loc, ()):
                    new = True
            if s not in st['shapes'].setdefault(loc, set()):
                if s == self.rel_shape(v0, v0, None, None, None):
                    st['shapes'][loc].add(s)
                    continue
                st['shapes'][loc].add(s)
                new = True
        if new:
            raise Restart()

    def all_found(self, ctx, entry):
        """What the loop changes must have been havocked at its start."""
        for w in ctx['direct']:
            if w not in entry:
                raise Unsupported('loop changes %s, which is out of reach' % (w[2],))

    def check_list_step(self, st, ctx, loc, h, v0, v, chunk, x, key):
        cands = self.storecands[(id(st), loc)]
        i = st['listcand'].get(loc, 0)
        label, mk = cands[i]
        base = chunk.base if isinstance(chunk, MapChunk) else chunk
        D = base.split[0]
        if label == 'none':
            outs = []
        elif label == 'same':
            outs = chunk.outs(x) if isinstance(chunk, MapChunk) else [x]
        else:
            m = mk(D)[0]
            outs = m.outs(x)
        want = list(v0) + mk(D) + list(outs)
        ok = None
        raw = v
        try:
            if h.kind == 'dict':
                ok = label == 'none' or len(outs) == 1 and outs[0].key is not None and \
                    self.path.entails(self.eq(outs[0].key, base.group.keyof(x))) is True
                v, want = ([(e.key, e.value) if isinstance(e, Entry) else e for e in self.norm(ps)]
                           for ps in (v, want))
            elif h.kind == 'set':
                ok = label == 'none' or len(outs) == 1
            else:
                ok = True
            c = self.models.same_parts(self, v, want, self.models.twin)
            ok = ok and self.path.entails(c) and self.new_objects(v0, raw, outs, ctx['start'])
        except Unsupported:
            ok = False
        if ok is not True:
            st['listcand'][loc] = i + 1
            raise Restart()

    def new_objects(self, v0, v, outs, start):
        """The objects a pass of a loop stores are those the invariant says,
        or new ones (so that they are not shared between passes)."""
        old = {id(p) for p in v0}
        real = self.objects([p for p in v if id(p) not in old])
        said = self.objects(outs)
        for a, b in ((real, said), (said, real)):
            for o in a.values():
                if id(o) not in b and o.seq <= start:
                    return False
        return True

    def made(self, outs, start):
        for o in self.objects([p for p in outs if not isinstance(p, (Chunk, MapChunk))]).values():
            if o.seq > start:
                o.mapped = True
                o.wseq = {}
        return outs

    def objects(self, parts):
        out = {}
        work = list(parts)
        while work:
            v = work.pop()
            if isinstance(v, Lazy):
                v = v.force()
            if isinstance(v, Entry):
                work += [v.key, v.value]
            elif isinstance(v, tuple):
                work += list(v)
            elif isinstance(v, HObj) and id(v) not in out:
                out[id(v)] = v
                work += list(v.attrs.values())
                if v.kind:
                    work += [p for p in v.parts if not isinstance(p, (Chunk, MapChunk))]
        return out

    # -- invariant candidates -------------------------------------------------
    def candidates(self, st, entry, chunk, base, node=None):
        """Name-independent candidate invariants over the havocked state."""
        out = []
        if self.ex.no_candidates:
            return out
        locs = [l for l in entry if not (l[0] == 'O' and l[2] == 'store')
                and not isinstance(entry[l][1], Lazy)]

        def simple(cid, pred):
            """pred(values: loc->value, D or None) -> True/False/z3"""
            def init():
                vals = {l: entry[l][1] for l in locs}
                try:
                    return self.holds(pred(vals, None))
                except (Unsupported, PyExc):
                    return False

            def at(state, D):
                return pred(state, D)

            def step(state, after, D, x):
                try:
                    return self.holds(pred(after, (D, 1)))
                except (Unsupported, PyExc):
                    return False
            out.append({'id': cid, 'init': init, 'at': at, 'step': step})

        def dlen(D):
            if D is None:
                return z3.IntVal(0)
            if isinstance(D, tuple):
                return D[0].len + 1
            return D.len

        for l in locs:
            v0 = entry[l][1]
            k0 = self.kind_of(v0)
            simple(('same', l), lambda s, D, l=l, v0=v0: self.safe_eq(s[l], v0))
            if k0 == 'int':
                t0 = self.term(v0)
                simple(('ge', l), lambda s, D, l=l, t0=t0: self.num_rel(s[l], t0, 'ge'))
                simple(('le', l), lambda s, D, l=l, t0=t0: self.num_rel(s[l], t0, 'le'))
                simple(('ge0', l), lambda s, D, l=l: self.num_rel(s[l], z3.IntVal(0), 'ge'))
                if base is not None:
                    simple(('count', l), lambda s, D, l=l, t0=t0: self.num_rel(s[l], t0 + dlen(D), 'eq'))
            # facts known about every element of the chunk hold of values that came from it
            if base is not None and v0 is None:
                pass
        ints = [l for l in locs if self.kind_of(entry[l][1]) == 'int']
        for i, a in enumerate(ints):
            for b in ints[i + 1:]:
                a0, b0 = self.term(entry[a][1]), self.term(entry[b][1])
                simple(('sum', a, b), lambda s, D, a=a, b=b, a0=a0, b0=b0:
                       self.lin(s, a, b, 1, a0 + b0))
                simple(('diff', a, b), lambda s, D, a=a, b=b, a0=a0, b0=b0:
                       self.lin(s, a, b, -1, a0 - b0))
        strs = [l for l in locs if self.kind_of(entry[l][1]) in ('str', 'bytes')]
        if node is not None and strs:
            lits = set()
            for n in ast.walk(node):
                if isinstance(n, ast.Constant) and isinstance(n.value, (str, bytes)):
                    v = n.value if isinstance(n.value, str) else n.value.decode('latin1')
                    if v and not v[0].isalnum() and v[0] != '%':
                        lits.add(v[0])
            for a in strs:
                for c in sorted(lits)[:3]:
                    simple(('lead', a, c), lambda s, D, a=a, c=c, v0=entry[a][1]:
                           self.lead(s[a], v0, c))
        for a in strs:
            for b in strs:
                if a == b:
                    continue
                a0, b0 = self.term(entry[a][1]), self.term(entry[b][1])
                simple(('cat', a, b), lambda s, D, a=a, b=b, a0=a0, b0=b0:
                       self.cat(s, a, b, z3.Concat(a0, b0)))
        for cid, pred in self.ex.user_candidates(self, entry, locs):
            simple(cid, pred)
        return out

    def holds(self, c):
        if c is False:
            if self.path._check() == z3.unsat:
                raise PathEnd()
            return False
        return self.path.entails(c) is True

    def invariant(self, fn, *args):
        if any(a is _missing for a in args):
            return False
        return self.truth(self.call(fn, args, {}))

    def assume_candidate(self, st, c, state, D):
        """Assume a candidate of the havocked state.  One that cannot be
        evaluated there is given up, never assumed."""
        try:
            cond = c['at'](state, D)
        except (Unsupported, PyExc) as e:
            self.ex.drop(st, c['id'])
            return
        self.path.assume(cond)

    def safe_eq(self, a, b):
        if a is _missing or b is _missing:
            return a is b
        if isinstance(a, HObj) and isinstance(b, HObj):
            if a is b:
                return True
            # a havocked object stands for whatever object is there: says nothing
            raise Unsupported('identity of a havocked object')
        if isinstance(a, HObj) or isinstance(b, HObj):
            return False
        return self.eq(a, b)

    def lead(self, v, v0, c):
        if self.kind_of(v) not in ('str', 'bytes'):
            return False
        t = self.term(v)
        return z3.Or(t == self.term(v0), z3.PrefixOf(z3.StringVal(c), t))

    def num_rel(self, v, t, rel):
        if self.kind_of(v) != 'int':
            return False
        x = self.term(v)
        return {'ge': x >= t, 'le': x <= t, 'eq': x == t}[rel]

    def lin(self, s, a, b, sign, c):
        if self.kind_of(s[a]) != 'int' or self.kind_of(s[b]) != 'int':
            return False
        return self.term(s[a]) + sign * self.term(s[b]) == c

    def cat(self, s, a, b, c):
        if self.kind_of(s[a]) not in ('str', 'bytes') or self.kind_of(s[b]) not in ('str', 'bytes'):
            return False
        return z3.Concat(self.term(s[a]), self.term(s[b])) == c

    def x_While(self, s, frame):
        key = tuple(self.stack) + tuple(self.iters) + ((s.lineno, s.col_offset), 'while')
        st = self.ex.loop(key)
        if self.ex.mode == 'bounded' or not st.get('cut'):
            n = 0
            while True:
                before = len(self.path.taken)
                if not self.test(self.eval(s.test, frame)):
                    self.exec_block(s.orelse, frame)
                    return
                try:
                    self.exec_block(s.body, frame)
                except Break:
                    return
                except Continue:
                    pass
                if len(self.path.taken) != before:
                    n += 1
                else:
                    n += 0.01
                if n > self.ex.unroll:
                    if self.ex.mode == 'bounded':
                        self.path.bounded.append('while loop unrolled %d times' % self.ex.unroll)
                        raise PathEnd()
                    st['cut'] = True
                    raise Restart()
        path = self.path
        entry = self.capture(st, frame)
        cands = self.candidates(st, entry, None, None, s)
        iterate = path.choose(2) == 0
        if iterate:
            for c in cands:
                if c['id'] not in st['dropped'] and not c['init']():
                    self.ex.drop(st, c['id'])
            state = self.havoc_while(st, entry, frame)
            for c in cands:
                if c['id'] not in st['dropped']:
                    self.assume_candidate(st, c, state, None)
            path.prune()
            path.inexact.append(('loop', key))
            ctx = self.context(frame)
            self.loops.append(ctx)
            try:
                if not self.test(self.eval(s.test, frame)):
                    raise PathEnd()
                try:
                    self.exec_block(s.body, frame)
                except Continue:
                    pass
                self.loops.remove(ctx)
                self.while_back(st, ctx, entry)
                after = self.current(st, entry, frame)
                for c in cands:
                    if c['id'] not in st['dropped']:
                        if not c['step'](state, after, None, None):
                            self.ex.drop(st, c['id'])
                raise PathEnd()
            except Break:
                for w in ctx['writes']:
                    for outer in self.loops:
                        if outer is not ctx:
                            outer['writes'].add(w)
                return
            finally:
                if ctx in self.loops:
                    self.loops.remove(ctx)
        else:
            state = self.havoc_while(st, entry, frame)
            for c in cands:
                if c['id'] not in st['dropped']:
                    self.assume_candidate(st, c, state, None)
            path.prune()
            path.inexact.append(('loop', key))
            if self.test(self.eval(s.test, frame)):
                raise PathEnd()
            self.exec_block(s.orelse, frame)

    def havoc_while(self, st, entry, frame):
        state = State()
        for loc, (h, v0) in entry.items():
            if loc[0] == 'O' and loc[2] == 'store':
                if h.kind != 'list':
                    raise Unsupported('havoc of %s contents' % h.kind)
                raise Unsupported('list grown in while loop')
            v = self.havoc_value(st, loc, v0, None)
            state[loc] = v
            self.write_loc(loc, h, v)
        return state

    def while_back(self, st, ctx, entry):
        new = False
        for w in ctx['writes']:
            for outer in self.loops:
                outer['writes'].add(w)
            if w not in st['writes']:
                st['writes'].add(w)
                new = True
        if new:
            raise Restart()
        self.all_found(ctx, entry)
        for loc, (h, v0) in entry.items():
            if loc[0] == 'O' and loc[2] == 'store':
                continue
            s = self.rel_shape(self.read_loc(loc, h), v0, None, st, loc)
            if s not in st['shapes'].setdefault(loc, set()):
                st['shapes'][loc].add(s)
                if s != self.rel_shape(v0, v0, None, None, None):
                    new = True
        if new:
            raise Restart()

    # ------------------------------------------------------------ expressions
    def eval(self, e, frame):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e, frame)

    def e_Constant(self, e, frame):
        return e.value

    def e_Name(self, e, frame):
        return self.load(e.id, frame)

    def e_Attribute(self, e, frame):
        return self.getattr(self.eval(e.value, frame), e.attr)

    def e_Tuple(self, e, frame):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate_known(self.eval(x.value, frame)))
            else:
                out.append(self.eval(x, frame))
        return tuple(out)

    def e_List(self, e, frame):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iter_parts(self.eval(x.value, frame)))
            else:
                out.append(self.eval(x, frame))
        return self.mklist(out)

    def e_Set(self, e, frame):
        o = self.alloc(set, 'set', [])
        for x in e.elts:
            self.set_add(o, self.eval(x, frame))
        return o

    def e_Dict(self, e, frame):
        o = self.alloc(dict, 'dict', [])
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.eval(v, frame)
                self.models.dict_update(self, o, src)
            else:
                kk = self.eval(k, frame)
                self.dict_set(o, kk, self.eval(v, frame))
        return o

    def e_IfExp(self, e, frame):
        return self.eval(e.body if self.test(self.eval(e.test, frame)) else e.orelse, frame)

    def e_BoolOp(self, e, frame):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, frame)
            if i == len(e.values) - 1:
                return v
            t = self.test(v)
            if isand and not t:
                return v if not (isinstance(v, Sym) and v.k == 'bool') else False
            if not isand and t:
                return v if not (isinstance(v, Sym) and v.k == 'bool') else True
        return v

    def e_UnaryOp(self, e, frame):
        v = self.eval(e.operand, frame)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            if isinstance(t, bool):
                return not t
            return self.mk(z3.Not(t), 'bool')
        if isinstance(v, Sym):
            if v.k == 'bool':
                v = Sym(z3.If(v.t, z3.IntVal(1), z3.IntVal(0)), 'int')
            if v.k not in ('int', 'real'):
                raise self.pyexc(TypeError, 'bad operand type for unary op')
            if isinstance(e.op, ast.USub):
                return self.mk(-v.t, v.k)
            if isinstance(e.op, ast.UAdd):
                return v
            raise Unsupported('unary op')
        if isinstance(v, HObj):
            raise Unsupported('unary op on object')
        try:
            if isinstance(e.op, ast.USub):
                return -v
            if isinstance(e.op, ast.UAdd):
                return +v
            return ~v
        except Exception as ex:
            raise PyExc(ex)

    def e_Lambda(self, e, frame):
        return self.make_func(e, frame)

    def e_JoinedStr(self, e, frame):
        out = ''
        for v in e.values:
            if isinstance(v, ast.Constant):
                p = v.value
            else:
                x = self.eval(v.value, frame)
                if v.conversion == 114:
                    p = self.models.repr_(self, x)
                else:
                    if v.format_spec is not None:
                        spec = self.eval(v.format_spec, frame)
                        if is_concrete(x) and is_concrete(spec):
                            p = format(x, spec)
                        else:
                            raise Unsupported('format spec')
                    else:
                        p = self.models.str_(self, x)
            out = self.binop('Add', out, p)
        return out

    def e_NamedExpr(self, e, frame):
        v = self.eval(e.value, frame)
        self.assign(e.target, v, frame)
        return v

    def e_Yield(self, e, frame):
        v = self.eval(e.value, frame) if e.value is not None else None
        self.note_write(frame.yields, 'store')
        frame.yields.parts = frame.yields.parts + [v]
        return None

    def e_YieldFrom(self, e, frame):
        ps = self.iter_parts(self.eval(e.value, frame))
        self.note_write(frame.yields, 'store')
        frame.yields.parts = frame.yields.parts + ps
        return None

    def e_Starred(self, e, frame):
        raise Unsupported('starred')

    def e_Call(self, e, frame):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            return self.zero_super(frame)
        f = self.eval(e.func, frame)
        args = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                args.extend(self.iterate_known(self.eval(x.value, frame)))
            else:
                args.append(self.eval(x, frame))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, frame)
                if isinstance(d, dict):
                    kwargs.update(d)
                elif isinstance(d, HObj) and d.kind == 'dict':
                    for en in self.norm(d.parts):
                        if not isinstance(en, Entry) or not isinstance(en.key, str):
                            raise Unsupported('symbolic **kwargs')
                        kwargs[en.key] = en.value
                else:
                    raise Unsupported('**kwargs of %r' % (d,))
            else:
                kwargs[k.arg] = self.eval(k.value, frame)
        saved = self.cur
        self.cur = (e.lineno, e.col_offset)
        try:
            return self.call(f, args, kwargs)
        finally:
            self.cur = saved

    def zero_super(self, frame):
        fr = frame
        while fr is not None:
            f = fr.func
            if f is not None and '__class__' in f.free:
                a = f.node.args
                first = (a.posonlyargs + a.args)[0].arg
                return SuperObj(f.free['__class__'], unlazy(fr.vars[first]))
            fr = fr.parent
        raise Unsupported('super()')

    def e_Compare(self, e, frame):
        left = self.eval(e.left, frame)
        res = None
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r, frame)
            res = self.compare(type(op).__name__, left, right)
            if i < len(e.ops) - 1:
                if not self.test(res):
                    return False
            left = right
        return res

    def boolval(self, c):
        return c if isinstance(c, bool) else self.mk(c, 'bool')

    def compare(self, op, a, b):
        if type(a) is Hole or type(b) is Hole:
            raise Unsupported('value looked at')
        if op == 'Is':
            return self.boolval(self.identical(a, b))
        if op == 'IsNot':
            return self.boolval(self.neg(self.identical(a, b)))
        if op == 'In':
            return self.boolval(self.contains(b, a))
        if op == 'NotIn':
            return self.boolval(self.neg(self.contains(b, a)))
        if op == 'Eq':
            return self.rich_eq(a, b)
        if op == 'NotEq':
            if isinstance(a, HObj):
                m = self.class_lookup(a.cls, '__ne__')
                if isinstance(m, types.FunctionType):
                    r = self.call(Bound(m, a), (b,), {})
                    if r is not NotImplemented:
                        return r
            return self.boolval(self.neg(self.truth(self.rich_eq(a, b))))
        return self.order(op, a, b)

    def rich_eq(self, a, b):
        if isinstance(a, HObj):
            m = self.class_lookup(a.cls, '__eq__')
            if isinstance(m, types.FunctionType):
                r = self.call(Bound(m, a), (b,), {})
                if r is not NotImplemented:
                    return r
        return self.boolval(self.eq(a, b))

    OPS = {'Lt': ('__lt__', '__gt__'), 'Gt': ('__gt__', '__lt__'),
           'LtE': ('__le__', '__ge__'), 'GtE': ('__ge__', '__le__')}

    def order(self, op, a, b):
        if isinstance(a, HObj) or isinstance(b, HObj):
            d, r = self.OPS[op]
            if isinstance(a, HObj):
                m = self.class_lookup(a.cls, d)
                if isinstance(m, types.FunctionType):
                    v = self.call(Bound(m, a), (b,), {})
                    if v is not NotImplemented:
                        return v
            if isinstance(b, HObj):
                m = self.class_lookup(b.cls, r)
                if isinstance(m, types.FunctionType):
                    v = self.call(Bound(m, b), (a,), {})
                    if v is not NotImplemented:
                        return v
            if isinstance(a, HObj) and a.kind == 'charset' and op == 'LtE' and (
                    isinstance(b, (set, frozenset)) or isinstance(b, HObj) and b.kind == "set"):
                return self.models.set_issubset(self, a, b)
            ca = a.cls if isinstance(a, HObj) else type(a)
            cb = b.cls if isinstance(b, HObj) else type(b)
            for t in (list, tuple):
                if issubclass(ca, t) and issubclass(cb, t):
                    vs = [self.iter_parts(x) for x in (a, b)]
                    if any(isinstance(p, (Chunk, MapChunk)) for v in vs for p in v):
                        raise Unsupported('ordering of containers')
                    return self.order(op, tuple(vs[0]), tuple(vs[1]))
            if any(issubclass(ca, t) and issubclass(cb, t) for t in (bytearray, (set, frozenset))):
                raise Unsupported('ordering of containers')
            raise self.pyexc(TypeError, 'unorderable')
        if isinstance(a, Sym) or isinstance(b, Sym):
            ka, kb = self.kind_of(a), self.kind_of(b)
            num = ('int', 'bool', 'real')
            if ka in num and kb in num:
                x, y = self.as_num(a, ka, kb), self.as_num(b, kb, ka)
                if kb == 'bool' and ka == 'bool':
                    pass
                c = {'Lt': x < y, 'Gt': x > y, 'LtE': x <= y, 'GtE': x >= y}[op]
                return self.mk(c, 'bool')
            if ka == kb and ka in ('str', 'bytes'):
                x, y = self.term(a), self.term(b)
                if op in ('Lt', 'Gt'):
                    c = x < y if op == 'Lt' else y < x
                else:
                    c = x <= y if op == 'LtE' else y <= x
                return self.mk(c, 'bool')
            raise self.pyexc(TypeError, "'<' not supported")
        if isinstance(a, tuple) and isinstance(b, tuple) and not (is_concrete(a) and is_concrete(b)):
            n, m = len(a), len(b)
            last = {'Lt': n < m, 'Gt': n > m, 'LtE': n <= m, 'GtE': n >= m}[op]
            if all(self.comparable(x, y) for x, y in zip(a, b)):
                c = last
                for x, y in reversed(list(zip(a, b))):
                    strict = self.truth(self.order(op[:2], x, y))
                    c = self.disj([strict, self.conj([self.eq(x, y), c])])
                return self.boolval(c)
            for x, y in zip(a, b):
                if not self.test(self.boolval(self.eq(x, y))):
                    return self.order(op, x, y)
            return last
        try:
            return {'Lt': lambda: a < b, 'Gt': lambda: a > b,
                    'LtE': lambda: a <= b, 'GtE': lambda: a >= b}[op]()
        except Exception as e:
            raise PyExc(e)

    def comparable(self, x, y):
        num = ('int', 'bool', 'real')
        kx, ky = self.kind_of(x), self.kind_of(y)
        if kx is None or ky is None:
            return isinstance(x, tuple) and isinstance(y, tuple) and \
                all(self.comparable(p, q) for p, q in zip(x, y))
        return kx in num and ky in num or kx == ky and kx in ('str', 'bytes')

    def contains(self, c, x):
        if isinstance(c, HObj):
            m = self.class_lookup(c.cls, '__contains__')
            if isinstance(m, types.FunctionType):
                return self.truth(self.call(Bound(m, c), (x,), {}))
            if c.kind == 'dict':
                return self.dict_find(c, x) is not None
            if c.kind == 'set':
                return self.set_find(c, x) is not None
            if c.kind == 'charset':
                if not isinstance(x, str) or len(x) != 1:
                    raise Unsupported('member of a set of characters')
                return self.contains(c.extra['text'], x)
            if c.kind == 'list' and c.cls is not types.GeneratorType:
                ps = self.parts(c)
                if not any(isinstance(p, (Chunk, MapChunk)) for p in ps):
                    return self.disj([self.eq(p, x) for p in ps])
                return self.find_in(c, lambda y: self.path.decide(self.eq(y, x))) is not None
            it = self.class_lookup(c.cls, '__iter__')
            if it is not None:
                tmp = self.mklist(self.iter_parts(c))
                return self.contains(tmp, x)
            raise self.pyexc(TypeError, 'argument is not iterable')
        kc = self.kind_of(c)
        if kc in ('str', 'bytes') and (isinstance(c, Sym) or isinstance(x, Sym)):
            kx = self.kind_of(x)
            if kc == 'bytes' and kx == 'int':
                raise Unsupported('int in bytes')
            if kx != kc:
                raise self.pyexc(TypeError, 'in <string> requires string')
            from .models import has
            return has(self, c, x)
        if isinstance(c, (tuple, list)):
            return self.disj([self.eq(p, x) for p in c])
        if isinstance(c, (dict, set, frozenset)) and (isinstance(x, (Sym, HObj)) or not is_concrete(x)):
            return self.disj([self.eq(p, x) for p in c])
        if isinstance(c, (Sym, Func, Bound)) or c is None:
            raise self.pyexc(TypeError, 'argument is not iterable')
        m = self.class_lookup(type(c), '__contains__')
        if isinstance(m, types.FunctionType):
            return self.truth(self.call(m, (c, x), {}))
        try:
            return self.lower(x) in c
        except Unsupported:
            raise
        except Exception as e:
            raise PyExc(e)

    def e_BinOp(self, e, frame):
        a = self.eval(e.left, frame)
        b = self.eval(e.right, frame)
        return self.binop(type(e.op).__name__, a, b)

    DUNDER = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__', 'Mod': '__mod__',
              'FloorDiv': '__floordiv__', 'Div': '__truediv__', 'BitOr': '__or__',
              'BitAnd': '__and__', 'BitXor': '__xor__', 'Pow': '__pow__',
              'LShift': '__lshift__', 'RShift': '__rshift__'}

    def binop(self, op, a, b, inplace=False):
        if isinstance(a, HObj):
            if inplace:
                m = self.class_lookup(a.cls, '__i' + self.DUNDER[op][2:])
                if isinstance(m, types.FunctionType):
                    r = self.call(m, (a, b), {})
                    if r is not NotImplemented:
                        return r
                elif m is not None and a.kind == 'list' and op == 'Add':
                    self.models.list_extend(self, a, b)
                    return a
                elif a.cls is bytearray and op == 'Add':
                    self.models.bytearray_extend(self, a, b)
                    return a
                elif m is not None and a.kind == 'dict' and op == 'BitOr':
                    self.models.dict_update(self, a, b)
                    return a
                elif m is not None and a.kind == 'set' and op == 'BitOr':
                    self.models.set_update(self, a, b)
                    return a
            m = self.class_lookup(a.cls, self.DUNDER[op])
            if isinstance(m, types.FunctionType):
                r = self.call(m, (a, b), {})
                if r is not NotImplemented:
                    return r
            if a.kind == 'list' and op == 'Add':
                if not self.isinstance_(b, (tuple if issubclass(a.cls, tuple) else list)):
                    raise self.pyexc(TypeError, 'can only concatenate list')
                return self.mklist(list(self.parts(a)) + list(self.iter_parts(b)),
                                   tuple if issubclass(a.cls, tuple) else list)
            if a.kind == 'set' and op in ('BitOr', 'Sub', 'BitAnd'):
                return self.models.set_binop(self, op, a, b)
            if a.kind == 'dict' and op == 'BitOr':
                return self.models.dict_or(self, a, b)
            raise Unsupported('operator %s on %s' % (op, a.cls.__name__))
        if isinstance(b, HObj):
            m = self.class_lookup(b.cls, '__r' + self.DUNDER[op][2:])
            if isinstance(m, types.FunctionType):
                return self.call(m, (b, a), {})
            if isinstance(a, list) and b.kind == 'list' and op == 'Add':
                return self.mklist(list(a) + list(self.parts(b)))
            if isinstance(a, str) and op == 'Mod':
                return self.models.percent(self, a, b)
            if isinstance(a, (set, frozenset)) and b.kind == 'set':
                return self.models.set_binop(self, op, self.lift(a), b)
            if self.kind_of(a) is not None:
                raise self.pyexc(TypeError, 'unsupported operand types')
            raise Unsupported('operator %s' % op)
        if op == 'Mod' and self.kind_of(a) in ('str', 'bytes'):
            if is_concrete(a) and is_concrete(b):
                try:
                    return a % b
                except Exception as e:
                    raise PyExc(e)
            return self.models.percent(self, a, b)
        if isinstance(a, Sym) or isinstance(b, Sym):
            return self.binop_sym(op, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and op == 'Add':
            return a + b
        if isinstance(a, list) and op == 'Add':
            return self.mklist(list(a) + list(b))
        if isinstance(a, (list, dict, set)) and inplace:
            raise Unsupported('mutation of a native container')
        import operator
        f = {'Add': operator.add, 'Sub': operator.sub, 'Mult': operator.mul, 'Mod': operator.mod,
             'FloorDiv': operator.floordiv, 'Div': operator.truediv, 'BitOr': operator.or_,
             'BitAnd': operator.and_, 'BitXor': operator.xor, 'Pow': operator.pow,
             'LShift': operator.lshift, 'RShift': operator.rshift}[op]
        if not (is_concrete(a) and is_concrete(b)):
            if isinstance(a, (Func, Bound)) or isinstance(b, (Func, Bound)):
                raise self.pyexc(TypeError, 'unsupported operand')
        try:
            return f(a, b)
        except Exception as e:
            raise PyExc(e)

    def binop_sym(self, op, a, b):
        ka, kb = self.kind_of(a), self.kind_of(b)
        num = ('int', 'bool', 'real')
        if ka in num and kb in num:
            k = 'real' if 'real' in (ka, kb) or op == 'Div' else 'int'
            x, y = self.as_num(a, ka, k), self.as_num(b, kb, k)
            if op == 'Add':
                return self.mk(x + y, k)
            if op == 'Sub':
                return self.mk(x - y, k)
            if op == 'Mult':
                return self.mk(x * y, k)
            if op in ('FloorDiv', 'Mod') and k == 'int':
                if not isinstance(b, int) or b <= 0:
                    if self.path.decide(y == 0):
                        raise self.pyexc(ZeroDivisionError)
                    if not self.path.decide(y > 0):
                        raise Unsupported('division by negative')
                return self.mk(x / y if op == 'FloorDiv' else x % y, 'int')
            if op == 'Div':
                if self.path.decide(y == 0):
                    raise self.pyexc(ZeroDivisionError)
                return self.mk(x / y, 'real')
            raise Unsupported('numeric operator %s' % op)
        if op == 'Add' and ka == kb and ka in ('str', 'bytes'):
            return self.mk(z3.Concat(self.term(a), self.term(b)), ka)
        if op == 'Mult' and ka in ('str', 'bytes') and kb == 'int':
            raise Unsupported('string repetition')
        if ka is None and kb is None:
            raise Unsupported('operator %s' % op)
        raise self.pyexc(TypeError, 'unsupported operand types for %s' % op)

    # ---------------------------------------------------------- subscripting
    def eval_slice(self, s, frame):
        if isinstance(s, ast.Slice):
            return slice(self.eval(s.lower, frame) if s.lower else None,
                         self.eval(s.upper, frame) if s.upper else None,
                         self.eval(s.step, frame) if s.step else None)
        return self.eval(s, frame)

    def e_Subscript(self, e, frame):
        return self.getitem(self.eval(e.value, frame), self.eval_slice(e.slice, frame))

    def getitem(self, o, i):
        if isinstance(o, HObj):
            m = self.class_lookup(o.cls, '__getitem__')
            if isinstance(m, types.FunctionType):
                return self.call(m, (o, i), {})
            if o.kind == 'dict':
                return self.models.dict_getitem(self, o, i)
            if o.kind == 'list' and o.cls is not types.GeneratorType:
                return self.models.list_getitem(self, o, i)
            raise self.pyexc(TypeError, 'object is not subscriptable')
        if isinstance(o, Sym) or (isinstance(o, (str, bytes)) and not is_concrete(i if not isinstance(i, slice) else (i.start, i.stop, i.step))):
            if self.kind_of(o) in ('str', 'bytes'):
                return self.models.str_getitem(self, o, i)
            raise self.pyexc(TypeError, 'object is not subscriptable')
        if isinstance(o, dict) and not isinstance(o, HObj):
            if isinstance(i, (Sym, HObj)) or not is_concrete(i):
                for k in o:
                    if self.path.decide(self.eq(k, i)):
                        return o[k]
                raise self.pyexc(KeyError, i)
        if isinstance(o, tuple) and isinstance(i, Sym):
            return self.models.list_getitem(self, HObj(tuple, 'list', list(o)), i)
        if isinstance(o, (Func, Bound)):
            raise self.pyexc(TypeError, 'not subscriptable')
        if isinstance(i, slice) and isinstance(o, list):
            return self.mklist(o[self.lower_slice(i)])
        m = self.class_lookup(type(o), '__getitem__')
        if isinstance(m, types.FunctionType):
            return self.call(m, (o, i), {})
        try:
            return o[self.lower_slice(i) if isinstance(i, slice) else self.lower(i)]
        except Unsupported:
            raise
        except Exception as e:
            raise PyExc(e)

    def lower_slice(self, i):
        return slice(self.lower(i.start), self.lower(i.stop), self.lower(i.step))

    def setitem(self, o, i, v):
        if isinstance(o, HObj):
            m = self.class_lookup(o.cls, '__setitem__')
            if isinstance(m, types.FunctionType):
                self.call(m, (o, i, v), {})
                return
            if o.kind == 'dict':
                self.dict_set(o, i, v)
                if o.extra and 'attrs_of' in o.extra:
                    if not isinstance(i, str):
                        raise Unsupported('__dict__ with symbolic name')
                    self.note_write(o.extra['attrs_of'], i)
                    o.extra['attrs_of'].attrs[i] = v
                return
            if o.kind == 'list':
                self.models.list_setitem(self, o, i, v)
                return
            raise self.pyexc(TypeError, 'item assignment')
        if isinstance(o, (list, dict)):
            raise Unsupported('mutation of a native container')
        raise self.pyexc(TypeError, "object does not support item assignment")

    def delitem(self, o, i):
        if isinstance(o, HObj):
            m = self.class_lookup(o.cls, '__delitem__')
            if isinstance(m, types.FunctionType):
                self.call(m, (o, i), {})
                return
            if o.kind == 'dict':
                if self.dict_del(o, i) is None:
                    raise self.pyexc(KeyError, i)
                return
            if o.kind == 'list':
                self.models.list_delitem(self, o, i)
                return
        raise Unsupported('del item')

    # --------------------------------------------------------- comprehensions
    def e_ListComp(self, e, frame):
        return self.mklist(self.comp_parts(e, e.elt, frame))

    def e_GeneratorExp(self, e, frame):
        # evaluated eagerly; the generator's own laziness is dropped
        g = self.mklist([], types.GeneratorType)
        first = self.eval(e.generators[0].iter, frame)
        g.extra = {'thunk': lambda: self.comp_parts(e, e.elt, frame, first)}
        return g

    def e_SetComp(self, e, frame):
        o = self.alloc(set, 'set', [])
        for p in self.comp_parts(e, e.elt, frame):
            if isinstance(p, (Chunk, MapChunk)):
                o.parts = o.parts + [p]
            else:
                self.set_add(o, p)
        return o

    def e_DictComp(self, e, frame):
        o = self.alloc(dict, 'dict', [])
        pair = ast.Tuple(elts=[e.key, e.value], ctx=ast.Load(), lineno=e.lineno, col_offset=e.col_offset)
        parts = self.comp_parts(e, pair, frame)
        if any(isinstance(p, (Chunk, MapChunk)) for p in parts):
            o.parts = self.entry_parts(parts)
        else:
            for p in parts:
                self.dict_set(o, p[0], p[1])
        return o

    def comp_parts(self, e, elt, frame, first=_missing):
        cf = Frame(None, snapshot(frame), frame.globs, frame.depth)
        cf.start_seq = self.path.next_seq()
        cf.func = None
        return self.comp_gen(list(e.generators), elt, cf, first)

    def comp_gen(self, gens, elt, cf, first=_missing):
        if not gens:
            return [self.eval(elt, cf)]
        g = gens[0]
        it = self.eval(g.iter, cf) if first is _missing else first
        parts = self.iter_parts(it)

        def fn(x):
            sub = Frame(None, cf.parent, cf.globs, cf.depth)
            sub.vars.update(cf.vars)
            sub.start_seq = self.path.next_seq()
            self.assign(g.target, x, sub)
            for c in g.ifs:
                if not self.test(self.eval(c, sub)):
                    return []
            return self.comp_gen(gens[1:], elt, sub)
        return self.map_parts(parts, fn, one=len(gens) == 1 and not g.ifs)

    def map_parts(self, parts, fn, label='comp', one=False):
        out = []
        pending = list(parts)
        while pending:
            p = pending.pop(0)
            if isinstance(p, (Chunk, MapChunk)):
                sub = self.norm([p])
                if not (len(sub) == 1 and sub[0] is p):
                    pending = sub + pending
                    continue
                out.append(self.summarise(p, fn, label, one))
            else:
                out.extend(fn(p))
        return out

    def summarise(self, p, fn, label, one=False):
        """MapChunk for fn over chunk p, after checking that fn does not
        raise and writes nothing that existed before."""
        path = self.path
        if isinstance(p, MapChunk):
            base, inner = p.base, p
            f = lambda x: [o for y in inner.outs(x) for o in fn(y)]
            one = one and p.total
        else:
            base, f = p, fn
        created = path.next_seq()

        def total(x):
            saved, began = path.lazy_since, path.lazy_start
            path.lazy_since = created if saved is None else min(created, saved)
            path.lazy_start = path.seq
            try:
                start = path.seq
                return self.made(f(x), start)
            except PyExc:
                raise PathEnd()
            finally:
                path.lazy_since, path.lazy_start = saved, began
        m = MapChunk(path, base, total, label=label, total=one)
        self.maps.append(m)
        if path.choose(2) == 1:
            path.assume(base.len > 0)
            D, x, R = self.split(base)
            ctx = self.context()
            self.loops.append(ctx)
            try:
                f(x)      # an exception here propagates: that is a path of the program
            finally:
                self.loops.remove(ctx)
            if ctx['writes']:
                raise Unsupported('comprehension with side effects')
            raise PathEnd()
        return m


def base_of(c):
    return c.base if isinstance(c, MapChunk) else c


def c_absent(c):
    return [f.absent for f in c.facts if hasattr(f, 'absent')]
