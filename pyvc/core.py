"""Symbolic values, paths, solver access."""
import re
import subprocess
import time
import z3

from . import rope


class Unsupported(Exception):
    """The construct is outside what the verifier understands."""


class PathEnd(Exception):
    """This path is closed."""


class Restart(Exception):
    """Loop information changed: the exploration must start again."""


class PyExc(Exception):
    """A Python exception raised by the interpreted program."""
    def __init__(self, value):
        self.value = value

    @property
    def cls(self):
        return self.value.cls if isinstance(self.value, HObj) else type(self.value)


class Return(Exception):
    def __init__(self, value):
        self.value = value


class Break(Exception):
    pass


class Continue(Exception):
    pass


TokSort = z3.DeclareSort('Tok')
StrS = z3.StringSort()
SORTS = {
    'int': z3.IntSort(), 'bool': z3.BoolSort(), 'real': z3.RealSort(),
    'str': StrS, 'bytes': StrS, 'tok': TokSort,
}
PYTYPES = {'int': int, 'bool': bool, 'real': float, 'str': str, 'bytes': bytes}


class Sym(object):
    __slots__ = ('t', 'k', 'pytype')

    def __init__(self, t, k, pytype=None):
        self.t = t
        self.k = k
        self.pytype = pytype or PYTYPES.get(k)

    def __repr__(self):
        return 'Sym<%s %s>' % (self.k, self.t)

    def __bool__(self):
        raise Unsupported('python truth of a symbolic value in the engine')

    def __eq__(self, other):
        return self is other or (
            isinstance(other, Sym) and self.k == other.k and self.t.eq(other.t))

    def __hash__(self):
        return hash((self.k, self.t.hash()))


class Chunk(object):
    """An unknown number of unknown elements."""
    def __init__(self, path, factory, facts=(), label='xs'):
        self.path = path
        self.factory = factory
        self.facts = list(facts)
        self.split = None
        self.probe = None           # an arbitrary element
        self.sums = []              # [(value of the probe, total)]
        self.group = None           # Group
        self.label = label
        self.len = path.fresh_term('len_' + label, 'int')
        path.assume(self.len >= 0)

    def __repr__(self):
        return 'Chunk<%s>' % self.label


class Group(object):
    """Chunks whose elements all differ in a key."""
    def __init__(self, chunk, keyof):
        self.live = [chunk]
        self.keyof = keyof


class MapChunk(object):
    """fn applied to every element of base, results concatenated."""
    def __init__(self, path, base, fn, memo=None, label='map', total=False, keyed=False):
        self.total = total          # exactly one result per element
        self.keyed = keyed          # Entry for Entry, with the same key
        self.path = path
        self.base = base
        self.fn = fn
        self.memo = {} if memo is None else memo
        self.label = label
        self._len = None
        path.allmaps.append(self)

    @property
    def len(self):
        if self._len is None:
            if self.total:
                return self.base.len
            self._len = self.path.fresh_term('len_' + self.label, 'int')
            self.path.inexact.append('length of a mapped list')
            self.path.assume(self._len >= 0)
        return self._len

    def outs(self, x):
        k = id(x)
        if k not in self.memo:
            self.memo[k] = (self.fn(x), x)
        return self.memo[k][0]


class Entry(object):
    __slots__ = ('key', 'value')

    def __init__(self, key, value):
        self.key = key
        self.value = value


class HObj(object):
    __slots__ = ('cls', 'attrs', 'kind', 'parts', 'seq', 'site', 'extra', 'wseq', 'havoc', 'elem', 'mapped')

    def __init__(self, cls, kind=None, parts=None):
        self.cls = cls
        self.attrs = {}
        self.kind = kind            # None | 'list' | 'dict' | 'set'
        self.parts = parts
        self.seq = 0
        self.wseq = {}              # attribute or 'store' -> when last written
        self.site = None
        self.extra = None
        self.elem = False           # (part of) an element of a list of unknown length
        self.mapped = False         # made from an element by a delayed comprehension or loop
        self.havoc = False          # stands for an object not known to be new

    def __repr__(self):
        return 'HObj<%s %s>' % (self.cls.__name__,
                                self.parts if self.kind else sorted(self.attrs))


def zstr(s):
    if isinstance(s, (bytes, bytearray)):
        s = bytes(s).decode('latin1')
    return z3.StringVal(s)


def unescape(s):
    return re.sub(r'\\u\{([0-9a-fA-F]+)\}|\\u([0-9a-fA-F]{4})|\\x([0-9a-fA-F]{2})',
                  lambda m: chr(int(m.group(1) or m.group(2) or m.group(3), 16)), s)


class Stats(object):
    def __init__(self):
        self.solver_s = 0.0
        self.queries = 0
        self.by = {}
        self.cvc5_calls = 0


def bound(c):
    """(x, True, n) for the condition x >= n of an int constant x, (x, False, n) for x <= n, or None."""
    if not z3.is_app(c) or c.num_args() != 2:
        return None
    kind = c.decl().kind()
    if kind not in (z3.Z3_OP_LE, z3.Z3_OP_GE):
        return None
    a, b = c.arg(0), c.arg(1)
    if z3.is_int_value(b) and z3.is_const(a) and not z3.is_int_value(a):
        return a, kind == z3.Z3_OP_GE, b.as_long()
    if z3.is_int_value(a) and z3.is_const(b) and not z3.is_int_value(b):
        return b, kind == z3.Z3_OP_LE, a.as_long()
    return None


class Path(object):
    BRANCH_MS = 2500
    OBL_MS = 12000
    CVC5_S = 20

    def __init__(self, ex, prefix):
        self.ex = ex
        self.prefix = prefix
        self.taken = []
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set('timeout', self.BRANCH_MS)
        self.counter = {}
        self.seq = 0
        self.draws = []
        self.inexact = []       # reasons why the path over-approximates
        self.bounded = []       # reasons why the path under-approximates
        self.trace = []
        self.ufs_seen = set()
        self.facts = rope.Facts()
        self.lazy_since = None      # when the delayed computation under way was written down
        self.lazy_start = None      # when it was begun
        self.allmaps = []
        self.deferred = []
        self.defs = []          # string constants known equal to a term
        self.joins = []         # lists of unknown length that were joined
        self.cuts = []          # pieces of text cut in two
        self.known = {}         # atoms already decided: ast id -> (value, atom)
        self.bounds = {}        # ints with known bounds: ast id -> [low, high, term]

    # names ------------------------------------------------------------
    def fresh_name(self, name):
        n = self.counter.get(name, 0)
        self.counter[name] = n + 1
        return '%s!%d' % (name, n) if n else name

    def fresh_term(self, name, kind):
        return z3.Const(self.fresh_name(name), SORTS[kind])

    def fresh(self, name, kind, pytype=None):
        t = self.fresh_term(name, kind)
        if kind == 'bytes':
            self.later(z3.InRe(t, z3.Star(z3.Range(z3.StringVal('\x00'), z3.StringVal('\xff')))))
        return Sym(t, kind, pytype)

    # conditions ---------------------------------------------------------
    def later(self, c):
        """Assume c, but show it to the solver only where an obligation does
        not go through without it."""
        self.deferred.append(c)

    def assume(self, c):
        if c is True:
            return
        if c is False:
            raise PathEnd()
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathEnd()
        self.pc.append(c)
        self.solver.add(c)
        self.define(c)
        self.learn(c, True)

    def define(self, c):
        """Record x == t (x a string constant not in t) for rewriting."""
        if not z3.is_eq(c):
            return
        for x, t in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
            if x.sort() != z3.StringSort():
                return
            if not (z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED):
                continue
            if any(x.eq(y) for y, _ in self.defs):
                continue
            t = self.rewrite(t)
            if occurs(x, t):
                continue
            self.defs.append((x, t))
            return

    def rewrite(self, c):
        for _ in range(8):
            d = z3.substitute(c, *self.defs) if self.defs else c
            if d.eq(c):
                break
            c = d
        return c

    def by_rewriting(self, c):
        return bool(self.defs) and z3.is_true(z3.simplify(self.rewrite(c)))

    def _check(self, *extra):
        t0 = time.time()
        r = self.solver.check(*extra)
        self.ex.stats.solver_s += time.time() - t0
        self.ex.stats.queries += 1
        return r

    def prune(self):
        if len(self.taken) >= len(self.prefix):
            if self._check() == z3.unsat:
                raise PathEnd()

    nofork = False              # evaluating for an arbitrary element: no case distinctions

    def choose(self, n):
        if self.nofork:
            raise Unsupported('depends on the element')
        pos = len(self.taken)
        if pos < len(self.prefix):
            d = self.prefix[pos]
            self.taken.append(d)
            return d
        for alt in range(n - 1, 0, -1):
            self.ex.push(self.taken + [alt])
        self.taken.append(0)
        return 0

    def decide(self, c):
        """Branch on a z3 Bool (or python bool)."""
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = self.settled(c)
        if k is not None:
            return k
        if self.nofork:
            if self._check(z3.Not(c)) == z3.unsat:
                return True
            if self._check(c) == z3.unsat:
                return False
            raise Unsupported('depends on the element')
        pos = len(self.taken)
        if pos < len(self.prefix):
            d = self.prefix[pos]
            self.taken.append(d)
            d = bool(d)
            self.pc.append(c if d else z3.Not(c))
            self.solver.add(self.pc[-1])
            self.learn(c, d)
            return d
        nc = z3.Not(c)
        t = self._check(c)
        f = self._check(nc) if t != z3.unsat else z3.sat
        if t == z3.unsat and f != z3.sat:
            raise PathEnd()
        if t == z3.unsat:
            d = False
        elif f == z3.unsat:
            d = True
        else:
            self.ex.push(self.taken + [0])
            d = True
        self.taken.append(1 if d else 0)
        self.pc.append(c if d else nc)
        self.solver.add(self.pc[-1])
        self.learn(c, d)
        return d

    def settled(self, c):
        """The value of a condition that follows from an atom already decided."""
        flip = False
        while z3.is_not(c):
            c, flip = c.arg(0), not flip
        k = self.known.get(c.get_id())
        if k is not None:
            return k[0] != flip
        b = bound(c)
        if b is not None:
            x, lower, n = b
            have = self.bounds.get(x.get_id())
            if have is not None:
                lo, hi = have[0], have[1]
                if lower:
                    # x >= n
                    if lo is not None and lo >= n:
                        return not flip
                    if hi is not None and hi < n:
                        return flip
                else:
                    # x <= n
                    if hi is not None and hi <= n:
                        return not flip
                    if lo is not None and lo > n:
                        return flip
        return None

    def learn(self, c, d):
        """Remember what is decided, and for string rewriting which characters do not occur."""
        while z3.is_not(c):
            c, d = c.arg(0), not d
        if not z3.is_app(c):
            return
        self.known[c.get_id()] = (d, c)
        b = bound(c)
        if b is not None:
            x, lower, n = b
            if not d:
                lower, n = not lower, n - 1 if lower else n + 1
            have = self.bounds.setdefault(x.get_id(), [None, None, x])
            if lower:
                have[0] = n if have[0] is None else max(n, have[0])
            else:
                have[1] = n if have[1] is None else min(n, have[1])
        kind = c.decl().kind()
        if kind == z3.Z3_OP_SEQ_CONTAINS and not d and z3.is_string_value(c.arg(1)):
            ch = rope.unlit(c.arg(1))
            if len(ch) == 1:
                for p in rope.flatten(c.arg(0)):
                    if not isinstance(p, str):
                        self.facts.add_excl(p, ch)
        elif kind == z3.Z3_OP_EQ and d and c.arg(0).sort() == z3.StringSort():
            for x, t in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
                if z3.is_string_value(t) and z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    self.facts.set_value(x, rope.unlit(t))
        elif kind == z3.Z3_OP_AND and d or kind == z3.Z3_OP_OR and not d:
            for i in range(c.num_args()):
                self.learn(c.arg(i), d)

    def entails(self, c):
        """True/False/None(unknown)."""
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c) or self.by_rewriting(c):
            return True
        r = self._check(z3.Not(c))
        if r == z3.unsat:
            return True
        if r == z3.sat:
            return False
        return None

    def prove(self, c):
        """('discharged', backend) | ('refuted', model) | ('unknown', reason)"""
        if c is True:
            return ('discharged', 'simplifier', None)
        neg = z3.BoolVal(True) if c is False else z3.Not(c)
        neg = z3.simplify(neg)
        if z3.is_false(neg) or (c is not False and self.by_rewriting(c)):
            return ('discharged', 'simplifier', None)
        t0 = time.time()
        try:
            r = self._check(neg)
            if r == z3.unsat:
                return ('discharged', 'z3', None)
            if r == z3.sat and not self.deferred:
                return ('refuted', 'z3', self.solver.model())
            s = z3.Solver()
            s.set('timeout', self.OBL_MS)
            for p in self.pc + self.deferred:
                s.add(p)
            s.add(neg)
            r = s.check()
            self.ex.stats.queries += 1
            if r == z3.unsat:
                return ('discharged', 'z3', None)
            if r == z3.sat:
                return ('refuted', 'z3', s.model())
            r = self.cvc5(s)
            if r == 'unsat':
                return ('discharged', 'cvc5', None)
            if r == 'sat':
                return ('refuted', 'cvc5', None)
            return ('unknown', 'z3+cvc5', None)
        finally:
            self.ex.stats.solver_s += 0

    def cvc5(self, s):
        self.ex.stats.cvc5_calls += 1
        t0 = time.time()
        text = '(set-logic ALL)\n' + s.to_smt2()
        try:
            p = subprocess.run(
                ['cvc5', '--strings-exp', '--lang=smt2', '--tlimit=%d' % (self.CVC5_S * 1000)],
                input=text, capture_output=True, text=True, timeout=self.CVC5_S + 10)
            out = p.stdout.strip().splitlines()
            return out[0].strip() if out else 'unknown'
        except (subprocess.TimeoutExpired, OSError):
            return 'unknown'
        finally:
            self.ex.stats.solver_s += time.time() - t0

    # heap ---------------------------------------------------------------
    def next_seq(self):
        self.seq += 1
        return self.seq


def occurs(x, t):
    stack = [t]
    while stack:
        y = stack.pop()
        if y.eq(x):
            return True
        stack.extend(y.children())
    return False


def model_value(model, v):
    """Concrete Python value of a drawn value in a model."""
    if isinstance(v, Sym):
        if v.k == 'tok':
            return str(model.eval(v.t, model_completion=True))
        r = model.eval(v.t, model_completion=True)
        if v.k == 'int':
            return r.as_long()
        if v.k == 'bool':
            return z3.is_true(r)
        if v.k == 'real':
            return float(r.numerator_as_long()) / float(r.denominator_as_long())
        s = unescape(r.as_string())
        if v.k == 'bytes':
            return s.encode('latin1', 'replace')
        return s
    return v
