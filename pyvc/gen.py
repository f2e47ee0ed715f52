"""Sources of argument values: symbolic (for proofs), random and replayed (for
evaluating the same contracts against the real code)."""
import base64
import random
import z3

from .core import Group, Sym, Chunk, HObj, Entry, PathEnd, Unsupported, zstr
from .interp import UFunc
from .vlib import Reject, ContractFailure, Tok


class _List(object):
    def __repr__(self):
        return 'LIST'


LIST = _List()      # a drawn list of unknown length: has no single concrete value


class SymGen(object):
    _pyvc_gen = True
    native = False

    def __init__(self, I):
        self.I = I
        self.in_chunk = 0
        fixed = getattr(I.ex, 'fixed', None)
        self.fixed = None if fixed is None else list(fixed)

    # scalars
    def _rec(self, name, v):
        if self.fixed is not None and isinstance(v, (Sym, UFunc)):
            c = self.fixed.pop(0)
            if isinstance(v, UFunc):
                raise Unsupported('fixed ufunc')
            if v.k == 'tok':
                for c2, v2 in self.__dict__.setdefault('_toks', []):
                    self.I.path.assume((v.t == v2.t) if c == c2 else (v.t != v2.t))
                self._toks.append((c, v))
            else:
                self.I.path.assume(self.I.eq(v, c))
        if not self.in_chunk:
            self.I.path.draws.append((name, v))
        return v

    def _choose(self, n):
        if self.fixed is not None:
            return int(self.fixed.pop(0))
        return self.I.path.choose(n)

    def int(self, name, lo=None, hi=None, hints=()):
        v = self.I.path.fresh(name, 'int')
        if lo is not None:
            self.I.path.assume(v.t >= lo)
        if hi is not None:
            self.I.path.assume(v.t <= hi)
        return self._rec(name, v)

    def bool(self, name):
        return self._rec(name, self.I.path.fresh(name, 'bool'))

    def real(self, name, lo=None, hi=None, hints=()):
        v = self.I.path.fresh(name, 'real')
        if lo is not None:
            self.I.path.assume(v.t >= self.I.term(float(lo)))
        if hi is not None:
            self.I.path.assume(v.t <= self.I.term(float(hi)))
        return self._rec(name, v)

    def str(self, name, alphabet=None, hints=(), max=None, only=None, without=None,
            nonempty=False):
        v = self.I.path.fresh(name, 'str')
        self._shape(v, without, nonempty)
        if only is not None:
            self.I.path.later(z3.InRe(v.t, z3.Star(charset(only))))
            self.I.path.facts.set_only(v.t, expand(only))
        return self._rec(name, v)

    def bytes(self, name, alphabet=None, hints=(), max=None, without=None, nonempty=False):
        v = self.I.path.fresh(name, 'bytes')
        self._shape(v, without, nonempty)
        return self._rec(name, v)

    def _shape(self, v, without, nonempty):
        if without:
            if not isinstance(without, str):
                without = without.decode('latin1')
            self.I.path.facts.add_excl(v.t, without)
            self.I.path.later(z3.InRe(v.t, z3.Star(charset_without(without))))
        if nonempty:
            self.I.path.facts.set_nonempty(v.t)
            self.I.path.assume(z3.Length(v.t) > 0)

    def tok(self, name):
        return self._rec(name, self.I.path.fresh(name, 'tok'))

    def choice(self, name, options):
        opts = self.I.iterate_known(options)
        i = self._choose(len(opts))
        self._rec(name, i)
        return opts[i]

    def opt(self, name, fn):
        i = self._choose(2)
        self._rec(name, i)
        return None if i == 0 else self.I.call(fn, (self,), {})

    def oneof(self, name, *fns):
        i = self._choose(len(fns))
        self._rec(name, i)
        return self.I.call(fns[i], (self,), {})

    def list(self, name, fn, max=4, min=0, distinct=None):
        if self.I.ex.mode == 'bounded':
            hi = self.I.ex.listmax if self.I.ex.listmax < max else max
            n = self._choose(0) if self.fixed is not None else (
                min + self.I.path.choose(hi + 1 - min) if hi > min else min)
            self._rec(name + '.len', n)
            xs = [self.I.call(fn, (self,), {}) for _ in range(n)]
            if distinct is not None:
                ks = [self.I.call(distinct, (x,), {}) for x in xs]
                for i, k in enumerate(ks):
                    for m in ks[:i]:
                        self.I.path.assume(self.I.neg(self.I.eq(k, m)))
            return self.I.mklist(xs)

        def factory():
            self.in_chunk += 1
            try:
                return self.I.call(fn, (self,), {})
            finally:
                self.in_chunk -= 1
        self.I.path.draws.append((name, LIST))
        c = Chunk(self.I.path, factory, label=name)
        if min:
            self.I.path.assume(c.len >= min)
        if distinct is not None:
            c.group = Group(c, lambda x: self.I.call(distinct, (x,), {}))
        return self.I.mklist([c])

    def dict(self, name, keyfn, valfn, max=4):
        """A dict with distinct keys."""
        I = self.I
        if I.ex.mode == 'bounded':
            hi = I.ex.listmax if I.ex.listmax < max else max
            n = self._choose(0) if self.fixed is not None else I.path.choose(hi + 1)
            self._rec(name + '.len', n)
            o = I.alloc(dict, 'dict', [])
            for _ in range(n):
                k = I.call(keyfn, (self,), {})
                v = I.call(valfn, (self,), {})
                for e in o.parts:
                    I.path.assume(I.neg(I.eq(e.key, k)))
                o.parts = o.parts + [Entry(k, v)]
            return o

        def factory():
            self.in_chunk += 1
            try:
                return Entry(I.call(keyfn, (self,), {}), I.call(valfn, (self,), {}))
            finally:
                self.in_chunk -= 1
        I.path.draws.append((name, LIST))
        c = Chunk(I.path, factory, label=name)
        c.group = Group(c, lambda e: e.key)
        return I.alloc(dict, 'dict', [c])

    def ufunc(self, name, argkinds, reskind):
        f = UFunc(self.I.path, name, tuple(self.I.iterate_known(argkinds)), reskind)
        self._rec(name, f)
        return f

    # logic
    def assume(self, c):
        t = self.I.truth(c)
        self.I.path.assume(t)
        self.I.path.prune()

    def check(self, c, label):
        self.I.ex.obligation(self.I, self.I.truth(c), label)

    def cover(self, label):
        self.I.ex.covered.add(label)

    def seed(self, name):
        raise Unsupported('native-only draw')


def charset(chars):
    """Regex for one of the characters; 'a-z' ranges allowed."""
    parts = []
    i = 0
    while i < len(chars):
        if i + 2 < len(chars) and chars[i + 1] == '-':
            parts.append(z3.Range(z3.StringVal(chars[i]), z3.StringVal(chars[i + 2])))
            i += 3
        else:
            parts.append(z3.Re(z3.StringVal(chars[i])))
            i += 1
    return z3.Union(*parts) if len(parts) > 1 else parts[0]


def charset_without(chars):
    lo = 0
    parts = []
    for c in sorted(set(map(ord, chars))) + [0x30000]:
        if lo <= c - 1:
            parts.append(z3.Range(zstr(chr(lo)), zstr(chr(c - 1))))
        lo = c + 1
    return z3.Union(*parts) if len(parts) > 1 else parts[0]


def expand(chars):
    out = []
    i = 0
    while i < len(chars):
        if i + 2 < len(chars) and chars[i + 1] == '-':
            out.extend(chr(c) for c in range(ord(chars[i]), ord(chars[i + 2]) + 1))
            i += 3
        else:
            out.append(chars[i])
            i += 1
    return ''.join(out)


class UF(object):
    """A deterministic arbitrary function (native)."""
    def __init__(self, seed, reskind):
        self.seed = seed
        self.reskind = reskind
        self.memo = {}

    def __call__(self, *args):
        if args not in self.memo:
            r = random.Random(repr((self.seed, args)))
            self.memo[args] = {
                'bool': lambda: r.random() < 0.5,
                'int': lambda: r.randint(-2, 5),
                'str': lambda: ''.join(r.choice('abA.-') for _ in range(r.randint(0, 3))),
                'bytes': lambda: bytes(r.choice(b'abA.') for _ in range(r.randint(0, 3))),
                'real': lambda: r.choice([0.0, 0.25, 0.5, 1.0]),
            }[self.reskind]()
        return self.memo[args]


DEFAULT_ALPHABET = 'abcABZ019 -_.,;:=/"\'\\%*?&#+\t\r\n\x00\x7f\xe9\xff\u20ac\U0001f600'


class NativeGen(object):
    native = True
    in_chunk = 0

    def __init__(self):
        self.log = []
        self.checks = 0
        self.toks = {}
        self.covered = set()

    def _rec(self, name, v):
        self.log.append((name, v))
        return v

    def int(self, name, lo=None, hi=None, hints=()):
        return self._rec(name, self._int(name, lo, hi, hints))

    def bool(self, name):
        return self._rec(name, self._choose(name, 2) == 1)

    def real(self, name, lo=None, hi=None, hints=()):
        return self._rec(name, self._real(name, lo, hi, hints))

    def str(self, name, alphabet=None, hints=(), max=None, only=None, without=None,
            nonempty=False):
        v = self._str(name, alphabet, hints, max, only)
        return self._rec(name, self._fit(v, without, nonempty))

    def bytes(self, name, alphabet=None, hints=(), max=None, without=None, nonempty=False):
        v = self._bytes(name, alphabet, hints, max)
        return self._rec(name, self._fit(v, without, nonempty))

    def _fit(self, v, without, nonempty):
        if without and any(c in v for c in without):
            if isinstance(v, str):
                v = self._cleaned(v, ''.join(c for c in v if c not in without))
            else:
                v = self._cleaned(v, bytes(c for c in v if c not in without))
        if nonempty and not v:
            raise Reject('empty')
        return v

    def _cleaned(self, v, w):
        return w

    def tok(self, name):
        i = self._choose(name, 4)
        self.log.append((name, i))
        return self.toks.setdefault(i, Tok('t%d' % i))

    def choice(self, name, options):
        options = list(options)
        i = self._choose(name, len(options))
        self.log.append((name, i))
        return options[i]

    def opt(self, name, fn):
        i = self._choose(name, 2)
        self.log.append((name, i))
        return None if i == 0 else fn(self)

    def oneof(self, name, *fns):
        i = self._choose(name, len(fns))
        self.log.append((name, i))
        return fns[i](self)

    def list(self, name, fn, max=4, min=0, distinct=None):
        n = self._len(name, min, max)
        self.log.append((name + '.len', n))
        xs = [fn(self) for _ in range(n)]
        if distinct is not None and len({distinct(x) for x in xs}) != n:
            raise Reject()
        return xs

    def dict(self, name, keyfn, valfn, max=4):
        n = self._len(name, 0, max)
        self.log.append((name + '.len', n))
        d = {}
        for _ in range(n):
            k = keyfn(self)
            v = valfn(self)
            if k in d:
                raise Reject()
            d[k] = v
        return d

    def ufunc(self, name, argkinds, reskind):
        s = self._seed(name)
        self.log.append((name, s))
        return UF(s, reskind)

    def seed(self, name):
        return self._rec(name, self._seed(name))

    def assume(self, c):
        if not c:
            raise Reject()

    def check(self, c, label):
        self.checks += 1
        if not c:
            raise ContractFailure(label)

    def cover(self, label):
        self.covered.add(label)


class RandomGen(NativeGen):
    def __init__(self, rng, dictionary=(), ints=(), size=4):
        NativeGen.__init__(self)
        self.rng = rng
        self.dictionary = dictionary
        self.ints = ints
        self.size = size
        self.recent = []

    def _choose(self, name, n):
        return self.rng.randrange(n)

    def _seed(self, name):
        return self.rng.randrange(1 << 30)

    def _len(self, name, lo, hi):
        r = self.rng
        if hi > self.size and r.random() < 0.9:
            hi2 = max(lo, self.size)
        else:
            hi2 = hi
        return r.randint(lo, hi2)

    def _int(self, name, lo, hi, hints):
        r = self.rng
        c = r.random()
        if c < 0.5:
            v = r.choice((0, 1, 2, 3, -1, 4, 5, 7, 10))
        elif c < 0.65 and hints:
            v = r.choice(list(hints)) + r.choice((-1, 0, 0, 1))
        elif c < 0.8 and self.ints:
            v = r.choice(self.ints) + r.choice((-1, 0, 1))
        elif c < 0.9 and self.recent:
            v = r.choice(self.recent) + r.choice((-1, 0, 1))
        else:
            v = r.randint(-5, 300)
        if lo is not None and v < lo:
            v = lo + (r.randint(0, 6) if hi is None else r.randint(0, min(6, hi - lo)))
        if hi is not None and v > hi:
            v = hi - r.randint(0, min(6, hi - (lo if lo is not None else hi - 6)))
        self.recent = (self.recent + [v])[-6:]
        return v

    def _real(self, name, lo, hi, hints):
        r = self.rng
        pool = [0.0, 1.0, 0.5, 0.25, 0.75, 0.1, 0.001, 0.999] + list(hints)
        v = r.choice(pool) if r.random() < 0.8 else r.random()
        if r.random() < 0.1:
            v = v * r.choice((-1, 2, 3))
        if lo is not None:
            v = max(v, lo)
        if hi is not None:
            v = min(v, hi)
        return v

    def _str(self, name, alphabet, hints, mx, only):
        r = self.rng
        alpha = expand(only) if only is not None else (alphabet or DEFAULT_ALPHABET)
        mx = self.size if mx is None else mx
        c = r.random()
        words = list(hints)
        if not words:
            words = list(self.dictionary) if only is None and alphabet is None else []
        if words and c < 0.55:
            w = r.choice(words)
            m = r.random()
            if m < 0.15:
                w = w.upper()
            elif m < 0.25:
                w = w.lower()
            elif m < 0.35:
                w = w + r.choice(alpha)
            elif m < 0.42:
                w = r.choice(alpha) + w
            elif m < 0.5 and w:
                i = r.randrange(len(w))
                w = w[:i] + r.choice(alpha) + w[i + 1:]
            elif m < 0.55 and w:
                i = r.randrange(len(w))
                w = w[:i] + w[i + 1:]
            elif m < 0.62:
                w = w + r.choice(words)
            elif m < 0.66:
                w = w.title()
            elif m < 0.68:
                w = w * r.choice((2, 3))
            if only is not None:
                w = ''.join(ch for ch in w if ch in alpha)
            return w
        if c < 0.63 and self.dictionary and only is None:
            return r.choice(self.dictionary)
        n = r.randint(0, mx)
        if r.random() < 0.02 and self.ints and mx > 3:
            n = min(3000, abs(r.choice(self.ints)) + r.choice((-1, 0, 1)))
            n = max(n, 0)
        return ''.join(r.choice(alpha) for _ in range(n))

    def _bytes(self, name, alphabet, hints, mx):
        r = self.rng
        mx = self.size if mx is None else mx
        if hints and r.random() < 0.4:
            w = r.choice(list(hints))
            if r.random() < 0.3:
                w = w + r.choice(list(hints))
            return w
        n = r.randint(0, mx)
        if r.random() < 0.02 and self.ints and mx > 3:
            n = max(0, min(3000, abs(r.choice(self.ints)) + r.choice((-1, 0, 1))))
        if alphabet:
            return bytes(r.choice(alphabet) for _ in range(n))
        return bytes(r.choice((r.randrange(256), r.choice(b'ab\n\r"\\;=, '))) for _ in range(n))


class ReplayGen(NativeGen):
    """Draws a recorded list of (name, value); anything that does not fit the
    draws the contract now makes is not a case of it."""
    def __init__(self, values):
        NativeGen.__init__(self)
        self.values = list(values)

    def _next(self, name, *types):
        if not self.values:
            raise Reject('replay exhausted')
        n, v = self.values.pop(0)
        if n != name or not isinstance(v, types) or (isinstance(v, bool) and bool not in types):
            raise Reject('replay does not fit')
        return v

    def _choose(self, name, n):
        v = self._next(name, int, bool)
        if not 0 <= int(v) < n:
            raise Reject('replay does not fit')
        return int(v)

    def _len(self, name, lo, hi):
        v = self._next(name + '.len', int)
        if not lo <= v <= 64:
            raise Reject('replay does not fit')
        return v

    def _seed(self, name):
        return self._next(name, int)

    def _int(self, name, lo, hi, hints):
        v = self._next(name, int)
        if lo is not None and v < lo or hi is not None and v > hi:
            raise Reject('out of range')
        return v

    def _real(self, name, lo, hi, hints):
        v = float(self._next(name, int, float))
        if lo is not None and v < lo or hi is not None and v > hi:
            raise Reject('out of range')
        return v

    def _str(self, name, alphabet, hints, mx, only):
        v = self._next(name, str)
        if only is not None and not set(v) <= set(expand(only)):
            raise Reject('out of alphabet')
        return v

    def _bytes(self, name, *a):
        return self._next(name, bytes)

    def _cleaned(self, v, w):
        raise Reject('excluded character')


def enc(v):
    if isinstance(v, bytes):
        return {'b': base64.b64encode(v).decode()}
    return v


def dec(v):
    if isinstance(v, dict) and 'b' in v:
        return base64.b64decode(v['b'])
    return v
