"""Syntactic reasoning about symbolic strings built by concatenation.

Every function returns an exact answer or UNKNOWN; UNKNOWN falls back to the
solver.  What is known about a non-literal piece is recorded on the path:
`path.s_only[id]` (set of characters it is made of) and `path.s_excl[id]`
(characters it does not contain), `path.s_ne` (ids known to be non-empty).
"""
import z3

UNKNOWN = object()
DIGIT = frozenset('0123456789')


def unlit(t):
    from .core import unescape
    return unescape(t.as_string())


def flatten(t):
    out = []
    stack = [t]
    while stack:
        x = stack.pop()
        if z3.is_string_value(x):
            s = unlit(x)
            if s:
                if out and isinstance(out[-1], str):
                    out[-1] = out[-1] + s
                else:
                    out.append(s)
        elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            for i in range(x.num_args() - 1, -1, -1):
                stack.append(x.arg(i))
        else:
            out.append(x)
    return out


def build(pieces):
    ps = [z3.StringVal(p) if isinstance(p, str) else p for p in pieces if not (
        isinstance(p, str) and not p)]
    if not ps:
        return z3.StringVal('')
    if len(ps) == 1:
        return ps[0]
    return z3.Concat(*ps)


def is_rope(t):
    return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT


class Facts(object):
    def __init__(self):
        self.only = {}
        self.excl = {}
        self.nonempty = set()
        self.value = {}
        self.keep = []      # keep terms alive so ids stay unique

    def set_only(self, t, chars):
        self.keep.append(t)
        k = t.get_id()
        chars = frozenset(chars)
        self.only[k] = self.only[k] & chars if k in self.only else chars

    def set_value(self, t, text):
        """The path has established that t is this text."""
        self.value[t.get_id()] = text
        self.keep.append(t)

    def known(self, pieces):
        if not self.value:
            return pieces
        out = []
        for p in pieces:
            if not isinstance(p, str):
                p = self.value.get(p.get_id(), p)
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif p != '' if isinstance(p, str) else True:
                out.append(p)
        return out

    def add_excl(self, t, chars):
        self.keep.append(t)
        self.excl.setdefault(t.get_id(), set()).update(chars)

    def set_nonempty(self, t):
        self.keep.append(t)
        self.nonempty.add(t.get_id())

    def excludes(self, p, c):
        if isinstance(p, str):
            return c not in p
        k = p.get_id()
        if k in self.only and c not in self.only[k]:
            return True
        return c in self.excl.get(k, ())

    def excludes_all(self, p, chars):
        return all(self.excludes(p, c) for c in chars)

    def is_nonempty(self, p):
        if isinstance(p, str):
            return bool(p)
        return p.get_id() in self.nonempty

    def inherit(self, parent_pieces, child):
        """child is a substring of the concatenation of pieces."""
        onlys = []
        for p in parent_pieces:
            if isinstance(p, str):
                onlys.append(frozenset(p))
            elif p.get_id() in self.only:
                onlys.append(self.only[p.get_id()])
            else:
                onlys = None
                break
        if onlys is not None:
            self.set_only(child, frozenset().union(*onlys) if onlys else frozenset())
        ex = None
        for p in parent_pieces:
            if isinstance(p, str):
                continue
            e = self.excl.get(p.get_id(), set())
            ex = set(e) if ex is None else ex & e
        if ex:
            ex = {c for c in ex if not any(isinstance(p, str) and c in p for p in parent_pieces)}
            self.add_excl(child, ex)


def find(F, pieces, p):
    """(index, offset) of the first occurrence of literal p, None, or UNKNOWN."""
    if not p:
        return UNKNOWN
    if len(p) == 1:
        for i, x in enumerate(pieces):
            if isinstance(x, str):
                j = x.find(p)
                if j >= 0:
                    return (i, j)
            elif not F.excludes(x, p):
                return UNKNOWN
        return None
    if all(isinstance(x, str) or F.excludes_all(x, p) for x in pieces):
        # an occurrence lies in the literals, or across them where what is between them is empty
        joined = ''
        for i, x in enumerate(pieces):
            if not isinstance(x, str):
                continue
            j = x.find(p)
            if j >= 0 and (joined + x).find(p) == len(joined) + j:
                return (i, j)
            joined += x
            if p in joined:
                break
        else:
            return None
    for i, x in enumerate(pieces):
        if isinstance(x, str):
            j = x.find(p)
            if j >= 0:
                return (i, j)
        elif not (F.excludes_all(x, p) and F.is_nonempty(x)):
            # an occurrence might lie in x or straddle it
            if not all(F.excludes(y, p[0]) for y in pieces):
                # no occurrence can start anywhere if the first character is absent
                rest = [c for c in p if all(F.excludes(y, c) for y in pieces)]
                if not rest:
                    return UNKNOWN
                return None
            return None
    return None


def rfind(F, pieces, p):
    if len(p) != 1:
        return UNKNOWN
    for i in range(len(pieces) - 1, -1, -1):
        x = pieces[i]
        if isinstance(x, str):
            j = x.rfind(p)
            if j >= 0:
                return (i, j)
        elif not F.excludes(x, p):
            return UNKNOWN
    return None


def cut(pieces, loc, n):
    i, j = loc
    return pieces[:i] + [pieces[i][:j]], [pieces[i][j + n:]] + pieces[i + 1:]


def clean(pieces):
    return [p for p in pieces if not (isinstance(p, str) and not p)]


def startswith(F, pieces, p):
    """Answer, z3 condition or UNKNOWN."""
    return _affix(F, clean(pieces), p, False)


def endswith(F, pieces, p):
    return _affix(F, clean(pieces), p, True)


def _affix(F, pieces, p, end):
    pieces = list(reversed(pieces)) if end else list(pieces)
    return _affix_at(F, pieces, 0, p, end)


def _affix_at(F, pieces, i, p, end):
    while p:
        if i >= len(pieces):
            return False
        x = pieces[i]
        if isinstance(x, str):
            n = min(len(x), len(p))
            if (x[-n:] != p[-n:]) if end else (x[:n] != p[:n]):
                return False
            p = p[:-n] if end else p[n:]
            i += 1
            continue
        # the symbolic piece ends before the first character it cannot contain: it is one of few literals
        order = p[::-1] if end else p
        j = next((k for k, c in enumerate(order) if F.excludes(x, c)), None)
        if j is None:
            return UNKNOWN
        cs = []
        for n in range(1 if F.is_nonempty(x) else 0, j + 1):
            rest = p[:len(p) - n] if end else p[n:]
            r = _affix_at(F, pieces, i + 1, rest, end)
            if r is UNKNOWN:
                return UNKNOWN
            if r is False:
                continue
            here = (p[len(p) - n:] if n else '') if end else p[:n]
            eq = x == z3.StringVal(here)
            cs.append(eq if r is True else z3.And(eq, r))
        if not cs:
            return False
        return z3.Or(*cs) if len(cs) > 1 else cs[0]
    return True


def strip(F, pieces, chars, left, right):
    pieces = clean(pieces)
    if left:
        pieces = _lstrip(F, pieces, lambda x: x.lstrip(chars), chars)
        if pieces is UNKNOWN:
            return UNKNOWN
    if right:
        r = _lstrip(F, pieces[::-1], lambda x: x.rstrip(chars), chars)
        if r is UNKNOWN:
            return UNKNOWN
        pieces = r[::-1]
    return pieces


def _lstrip(F, pieces, cutlit, chars):
    pieces = list(pieces)
    n = 0               # leading terms that hold none of the characters but may be empty
    while n < len(pieces):
        x = pieces[n]
        if isinstance(x, str):
            y = cutlit(x)
            if y == x:
                return pieces
            if n:
                return UNKNOWN
            if y:
                return [y] + pieces[1:]
            pieces = pieces[1:]
        elif F.excludes_all(x, chars):
            if F.is_nonempty(x):
                return pieces
            n += 1
        else:
            return UNKNOWN
    return pieces


def split_ws(F, pieces, ws, maxsplit):
    """str.split(None, maxsplit) on a rope whose terms exclude whitespace."""
    ps = strip(F, pieces, ws, True, False)
    if ps is UNKNOWN:
        return UNKNOWN
    out = []
    while ps:
        if maxsplit == 0:
            r = strip(F, ps, ws, False, True)
            if r is UNKNOWN:
                return UNKNOWN
            out.append(r)
            return out
        cur = []
        i = 0
        done = False
        while i < len(ps):
            x = ps[i]
            if isinstance(x, str):
                j = next((j for j, c in enumerate(x) if c in ws), None)
                if j is None:
                    cur.append(x)
                else:
                    if j:
                        cur.append(x[:j])
                    rest = [x[j:]] + ps[i + 1:]
                    done = True
                    break
            elif F.excludes_all(x, ws):
                cur.append(x)
            else:
                return UNKNOWN
            i += 1
        if not any(F.is_nonempty(p) for p in cur):
            return UNKNOWN
        out.append(cur)
        if not done:
            break
        maxsplit -= 1
        ps = strip(F, rest, ws, True, False)
        if ps is UNKNOWN:
            return UNKNOWN
    return out


def slice_const(pieces, a, b):
    """pieces[a:b] for constant a, b (None allowed) when decidable."""
    pieces = clean(pieces)
    if all(isinstance(p, str) for p in pieces):
        return [(''.join(pieces))[a:b]]
    head = pieces[0] if isinstance(pieces[0], str) else ''
    tail = pieces[-1] if isinstance(pieces[-1], str) else ''
    if a is None:
        a = 0
    if a >= 0 and b is not None and b >= 0:
        if b <= len(head):
            return [head[a:b]]
        return UNKNOWN
    if a >= 0:
        if a > len(head):
            return UNKNOWN
        out = ([head[a:]] + pieces[1:]) if head else list(pieces)
        if b is None:
            return out
        if -b <= len(tail):
            return out[:-1] + [tail[:b]] if out[-1] is pieces[-1] else UNKNOWN
        return UNKNOWN
    if a < 0 and -a <= len(tail):
        if b is None:
            return [tail[a:]]
        if b < 0:
            return [tail[a:b]]
    return UNKNOWN


def align(F, pa, pb, prefix=False):
    """Facts equivalent to pa == pb (or: pa is a prefix of pb): a list of
    ('eq'|'prefix', pieces, pieces), or False."""
    out = []
    pa, pb = clean(pa), clean(pb)
    while True:
        # common beginning
        while pa and pb:
            x, y = pa[0], pb[0]
            if isinstance(x, str) and isinstance(y, str):
                n = min(len(x), len(y))
                if x[:n] != y[:n]:
                    return False
                pa = clean([x[n:]] + pa[1:])
                pb = clean([y[n:]] + pb[1:])
            elif not isinstance(x, str) and not isinstance(y, str) and x.get_id() == y.get_id():
                pa, pb = pa[1:], pb[1:]
            else:
                break
        if not pa:
            if prefix or not pb:
                return out
            if any(F.is_nonempty(p) for p in pb):
                return False
            return out + [('eq', [p], ['']) for p in pb]
        if not pb:
            if any(F.is_nonempty(p) for p in pa):
                return False
            return out + [('eq', [p], ['']) for p in pa]
        cut_a = first_mark(F, pa)
        if cut_a is None:
            if not prefix:
                cut_b = first_mark(F, pb)
                if cut_b is not None and find(F, pa, cut_b[1]) is None:
                    return False
            return out + [('prefix' if prefix else 'eq', pa, pb)]
        i, c = cut_a
        loc = find(F, pb, c)
        if loc is UNKNOWN:
            return out + [('prefix' if prefix else 'eq', pa, pb)]
        if loc is None:
            return False
        head_b, tail_b = cut(pb, loc, 1)
        head_a, tail_a = pa[:i], clean([pa[i][1:]] + pa[i + 1:])
        r = align(F, head_a, head_b)
        if r is False:
            return False
        out += r
        pa, pb = tail_a, clean(tail_b)


def first_mark(F, pieces):
    """(index, char): a literal piece whose first character does not occur
    in the pieces before it."""
    for i, p in enumerate(pieces):
        if i and isinstance(p, str) and all(F.excludes(q, p[0]) for q in pieces[:i]):
            return i, p[0]
        if i == 0 and isinstance(p, str):
            return 0, p[0]
    return None


def facts_term(al):
    """z3 formula (or bool) for the result of align."""
    if al is False:
        return False
    cs = []
    for kind, a, b in al:
        a, b = build(a), build(b)
        cs.append(a == b if kind == 'eq' else z3.PrefixOf(a, b))
    if not cs:
        return True
    return z3.And(*cs) if len(cs) > 1 else cs[0]
