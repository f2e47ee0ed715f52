"""Contract vocabulary.

Every function here has an ordinary Python meaning, used when a contract is
evaluated against the real code at run time, and (for those the engine
overrides) a symbolic meaning used when the contract is being proved.
"""


#: what str.strip() and str.split() treat as blank
BLANK = (' \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006'
         '\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000')


class Reject(Exception):
    """A drawn case does not satisfy the precondition."""


class ContractFailure(Exception):
    """A postcondition is false."""


class Tok(object):
    """A value about which nothing is known except its identity."""
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<tok %s>' % (self.name,)


def outcome(fn, *args, **kwargs):
    """Run `fn`, turning an exception into a comparable value."""
    try:
        return ('ok', fn(*args, **kwargs))
    except Exception as e:
        return ('exc', type(e))


def same(a, b):
    """Structural equality, strict about str/bytes/number/None confusion."""
    if a is b:
        return True
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if isinstance(a, list) != isinstance(b, list):
            return False
        if len(a) != len(b):
            return False
        return all(same(x, y) for x, y in zip(list.__iter__(a) if isinstance(a, list) else a,
                                              list.__iter__(b) if isinstance(b, list) else b))
    if type(a) is dict and type(b) is dict:
        if list(a) != list(b):
            return False
        return all(same(a[k], b[k]) for k in a)
    if isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)):
        return isinstance(a, str) == isinstance(b, str) and \
            isinstance(a, bytes) == isinstance(b, bytes) and a == b
    if a is None or b is None:
        return False
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    if isinstance(a, Tok) or isinstance(b, Tok):
        return False
    return a == b


def exists(seq, pred):
    for x in seq:
        if pred(x):
            return True
    return False


def forall(seq, pred):
    for x in seq:
        if not pred(x):
            return False
    return True


def first(seq, pred):
    """(prefix, element, suffix) around the first element satisfying pred,
    or None."""
    seq = list(seq)
    for i, x in enumerate(seq):
        if pred(x):
            return seq[:i], x, seq[i + 1:]
    return None


def flatmap(seq, fn):
    out = []
    for x in seq:
        out.extend(fn(x))
    return out


def implies(a, b):
    return (not a) or b


def either(*cs):
    """Disjunction of facts that are all defined."""
    return any(bool(c) for c in cs)


def both(*cs):
    """Conjunction of facts that are all defined."""
    return all(bool(c) for c in cs)
