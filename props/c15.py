"""C15 — limited input streams never deliver or consume more than the limit."""
from io import BytesIO
from pyvc.api import *
from verktyg.wsgi import LimitedStream, get_input_stream, get_content_length
from verktyg.exceptions import ClientDisconnected

META = {
    'level': 'proof',
    'files': ['verktyg/wsgi.py'],
    'assumptions': ['the wrapped stream is modelled as a byte string with a cursor and file '
                    'semantics (None or a negative size reads everything left)'],
}

L = 'verktyg.wsgi:LimitedStream.'
W = 'verktyg.wsgi:'


class Source(object):
    """A byte stream that would hand out everything if asked to."""
    def __init__(self, data, line=1):
        self.data = data
        self.line = line
        self.at = 0

    def read(self, size=None):
        if size is None or size < 0:
            out = self.data[self.at:]
        else:
            out = self.data[self.at:self.at + size]
        self.at += len(out)
        return out

    def readline(self, size=None):
        """Some non-empty prefix of what is left, cut at the size asked for."""
        n = self.line
        if size is not None and 0 <= size and size < n:
            n = size
        out = self.data[self.at:self.at + n]
        self.at += len(out)
        return out


class Failing(object):
    """A stream whose connection is gone."""
    def __init__(self, exc):
        self.exc = exc

    def read(self, size=None):
        raise self.exc('gone')

    readline = read


def data(g, name='data'):
    return g.bytes(name, max=12, alphabet=b'ab\n\r', hints=[b'one\ntwo\nthree\n', b'abc', b'\n\n\n'])


def size(g, name='size'):
    return g.opt(name + '?', lambda g: g.int(name, None, hints=[-1, -1, -2, 0, 1, 2, 3, 100]))


def spec_len(left, n):
    if n is None or n < 0:
        return left
    return n if n < left else left


@harness(functions=[L + '__init__', L + 'read', L + 'tell', L + 'is_exhausted', L + 'on_exhausted'])
def h_read(g):
    """read(n) after any amount already read hands out exactly the next
    min(n, limit - position) bytes and consumes nothing else."""
    d = data(g)
    limit = g.int('limit', 0, hints=[0, 1, 2, 3, 5])
    g.assume(limit <= len(d))
    k = g.int('before', 0, hints=[0, 1, 2, 3])
    g.assume(k <= limit)
    n = size(g)
    src = Source(d)
    s = LimitedStream(src, limit)
    a = s.read(k)
    g.check(same(a, d[:k]), 'first read')
    g.check(src.at == k and s.tell() == k, 'position')
    b = s.read(n)
    m = spec_len(limit - k, n)
    g.check(same(b, d[k:k + m]), 'second read')
    g.check(src.at == k + m and src.at <= limit, 'consumed')
    g.check(s.tell() == k + m, 'tell')
    g.check(bool(s.is_exhausted) == (k + m >= limit), 'exhausted')


@harness(functions=[L + 'readline', L + 'tell'])
def h_readline(g):
    """readline(n) hands out the next line, cut at n bytes and at the limit."""
    d = data(g)
    limit = g.int('limit', 0, hints=[0, 1, 2, 3, 5])
    g.assume(limit <= len(d))
    k = g.int('before', 0, hints=[0, 1, 2, 3])
    g.assume(k <= limit)
    n = size(g)
    line = g.int('line', 1, hints=[1, 2, 3, 100])
    src = Source(d, line)
    s = LimitedStream(src, limit)
    s.read(k)
    b = s.readline(n)
    m = spec_len(limit - k, n)
    if line < m:
        m = line
    g.check(same(b, d[k:k + m]), 'line')
    g.check(src.at == k + m and src.at <= limit, 'consumed')
    g.check(s.tell() == k + m, 'tell')


@harness(functions=[L + '__next__', L + '__iter__'])
def h_next(g):
    """Iterating steps over the lines up to the limit and then stops."""
    d = data(g)
    limit = g.int('limit', 0, hints=[0, 1, 2, 3, 5])
    g.assume(limit <= len(d))
    k = g.int('before', 0, hints=[0, 1, 2, 3])
    g.assume(k <= limit)
    line = g.int('line', 1, hints=[1, 2, 3, 100])
    src = Source(d, line)
    s = LimitedStream(src, limit)
    s.read(k)
    r = outcome(lambda: next(iter(s)))
    m = limit - k
    if line < m:
        m = line
    if m == 0:
        g.check(r[0] == 'exc' and r[1] is StopIteration, 'stop')
    else:
        g.check(same(r, ('ok', d[k:k + m])), 'line')
    g.check(src.at == k + m, 'consumed')


@harness(functions=[L + 'exhaust'])
def h_exhaust(g):
    """exhaust consumes exactly up to the limit, whatever the chunk size."""
    d = data(g)
    limit = g.int('limit', 0, hints=[0, 1, 2, 3, 5])
    g.assume(limit <= len(d))
    k = g.int('before', 0, hints=[0, 1, 2, 3])
    g.assume(k <= limit)
    c = g.int('chunk', 1, hints=[1, 2, 3, 100])
    src = Source(d)
    s = LimitedStream(src, limit)
    s.read(k)
    s.exhaust(c)
    g.check(src.at == limit and s.tell() == limit and s.is_exhausted, 'all and no more')


@harness(functions=[L + 'read', L + 'readline', L + 'on_disconnect'])
def h_disconnect(g):
    """A stream that ends before the limit or fails is reported as a client
    disconnect, never as a short or empty body."""
    d = data(g)
    limit = g.int('limit', 0, hints=[0, 1, 2, 3, 5])
    g.assume(limit > len(d))
    n = size(g)
    how = g.choice('how', ['short', 'ioerror', 'valueerror'])
    src = Source(d) if how == 'short' else Failing(IOError if how == 'ioerror' else ValueError)
    s = LimitedStream(src, limit)
    m = spec_len(limit, n)
    op = g.choice('op', ['read', 'readline'])
    if op == 'read':
        r = outcome(lambda: s.read(n))
        if how == 'short':
            g.assume(m > len(d))
    else:
        if how == 'short':
            g.assume(len(d) == 0 and m > 0)
        r = outcome(lambda: s.readline(n))
    g.check(r[0] == 'exc' and issubclass(r[1], ClientDisconnected), 'disconnect')


@harness(functions=[W + 'get_content_length'])
def h_content_length(g):
    """The request content length is the non-negative integer sent, or None."""
    n = g.int('n', hints=[0, 1, 5, -1, -3])
    how = g.choice('how', ['int', 'absent', 'text', 'none'])
    if how == 'int':
        g.check(same(get_content_length({'CONTENT_LENGTH': str(n)}), n if n > 0 else 0), 'clamped')
    elif how == 'absent':
        g.check(get_content_length({}) is None, 'absent')
    elif how == 'none':
        g.check(get_content_length({'CONTENT_LENGTH': None}) is None, 'none')
    else:
        t = g.choice('t', ['', 'x', '1x', '-', '1.5', '0x3', '1 2', 'nan'])
        g.check(get_content_length({'CONTENT_LENGTH': t}) is None, 'malformed')


LENGTH = Contract('verktyg.wsgi:get_content_length', lambda environ: environ.get('spec.length'))


@harness(functions=[W + 'get_input_stream'], uses=[LENGTH])
def h_input_stream(g):
    """The body stream of a request never yields more than its content length,
    is empty when no length was sent, and is the raw stream only when the
    server promises termination or the caller opted out of safety."""
    d = data(g)
    n = g.int('n', hints=[0, 1, 2, 3, -1])
    term = g.choice('terminated', [None, False, True])
    has = g.bool('has length')
    safe = g.choice('safe', [None, True, False])
    src = Source(d)
    env = {'wsgi.input': src}
    if term is not None:
        env['wsgi.input_terminated'] = term
    if has:
        env['CONTENT_LENGTH'] = str(n)
        env['spec.length'] = n if n > 0 else 0
        g.assume(n <= len(d))
    s = get_input_stream(env) if safe is None else get_input_stream(env, safe_fallback=safe)
    if term:
        g.check(s is src, 'raw')
        return
    if not has:
        if safe is False:
            g.check(s is src, 'raw fallback')
        else:
            g.check(same(s.read(), b''), 'empty')
            g.check(src.at == 0, 'untouched')
        return
    m = n if n > 0 else 0
    op = g.choice('op', ['all', 'none', 'minus', 'line'])
    if op == 'all':
        got = s.read()
        g.check(same(got, d[:m]), 'body')
    elif op == 'none':
        got = s.read(None)
        g.check(same(got, d[:m]), 'body')
    elif op == 'minus':
        got = s.read(-1)
        g.check(same(got, d[:m]), 'body')
    else:
        got = s.readline()
    g.check(src.at <= m, 'never past the length')


@scenario(functions=[L + 'readlines', L + 'read', L + 'readline', L + 'exhaust', L + '__next__'],
          n=4000, note='histories of reads; unbounded sequences are covered by the per-call contracts')
def s_history(g):
    """Any history of reads returns consecutive pieces of the first `limit`
    bytes and never takes more than the limit from the source."""
    d = data(g) + data(g, 'more')
    limit = g.int('limit', 0, 24)
    g.assume(limit <= len(d))
    src = BytesIO(d)
    s = LimitedStream(src, limit)
    out = b''
    for i in range(g.int('ops', 0, 5)):
        op = g.choice('op', ['read', 'readline', 'readlines', 'next', 'exhaust'])
        if op == 'read':
            out += s.read(size(g))
        elif op == 'readline':
            out += s.readline(size(g))
        elif op == 'readlines':
            n = size(g)
            before = s.tell()
            ls = s.readlines(n)
            if n is None:
                g.check(b''.join(ls) == d[before:limit], 'all lines')
                g.check(all(x[-1:] == b'\n' for x in ls[:-1]), 'lines end in newlines')
            out += b''.join(ls)
        elif op == 'next':
            out += next(s, b'')
        else:
            before = s.tell()
            s.exhaust(g.int('chunk', 1, 9))
            out += d[before:limit]
        g.check(d[:limit].startswith(out), 'consecutive')
        g.check(src.tell() == len(out) == s.tell() and src.tell() <= limit, 'position')
