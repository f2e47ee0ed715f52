"""C28 — streams are cut into lines, chunks and blocks without losing a byte."""
import re
from io import BytesIO, StringIO
from pyvc.api import *
from verktyg.wsgi import make_line_iter, make_chunk_iter, FileWrapper, wrap_file, ClosingIterator, LimitedStream

META = {
    'level': 'proof',
    'files': ['verktyg/wsgi.py'],
    'assumptions': ['the wrapped file is modelled as a byte string with a cursor'],
}

W = 'verktyg.wsgi:'


class Source(object):
    """A file."""
    def __init__(self, data):
        self.data = data
        self.at = 0
        self.closed = 0

    def read(self, size):
        out = self.data[self.at:self.at + size]
        self.at += len(out)
        return out

    def close(self):
        self.closed += 1


@harness(functions=[W + 'wrap_file', W + 'FileWrapper.__init__', W + 'FileWrapper.__next__', W + 'FileWrapper.__iter__',
                    W + 'FileWrapper.close'])
def h_wrap(g):
    """Each step over a wrapped file hands out the next block, until there is none."""
    d = g.bytes('data', max=12, alphabet=b'ab', hints=[b'abcdefgh', b''])
    k = g.int('before', 0, hints=[0, 1, 3])
    n = g.int('block', 1, hints=[1, 2, 3, 100])
    g.assume(k <= len(d))
    src = Source(d)
    src.read(k)
    w = wrap_file({}, src, n)
    r = outcome(lambda: next(iter(w)))
    if k == len(d):
        g.check(r == ('exc', StopIteration), 'end')
    else:
        g.check(same(r, ('ok', d[k:k + n])), 'block')
    g.check(src.at == (k + n if k + n < len(d) else len(d)), 'consumed')
    w.close()
    g.check(src.closed == 1, 'closed')


class Wrapper(object):
    def __init__(self, file, size):
        self.file = file
        self.size = size


@harness(functions=[W + 'wrap_file'])
def h_server(g):
    """The wrapper of the server is used if there is one."""
    src = Source(b'')
    n = g.int('block', 1)
    w = wrap_file({'wsgi.file_wrapper': Wrapper}, src, n)
    g.check(type(w) is Wrapper and w.file is src and w.size == n, 'wrapped')


class Stream(object):
    """An iterator with a close method."""
    def __init__(self, items, log):
        self.items = items
        self.log = log
        self.at = 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.at >= len(self.items):
            raise StopIteration()
        self.at += 1
        return self.items[self.at - 1]

    def close(self):
        self.log.append('stream')


@harness(functions=[W + 'ClosingIterator.__init__', W + 'ClosingIterator.__next__', W + 'ClosingIterator.__iter__',
                    W + 'ClosingIterator.close'])
def h_closing(g):
    """Closing closes what is iterated over, then calls the functions given, in order; the items are unchanged."""
    items = [g.bytes('item', max=3, alphabet=b'ab') for _ in range(g.choice('n', [0, 1, 2]))]
    log = []
    own = g.bool('closable')
    it = Stream(items, log) if own else list(items)
    kind = g.choice('callbacks', ['none', 'one', 'list', 'tuple'])
    fs = [lambda: log.append('a'), lambda: log.append('b')]
    c = {'none': None, 'one': fs[0], 'list': fs, 'tuple': (fs[0], fs[1])}[kind]
    w = ClosingIterator(it, c)
    got = []
    for x in w:
        got.append(x)
    g.check(same(got, items), 'items')
    g.check(log == [], 'open')
    w.close()
    want = ['stream'] if own else []
    want = want + {'none': [], 'one': ['a'], 'list': ['a', 'b'], 'tuple': ['a', 'b']}[kind]
    g.check(log == want, 'closed')
    g.check(len(fs) == 2, 'arguments unchanged')


@harness(functions=[W + 'make_chunk_iter', W + '_make_chunk_iter'], unroll=12)
def h_chunks(g):
    """Text of any pieces between separators, handed over cut anywhere inside the pieces, is split at exactly the
    separators."""
    n = g.choice('pieces', [1, 2, 3])
    sep = g.choice('separator', ['X', 'XY']) if n < 3 else 'X'
    want = []
    chunks = []
    cur = ''
    for i in range(n):
        a = g.str('head', max=4, alphabet='abc', without='XY')
        b = ''
        if i:
            at = g.choice('cut in separator', [0, 1, 2])
            if at and at <= len(sep):
                chunks.append(cur + sep[:at])
                cur = sep[at:]
            else:
                cur = cur + sep
        if g.bool('cut'):
            b = g.str('tail', max=4, alphabet='abc', without='XY')
            chunks.append(cur + a)
            cur = b
        else:
            cur = cur + a
        want.append(a + b)
    chunks.append(cur)
    g.assume(any(chunks))
    g.check(same(list(make_chunk_iter(chunks, sep)), want), 'chunks')


@harness(functions=[W + 'make_line_iter', W + '_make_chunk_iter'], unroll=12)
def h_lines(g):
    """Lines of any text with any line ends, handed over cut inside the text or inside a line end, come out whole."""
    n = g.choice('lines', [1, 2])
    want = []
    chunks = []
    cur = ''
    for i in range(n):
        a = g.str('head', max=4, alphabet='abc', without='\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029', nonempty=True)
        if g.bool('cut before'):
            chunks.append(cur)
            cur = ''
        cur = cur + a
        if g.bool('cut'):
            chunks.append(cur)
            cur = ''
        end = g.choice('end', ['\n', '\r', '\r\n', '\r|\n']) if i + 1 < n or g.bool('ended') else ''
        if end == '\r|\n':
            chunks.append(cur + '\r')
            cur = '\n'
            end = '\r\n'
        else:
            cur = cur + end
        want.append(a + end)
    chunks.append(cur)
    g.check(same(list(make_line_iter(chunks)), want), 'lines')


# -- native -------------------------------------------------------------------

def pieces(g, parts, empty):
    """Some text as a list of pieces."""
    return [empty.join(g.choice('part', parts) for _ in range(g.int('len', 0, 4))) for _ in range(g.int('pieces', 0, 5))]


def stream(g, items, empty, binary):
    """The text as an iterator, or as a stream with or without more behind its limit."""
    data = empty.join(items)
    kind = g.choice('kind', ['list', 'iterator', 'stream', 'limit', 'limited'])
    if kind == 'list':
        return items, {}
    if kind == 'iterator':
        return iter(items), {}
    io = BytesIO if binary else StringIO
    n = {'buffer_size': g.choice('buffer', [1, 2, 3, 5, 1000])}
    if kind == 'stream':
        return io(data), n
    more = b'\nmoreX' if binary else '\nmoreX'
    if kind == 'limit':
        return io(data + more), dict(n, limit=len(data))
    return LimitedStream(io(data + more), len(data)), n


def kindof(g):
    binary = g.bool('bytes')
    return binary, (lambda s: s.encode('latin1')) if binary else (lambda s: s)


@scenario(functions=[W + 'make_line_iter', W + '_make_chunk_iter'], n=8000, note='lines')
def s_lines(g):
    """Every line once, in order, with its end, however the stream is cut."""
    binary, t = kindof(g)
    items = pieces(g, [t(x) for x in ['a', 'bc', '\n', '\r', '\r\n', '\x0b', '\x85', '']], t(''))
    data = t('').join(items)
    want = re.findall(t('[^\r\n]*(?:\r\n|\r|\n)|[^\r\n]+'), data)
    s, kw = stream(g, items, t(''), binary)
    got = list(make_line_iter(s, **kw))
    g.check(got == want, 'lines')


@scenario(functions=[W + 'make_chunk_iter', W + '_make_chunk_iter'], n=8000, note='chunks')
def s_chunks(g):
    """Split at exactly the separators, however the stream is cut."""
    binary, t = kindof(g)
    sep = t(g.choice('separator', ['X', 'XY', 'XX', '.', '\n', '--b', '(']))
    items = pieces(g, [t(x) for x in ['a', 'X', 'Y', 'XY', '', '.', '-', 'b', '\n', '(', '--b']], t(''))
    data = t('').join(items)
    s, kw = stream(g, items, t(''), binary)
    got = list(make_chunk_iter(s, sep, **kw))
    g.check(got == (data.split(sep) if data else []), 'chunks')


@scenario(functions=[W + '_make_chunk_iter'], n=60, note='not a stream')
def s_text(g):
    """Text instead of a stream is refused."""
    x = g.choice('text', ['a\nb', b'a\nb', bytearray(b'a'), ''])
    g.check(outcome(lambda: list(make_line_iter(x))) == ('exc', TypeError), 'lines')
    g.check(outcome(lambda: list(make_chunk_iter(x, x[:1]))) == ('exc', TypeError), 'chunks')


@scenario(functions=[W + 'FileWrapper', W + 'wrap_file', W + 'ClosingIterator'], n=2000, note='whole files')
def s_files(g):
    """The blocks are the file, all of the size asked for but the last."""
    d = bytes(g.int('byte', 0, 255) for _ in range(g.int('len', 0, 20)))
    n = g.int('block', 1, 25)
    f = BytesIO(d)
    w = wrap_file({}, f, n)
    c = ClosingIterator(w, [])
    got = list(c)
    g.check(b''.join(got) == d, 'content')
    g.check(all(len(x) == n for x in got[:-1]) and all(got), 'sizes')
    g.check(not f.closed, 'open')
    c.close()
    g.check(f.closed, 'closed')
    g.check(list(FileWrapper(BytesIO(d))) == ([d] if d else []), 'default')
