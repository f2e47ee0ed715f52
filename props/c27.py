"""C27 — uploaded files are what was sent."""
import io
import os
import shutil
import tempfile
from pyvc.api import *
from verktyg.http import FileStorage, Headers

META = {
    'level': 'proof',
    'files': ['verktyg/http/basic.py'],
    'assumptions': ['shutil.copyfileobj is the standard library'],
}

F = 'verktyg.http.basic:FileStorage.'


class Stream(object):
    """A stream that remembers what was done with it."""
    def __init__(self, log, data, broken, name):
        self.log = log
        self.data = data
        self.broken = broken
        if name is not None:
            self.name = name

    def read(self, n=None):
        self.log.append('read')
        return self.data

    def __iter__(self):
        self.log.append('iter')
        return iter([self.data])

    def readline(self):
        self.log.append('readline')
        return self.data

    def close(self):
        self.log.append('close')
        if self.broken:
            raise ValueError('broken')


@harness(functions=[F + '__init__', F + 'content_type', F + 'content_length', F + '__nonzero__', F + '__getattr__',
                    F + 'close'])
def h_storage(g):
    """Name, type and length are those given, or those of the stream; everything else is the stream's."""
    log = []
    data = g.tok('data')
    own = g.choice('name of the stream', [None, '<stdin>', 'own.txt', '<a', 'a>', ''])
    s = Stream(log, data, g.bool('broken'), own)
    name = g.opt('filename', lambda g: g.str('given name', max=3, alphabet='<a>'))
    media = g.opt('type', lambda g: g.str('given type', max=5, without='\r\n'))
    length = g.opt('length', lambda g: g.int('given length', 0))
    field = g.tok('field')
    h = Headers([('X-Other', 'o'), ('content-type', 'old'), ('content-length', '5')]) if g.bool('headers given') else None
    f = FileStorage(s, name, field, media, length, h)
    g.check(f.name == field and f.stream is s, 'as given')
    want = name
    if name is None:
        want = None if own == '<stdin>' else own
    elif name.startswith('<') and name.endswith('>'):
        # taken for the name of a special stream or as it is
        g.assume(False)
    g.check(f.filename == want, 'filename')
    g.check(bool(f) == (want is not None and want != ''), 'truth')
    g.check(f.content_type == (media if media is not None else 'old' if h is not None else None), 'type')
    g.check(f.content_length == (length if length is not None else 5 if h is not None else 0), 'length')
    if h is not None:
        g.check(f.headers is h and h['x-other'] == 'o', 'headers')
    g.check(log == [], 'stream not touched')
    g.check(f.read() == data and f.readline() == data, 'proxy')
    g.check(log == ['read', 'readline'], 'proxy called')
    f.close()
    g.check(log == ['read', 'readline', 'close'], 'closed')


# -- native -------------------------------------------------------------------

MEDIA = ['text/plain', 'text/html; charset=utf-8', 'IMAGE/PNG', 'a/b; x="y;z"', None]


class Source(object):
    """A stream that knows its name."""
    def __init__(self, name):
        self.name = name

    def close(self):
        raise OSError('broken')


@scenario(functions=[F + f for f in (
    '__init__', 'content_type', 'content_length', 'mimetype', 'mimetype_params', 'save', 'close', '__nonzero__',
    '__getattr__', '__iter__')], n=1500, note='files')
def s_storage(g):
    """An uploaded file has the content of its stream and the name, type and length that were sent with it."""
    lines = [g.bytes('line', max=5) + b'\n' for _ in range(g.int('lines', 0, 4))] + [g.bytes('rest', max=3)]
    data = b''.join(lines)
    media = g.choice('media', MEDIA)
    length = g.choice('length', [None, 0, len(data), 7])
    name = g.choice('filename', [None, '', 'a.txt', '../x', '<x>'])
    f = FileStorage(io.BytesIO(data), name, 'field', media, length)
    g.check(f.filename == name and f.name == 'field' and bool(f) == bool(name), 'name')
    g.check(f.content_type == media and f.content_length == (length or 0), 'as sent')
    g.check(f.mimetype == (media or '').split(';')[0].lower(), 'type')
    g.check(dict(f.mimetype_params) == {'text/html; charset=utf-8': {'charset': 'utf-8'},
                                        'a/b; x="y;z"': {'x': 'y;z'}}.get(media, {}), 'parameters')
    how = g.choice('how', ['read', 'lines', 'save', 'save to file', 'readline'])
    if how == 'read':
        g.check(f.read() == data and f.read() == b'', 'read')
    elif how == 'lines':
        out = []
        for x in f:
            out.append(x)
            if len(out) > len(data) + 1:
                break
        g.check(out == io.BytesIO(data).readlines(), 'lines')
    elif how == 'readline':
        g.check(f.readline() == io.BytesIO(data).readline() and f.tell() == len(io.BytesIO(data).readline()), 'proxy')
    elif how == 'save':
        dst = io.BytesIO(b'')
        f.save(dst, g.choice('buffer', [1, 2, 16384]))
        g.check(dst.getvalue() == data and not dst.closed, 'saved')
    else:
        d = tempfile.mkdtemp()
        try:
            p = os.path.join(d, 'x')
            f.save(p)
            with open(p, 'rb') as saved:
                g.check(saved.read() == data, 'saved')
        finally:
            shutil.rmtree(d)
    f.close()
    g.check(f.stream.closed, 'closed')
    given = g.choice('stream name', ['a.txt', '<stdin>', b'b.txt', None])
    f = FileStorage(Source(given))
    g.check(f.filename == (None if given in (None, '<stdin>') else 'b.txt' if given == b'b.txt' else given),
            'name of the stream')
    f.close()
    g.check(FileStorage().read() == b'' and not FileStorage(), 'nothing')
    one, other = FileStorage(filename='a'), FileStorage(filename='b')
    one.write(data)
    one.seek(0)
    g.check(other.read() == b'', 'each its own stream')
    other.close()
    g.check(one.read() == data, 'closed on its own')
    one.headers['X-Y'] = 'z'
    g.check('X-Y' not in other.headers and 'X-Y' not in FileStorage().headers, 'each its own headers')
