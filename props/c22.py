"""C22 — exported files: what is served, and that nothing outside is."""
import datetime
import fnmatch
import os
import shutil
import tempfile
from pyvc.api import *
from verktyg.http import http_date, parse_date
from verktyg.test import create_environ
from verktyg.wsgi import SharedDataMiddleware, get_path_info

META = {
    'level': 'proof',
    'files': ['verktyg/wsgi.py'],
    'assumptions': ['in the proofs files are found by arbitrary loaders; the file system is exercised natively in a '
                    'scratch directory',
                    'get_path_info undoes the encoding of the path by the server (checked natively here and in C23)'],
}

W = 'verktyg.wsgi:'
MTIME = datetime.datetime(2015, 1, 2, 3, 4, 5)
S = W + 'SharedDataMiddleware.'


class File(object):
    """An opened file."""
    def __init__(self):
        self.closed = False

    def read(self, n):
        return b''

    def close(self):
        self.closed = True


class Loader(object):
    """Finds a file for the paths it is told to."""
    def __init__(self, found, log, name):
        self.found = found
        self.log = log
        self.name = name

    def __call__(self, path):
        self.log.append((self.name, path))
        if not self.found:
            return None, None
        return 'f.txt', self.open

    def open(self):
        self.log.append(('open', self.name))
        return File(), MTIME, 7


class App(object):
    """What is called where no file is found."""
    def __init__(self):
        self.calls = []

    def __call__(self, environ, start_response):
        self.calls.append((environ, start_response))
        return ['app']


class Start(object):
    def __init__(self):
        self.calls = []

    def __call__(self, status, headers):
        self.calls.append((status, headers))


def spec_date(date=None):
    return 'now' if date is None else 'then'


DATE = Abstract('verktyg.http.basic:http_date', spec_date)


def sent(path):
    """The path as a server hands it over."""
    return path.encode('utf8').decode('latin1')


def spec_sent(path):
    return path


def spec_path(environ, charset='utf-8', errors='replace'):
    return environ['PATH_INFO']


PATH = Contract(W + 'get_path_info', spec_path)
SENT = Contract('props.c22:sent', spec_sent)


GONE = [n for n in ('get_package_loader', 'app') if not hasattr(SharedDataMiddleware('app', {}), n)]


class Shared(SharedDataMiddleware):
    """Exports packages that are loaders."""
    def get_package_loader(self, package, package_path):
        return package


def middleware(g, exports, **kw):
    if GONE:
        raise Missing(GONE[0])
    return Shared(App(), {k: (v, 'x') for k, v in exports.items()}, **kw)


@harness(functions=[S + '__call__', S + '__init__', S + 'is_allowed'], uses=[DATE, PATH, SENT])
def h_route(g):
    """Loaders are asked, in order, for the part of the path below their export without its empty and parent
    segments; the first file found is served."""
    segs = []
    for _ in range(g.choice('segments', [0, 1, 2])):
        kind = g.choice('segment', ['text', 'text', '..', '', 'pub'])
        segs.append(g.str('text', max=4, alphabet='ab.', hints=['a', 'b', '.', '...'], without='/', nonempty=True)
                    if kind == 'text' else kind)
    log = []
    found = [g.bool('found'), g.bool('found')]
    keys = g.choice('exports', [('/pub', '/'), ('/', '/pub'), ('/pub/', '/pub/x')])
    m = middleware(g, {keys[0]: Loader(found[0], log, 0), keys[1]: Loader(found[1], log, 1)}, cache=False)
    keep = [s for s in segs if s != '' and s != '..']
    path = '/' + '/'.join(keep)
    want = []
    served = None
    for n in [0, 1]:
        if served is None and keys[n] == path:
            want.append((n, None))
            if found[n]:
                served = n
        k = keys[n] if keys[n].endswith('/') else keys[n] + '/'
        if served is None and path.startswith(k):
            want.append((n, path[len(k):]))
            if found[n]:
                served = n
    environ = {'PATH_INFO': sent('/' + '/'.join(segs))}
    start = Start()
    m(environ, start)
    if served is not None:
        want.append(('open', served))
    g.check(same(log, want), 'asked')
    g.check(len(m.app.calls) == (1 if served is None else 0), 'application')
    g.check(len(start.calls) == (0 if served is None else 1), 'started')
    for name, p in log:
        if name != 'open' and p is not None:
            g.check(not p.startswith('/') and p != '..' and not p.startswith('../') and '/../' not in p and
                    not p.endswith('/..'), 'contained')


@harness(functions=[S + '__call__', S + '__init__'], uses=[DATE])
def h_served(g):
    """A file is announced with its type, its length and its date; without one the request goes on untouched."""
    log = []
    found = g.bool('found')
    allowed = g.choice('disallow', [None, ['*.txt'], ['*.html'], ['*.html', 'f.*'], []])
    m = middleware(g, {'/x': Loader(found, log, 0)}, cache=False, disallow=allowed)
    environ = {'PATH_INFO': '/x/f.txt', 'QUERY_STRING': g.str('query', max=3)}
    before = dict(environ)
    start = Start()
    r = m(environ, start)
    ok = found and not (allowed in (['*.txt'], ['*.html', 'f.*']))
    g.check(same(environ, before), 'environ unchanged')
    if ok:
        g.check(m.app.calls == [], 'not passed on')
        g.check(len(start.calls) == 1 and start.calls[0][0] == '200 OK', 'status')
        h = dict(start.calls[0][1])
        g.check(len(h) == 5 and len(start.calls[0][1]) == 5 and 'Date' in h, 'number of headers')
        g.check(h['Cache-Control'] == 'public' and h['Content-Type'] == 'text/plain' and h['Content-Length'] == '7' and
                h['Last-Modified'] == http_date(MTIME), 'headers')
    else:
        g.check(start.calls == [] and len(m.app.calls) == 1, 'passed on')
        g.check(m.app.calls[0][0] is environ and m.app.calls[0][1] is start, 'untouched')
        g.check(r == ['app'], 'answer of the application')


# -- native -------------------------------------------------------------------

FILES = {
    'pub/a.txt': b'pub a', 'pub/b.html': b'<b>', 'pub/sub/c.txt': b'c' * 20000, 'pub/sub/a.txt': b'sub a',
    'pub/sp ace.txt': b'space', 'pub/.hidden': b'hidden', 'pub/empty.bin': b'', 'pub/..dots': b'dots', 'pub/x.py': b'py',
    'other/a.txt': b'other a', 'other/sub/d.css': b'css', 'other/pub/a.txt': b'other pub a', 'other/UP.TXT': b'up',
    'one.txt': b'one file', 'secret.txt': b'SECRET', 'secret/a.txt': b'SECRET too',
}


def make_tree(d):
    for n, f in enumerate(sorted(FILES)):
        p = os.path.join(d, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as out:
            out.write(FILES[f])
        os.utime(p, (1400000000 + n * 1000, 1400000000.75 + n * 1000))


def get(app, environ):
    out = []

    def start(status, headers, exc_info=None):
        out.append((status, headers))
    it = app(environ, start)
    body = b''.join(it)
    if hasattr(it, 'close'):
        it.close()
    return out[0][0], out[0][1], body


def fallback(environ, start_response):
    start_response('404 NOT FOUND', [('X-App', 'yes')])
    return [b'app']


TYPES = {'.txt': 'text/plain', '.html': 'text/html', '.css': 'text/css', '.py': 'text/x-python',
         '.bin': 'application/octet-stream', '.TXT': 'text/plain'}
EXPORTS = [('/static', 'pub'), ('/', 'other'), ('/static/sub', 'other'), ('/s', 'pub/sub'), ('/one', 'one.txt'),
           ('/', 'pub'), ('/a b', 'pub'), ('/gone', 'nothing')]
SEGS = ['static', 'pub', 'sub', 'a.txt', 'b.html', 'c.txt', 'd.css', '..', '.', '', 's', 'secret.txt', 'secret', 'one',
        'sp ace.txt', '..dots', '...', 'empty.bin', '.hidden', 'a b', 'x.py', '..\\', 'one.txt', 'gone', 'UP.TXT',
        '\x00', 'other', '..', '..', 'secret.txt']


def exports(g):
    out = {}
    for _ in range(g.int('exports', 1, 3)):
        k, v = g.choice('export', EXPORTS)
        if k not in out:
            out[k] = v
    return out


def spec(out, segs):
    """The file to serve."""
    path = '/' + '/'.join(s for s in segs if s and s != '..')
    for k, v in out.items():
        file = v in FILES
        if path == k and file:
            return v
        k = k if k.endswith('/') else k + '/'
        if path.startswith(k):
            if file:
                return Reject       # below a file: not specified
            name = os.path.normpath(v + '/' + path[len(k):])
            if path[-2:] != '/.' and name in FILES:
                return name
    return None


@scenario(functions=[S + '__call__', S + '__init__', S + 'get_directory_loader', S + 'get_file_loader', S + '_opener',
                     S + 'generate_etag', S + 'is_allowed', W + 'wrap_file'], n=3000, note='real files')
def s_files(g):
    """Exactly the exported files are served, whole; everything else goes to the application."""
    ex = exports(g)
    segs = [g.choice('segment', SEGS) for _ in range(g.int('segments', 0, 5))]
    if g.bool('likely'):
        segs = [x for x in g.choice('export', sorted(ex)).split('/') if x] + segs[-2:]
    name = spec(ex, segs)
    g.assume(name is not Reject)
    disallow = g.choice('disallow', [None, None, ['*.py'], ['*.html', 'a.*'], [], '*.txt'])
    cache = g.bool('cache')
    d = tempfile.mkdtemp(prefix='c22-')
    try:
        make_tree(d)
        ask(g, d, ex, segs, name, disallow, cache)
    finally:
        shutil.rmtree(d)


def ask(g, r, ex, segs, name, disallow, cache):
    app = SharedDataMiddleware(fallback, {k: os.path.join(r, v) for k, v in ex.items()}, disallow=disallow,
                               cache=cache, cache_timeout=60, fallback_mimetype='application/x-unknown')
    path = '/' + '/'.join(segs)
    environ = create_environ('/')
    environ['PATH_INFO'] = path.encode('utf8').decode('latin1')
    status, headers, body = get(app, environ)
    g.check(b'SECRET' not in body, 'contained')
    rules = [] if disallow is None else [disallow] if isinstance(disallow, str) else disallow
    if name is not None and any(fnmatch.fnmatch(os.path.basename(name), x) for x in rules):
        name = None
    h = dict(headers)
    if name is None:
        g.check(status == '404 NOT FOUND' and h == {'X-App': 'yes'} and body == b'app', 'passed on')
        return
    g.check(status == '200 OK', 'found')
    g.check(body == FILES[name], 'content')
    g.check(h['Content-Length'] == str(len(body)), 'length')
    ext = os.path.splitext(name)[1]
    g.check(h['Content-Type'] == TYPES.get(ext, 'application/x-unknown'), 'type')
    when = datetime.datetime(2014, 5, 13, 16, 53, 20) + datetime.timedelta(seconds=1000 * sorted(FILES).index(name))
    g.check(parse_date(h['Last-Modified']) == when, 'date')
    g.check(len(h) == len(headers), 'headers once')
    g.check(('Etag' in h) == cache and ('Expires' in h) == cache, 'caching')
    g.check(h['Cache-Control'] == ('max-age=60, public' if cache else 'public'), 'cache control')
    # asking again
    again = dict(environ)
    how = g.choice('again', ['tag', 'other tag', 'date', 'earlier', 'star', 'both'])
    if how in ('tag', 'both'):
        again['HTTP_IF_NONE_MATCH'] = h.get('Etag', '"x"')
    if how == 'other tag':
        again['HTTP_IF_NONE_MATCH'] = '"other"'
    if how == 'star':
        again['HTTP_IF_NONE_MATCH'] = '*'
    if how in ('date', 'both'):
        again['HTTP_IF_MODIFIED_SINCE'] = http_date(when)
    if how == 'earlier':
        again['HTTP_IF_MODIFIED_SINCE'] = http_date(when - datetime.timedelta(seconds=1))
    status, headers, body = get(app, again)
    if cache and how not in ('other tag', 'earlier'):
        g.check(status.startswith('304') and body == b'', 'not modified')
        h = dict(headers)
        g.check('Content-Length' not in h and 'Content-Type' not in h, 'no description')
    else:
        g.check(status == '200 OK' and body == FILES[name], 'sent again')


@scenario(functions=[S + '__call__', S + 'generate_etag'], n=40, note='changed files')
def s_changed(g):
    """A changed file has another tag, and is sent."""
    d = tempfile.mkdtemp(prefix='c22-')
    try:
        p = os.path.join(d, 'a.txt')
        n = g.int('size', 0, 5)
        t = g.int('time', 10 ** 9, 10 ** 9 + 5)
        with open(p, 'wb') as f:
            f.write(b'x' * n)
        os.utime(p, (t, t))
        app = SharedDataMiddleware(fallback, {'/': d})
        status, headers, body = get(app, create_environ('/a.txt'))
        tag = dict(headers)['Etag']
        m = g.int('size', 0, 5)
        u = g.int('time', 10 ** 9, 10 ** 9 + 5)
        with open(p, 'wb') as f:
            f.write(b'y' * m)
        os.utime(p, (u, u))
        env = create_environ('/a.txt')
        env['HTTP_IF_NONE_MATCH'] = tag
        status, headers, body = get(app, env)
        if (n, t) != (m, u):
            g.check(status == '200 OK' and body == b'y' * m, 'sent')
            g.check(dict(headers)['Etag'] != tag, 'tag')
        else:
            g.check(status.startswith('304'), 'same')
        os.remove(p)
        status, headers, body = get(app, create_environ('/a.txt'))
        g.check(status.startswith('404'), 'gone')
    finally:
        shutil.rmtree(d)
