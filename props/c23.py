"""C23 — mounting applications: the full path is preserved and the longest mount wins."""
from pyvc.api import *
from verktyg.wsgi import DispatcherMiddleware

META = {
    'level': 'proof',
    'files': ['verktyg/wsgi.py'],
}

F = ['verktyg.wsgi:DispatcherMiddleware.__call__', 'verktyg.wsgi:DispatcherMiddleware.__init__']
PATHS = ['', '/', '/a', '/a/', '/a/b', '/a/b/c', '//', '/a//b', 'a', 'a/b', '/ab', '/ab/c', '//a', '/a/b/']


class App(object):
    """An application that records how it was called."""
    def __init__(self, name):
        self.name = name

    def __call__(self, environ, start_response):
        return (self.name, environ['SCRIPT_NAME'], environ['PATH_INFO'], environ, start_response)


def path(g, name):
    return g.str(name, max=5, alphabet='/ab', hints=PATHS)


@harness(functions=F)
def h_preserved(g):
    """Whatever is mounted, SCRIPT_NAME + PATH_INFO seen by the chosen
    application equals what the server passed, and the arguments are handed on."""
    p = path(g, 'path')
    s = path(g, 'script')
    mounts = g.dict('mounts', lambda g: path(g, 'mount'), lambda g: App('m'), max=4)
    env = {}
    if g.bool('has script'):
        env['SCRIPT_NAME'] = s
    else:
        s = ''
    env['PATH_INFO'] = p
    env['other'] = g.tok('other')
    o = env['other']
    sr = g.tok('start_response')
    r = DispatcherMiddleware(App('root'), mounts)(env, sr)
    g.check(r[1] + r[2] == s + p, 'full path')
    g.check(r[1].startswith(s), 'script name only grows')
    g.check(r[3] is env and r[4] is sr, 'arguments')
    g.check(env['other'] is o and len(env) == 3, 'nothing else touched')


@harness(functions=F)
def h_choice(g):
    """The chosen application is one mounted at exactly the consumed prefix,
    or the fallback when the consumed prefix is not a mount."""
    p = path(g, 'path')
    mounts = g.dict('mounts', lambda g: path(g, 'mount'), lambda g: App('m'), max=4)
    r = DispatcherMiddleware(App('root'), mounts)({'PATH_INFO': p}, None)
    if r[0] == 'm':
        g.check(r[1] in mounts, 'mounted there')
    else:
        g.check(r[1] not in mounts, 'not a mount')
    g.check(r[2] == '' or r[2].startswith('/'), 'cut at a separator')


def spec_longest(p, mounts):
    """(mount, rest): the longest mounted prefix of whole segments."""
    cut = len(p)
    while True:
        if p[:cut] in mounts:
            return p[:cut], p[cut:]
        i = p.rfind('/', 0, cut)
        if i < 0:
            return None, None
        cut = i


@scenario(functions=F, n=6000, note='compares against every segment boundary of the path')
def s_longest(g):
    """The application mounted at the longest prefix of whole path segments is
    called; with no such mount the fallback application is."""
    p = path(g, 'path') + path(g, 'more')
    ms = g.list('mounts', lambda g: path(g, 'mount'), max=4)
    if g.bool('under') and ms:
        p = g.choice('which', ms) + path(g, 'rest')
    mounts = {}
    for m in ms:
        mounts[m] = App(m)
    want, rest = spec_longest(p, mounts)
    env = {'PATH_INFO': p, 'SCRIPT_NAME': path(g, 'script')}
    s = env['SCRIPT_NAME']
    d = DispatcherMiddleware(App(None)) if not mounts and g.bool('none') else DispatcherMiddleware(App(None), mounts)
    r = d(env, None)
    g.check(same(r[0], want), 'application')
    if want is not None:
        g.check(r[1] == s + want and r[2] == rest, 'split')
    g.check(r[1] + r[2] == s + p, 'full path')


@harness(functions=F)
def h_segments(g):
    """For a path of segments: exactly the longest mounted prefix of whole
    segments is consumed."""
    a = g.str('a', max=2, alphabet='ab', without='/', hints=['a', 'b', ''])
    b = g.str('b', max=2, alphabet='ab', without='/', hints=['a', 'b', ''])
    c = g.str('c', max=2, alphabet='ab', without='/', hints=['a', 'b', ''])
    n = g.choice('n', [0, 1, 2, 3])
    p = ['', '/' + a, '/' + a + '/' + b, '/' + a + '/' + b + '/' + c][n]
    pre = ['', '/' + a, '/' + a + '/' + b, '/' + a + '/' + b + '/' + c][:n + 1]
    mounts = g.dict('mounts', lambda g: path(g, 'mount'), lambda g: App('m'), max=4)
    w = None
    for q in pre:
        if q in mounts:
            w = q
    s = path(g, 'script')
    d = DispatcherMiddleware(App('root'), mounts)
    # twice, below different scripts
    for t in ['', s]:
        r = d({'PATH_INFO': p, 'SCRIPT_NAME': t}, None)
        if w is None:
            g.check(r[0] == 'root', 'fallback')
        else:
            g.check(r[0] == 'm' and r[1] == t + w, 'longest')
        g.check(r[1] + r[2] == t + p, 'full path')
