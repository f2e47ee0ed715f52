"""C25 — names and addresses made for clients are safe."""
import html.parser
import os
from urllib.parse import unquote, urljoin, urlsplit
from pyvc.api import *
from verktyg.responses import BaseResponse, Response
from verktyg.test import create_environ
from verktyg.utils import append_slash_redirect, get_content_type, redirect, secure_filename
from verktyg.wsgi import get_current_url

META = {
    'level': 'proof',
    'files': ['verktyg/utils.py'],
    'assumptions': ['html.escape and unicodedata.normalize are the standard library'],
}

U = 'verktyg.utils:'


@harness(functions=[U + 'get_content_type'])
def h_content_type(g):
    """Text and XML get the charset appended, all other types are left as they are."""
    m = g.str('mimetype', max=8, only='a-z0-9/+.-', hints=['text/html', 'text/', 'text', 'application/xml', 'image/svg+xml',
                                                        'application/x+xml', 'application/xml+x', 'xapplication/xml'])
    c = g.str('charset', max=4, only='a-z0-9-', hints=['utf-8'])
    is_xml = m == 'application/xml' or m.startswith('application/') and m.endswith('+xml')
    want = m + '; charset=' + c if m.startswith('text/') or is_xml else m
    g.check(get_content_type(m, c) == want, 'type')


QUOTE = Contract('urllib.parse:quote', lambda s, safe='/': s)       # of plain words
PATH = Contract('verktyg.wsgi:get_path_info', lambda environ: environ['PATH_INFO'])
REDIRECT = Contract(U + 'redirect', lambda location, code=302: (location, code))


@harness(functions=[U + 'append_slash_redirect'], uses=[QUOTE, PATH, REDIRECT])
def h_slash(g):
    """The location is the path without slashes at its ends, one slash, and the query if there is one."""
    p = g.str('path', max=4, alphabet='a/', only='a-z/', hints=['/', '/a', 'a', '//a/'])
    q = g.str('query', max=4, alphabet='a=', only='a-z0-9=', hints=['', 'a=b'])
    env = {'PATH_INFO': p, 'SCRIPT_NAME': '/app'}
    if g.bool('query given'):
        env['QUERY_STRING'] = q
    else:
        q = ''
    code = g.choice('code', [301, 308])
    r = append_slash_redirect(env, code) if code != 301 else append_slash_redirect(env)
    loc, c = r if isinstance(r, tuple) else (r.headers['location'], r.status_code)
    g.check(loc == p.strip('/') + '/' + ('?' + q if q else ''), 'location')
    g.check(c == code, 'code')


# -- native -------------------------------------------------------------------

NAMES = ['', '.', '..', '...', '/', '\\', '~', '-', '_', 'a', 'B9', ' ', '\t', '\n', '\x00', '\u2024', '\uff0f', '\uff0e',
         '\u2044', '\ufe52', '\u2025', '\u2026', '\xfc', '\u0131', '\u65e5', '%2e', '%2F', ':', 'C:', '*', '?', '"', "'", '$(x)',
         '|', '&', ';', '.htaccess', 'etc', 'passwd', '\u212b', '\ufb01', '\u2475', '\u33c7', '\xbd', '\u2100', '\u202e']
CHARS = set('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_.-')


@scenario(functions=[U + 'secure_filename'], n=12000, note='Unicode normal forms')
def s_filename(g):
    """The name is a plain one in the folder, whatever was given; plain names are kept."""
    s = ''.join(g.choice('piece', NAMES) for _ in range(g.int('pieces', 0, 6)))
    if g.bool('random'):
        s = g.str('name', max=8, alphabet='ab._-/ \\')
    r = secure_filename(s)
    g.check(type(r) is str and set(r) <= CHARS, 'characters')
    g.check(r[:1] not in ('.', '_') and r[-1:] not in ('.', '_') or r == '', 'ends')
    g.check(secure_filename(r) == r, 'stable')
    for folder in ('/srv/up', 'up'):
        p = os.path.join(folder, r)
        g.check(os.path.dirname(os.path.normpath(p)) == folder if r else p == folder + '/', 'in the folder')
    if s and set(s) <= CHARS and s[0] not in '._' and s[-1] not in '._':
        g.check(r == s, 'kept')
    if set(s) <= CHARS | set(' /'):
        # words are joined, nothing else is lost
        g.check(r == '_'.join(s.replace('/', ' ').split()).strip('._'), 'joined')
    letters = [c for c in s if c.isascii() and c.isalnum()]
    if s.isascii():
        g.check([c for c in r if c.isalnum()] == letters, 'letters')


class Page(html.parser.HTMLParser):
    def __init__(self, text):
        html.parser.HTMLParser.__init__(self)
        self.tags = []
        self.links = []
        self.text = ''
        self.feed(text)
        self.close()

    def handle_starttag(self, tag, attrs):
        self.tags.append((tag, sorted(k for k, v in attrs)))
        self.links += [v for k, v in attrs if k == 'href']

    def handle_data(self, data):
        self.text += data

    def handle_comment(self, data):
        self.tags.append('comment')


TARGETS = ['/', '/a', 'http://a.test/', 'https://a.test:8080/x', '//b.test/', '?a=b', '#f', 'a/b', 'http://\u2603.net/p',
           'itms-services://?action=x', 'http://u:p@a.test/']
TAILS = ['', '"', "'", '<b>', '</a><script>x</script>', '&', '&amp;', '&lt;', ' onclick="x"', '\xfc', '%20', '%', '?x="y"',
         '#"', '>', '--><!--', '<!--', '\\', '{}', '%s', '%d', '\x7f', '=']


@scenario(functions=[U + 'redirect'], n=6000, note='the page is read by an HTML parser')
def s_redirect(g):
    """A redirect has the code, an ASCII location that is the target, and a page with one link to it and no other markup."""
    target = g.choice('target', TARGETS) + ''.join(g.choice('tail', TAILS) for _ in range(g.int('tails', 0, 3)))
    code = g.choice('code', [301, 302, 303, 305, 307])
    cls = g.choice('class', [None, BaseResponse])
    r = redirect(target, code, cls) if cls else redirect(target, code) if code != 302 or g.bool('say so') else \
        redirect(target)
    g.check(r.status_code == code and isinstance(r, cls or Response), 'code')
    g.check(r.headers.getlist('content-type') == ['text/html; charset=utf-8'], 'type')
    loc = r.headers['location']
    g.check(r.headers.getlist('location') == [loc] and type(loc) is str, 'location')
    g.check(loc.isascii() and not set(loc) & set('<>" '), 'ascii')
    a, b = urlsplit(loc), urlsplit(target)
    g.check((a.scheme, unquote(a.path), unquote(a.query), unquote(a.fragment))
            == (b.scheme, unquote(b.path), unquote(b.query), unquote(b.fragment)), 'names the target')
    body = r.get_data(as_text=True)
    page = Page(body)
    plain = Page(redirect('/', code).get_data(as_text=True))
    g.check(page.tags == plain.tags, 'markup')
    g.check(page.links == [loc], 'link')
    g.check(target in page.text, 'shown')


PIECES = ['a', 'b c', '\xfc', '\u65e5', '?', '#', '%', '%2F', '&', '=', ':', 'http:', '..', ';', '"', '<', '\\', '@']


@scenario(functions=[U + 'append_slash_redirect'], n=6000, note='whole requests')
def s_slash(g):
    """The location is the URL of the request with a slash at the end of the path, on the same host, with the query."""
    env = create_environ('/', 'http://h.test/')
    segments = [g.choice('segment', PIECES) for _ in range(g.int('segments', 1, 4))]
    g.assume(segments[-1] != '' and segments[0] != '' and not set(segments) & {'.', '..'})
    path = '/' * g.int('slashes', 1, 3) + '/'.join(segments)
    env['PATH_INFO'] = path.encode('utf8').decode('latin1')
    script = g.choice('script', ['', '/app'])
    env['SCRIPT_NAME'] = script
    query = g.choice('query', ['', 'a=b', 'a=%20&b=%2F%3F', 'x'])
    env['QUERY_STRING'] = query
    code = g.choice('code', [301, 302])
    r = append_slash_redirect(env, code) if code == 302 else append_slash_redirect(env)
    g.check(r.status_code == code, 'code')
    loc = r.headers['location']
    base = get_current_url(env, root_only=True)
    g.check(urlsplit(loc).scheme == '' and urlsplit(loc).netloc == '', 'same host')
    u = urlsplit(urljoin(base, loc))
    g.check((u.scheme, u.netloc) == ('http', 'h.test'), 'host')
    g.check(unquote(u.path) == script + '/' + path.strip('/') + '/', 'path')
    g.check(u.query == query and u.fragment == '', 'query')
