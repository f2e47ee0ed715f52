"""C24 — classes of headers: those that describe the body, those that stay on the connection."""
from pyvc.api import *
from verktyg.http import (
    Headers, is_entity_header, is_hop_by_hop_header, remove_entity_headers, remove_hop_by_hop_headers,
)

META = {
    'level': 'proof',
    'files': ['verktyg/http/basic.py'],
    'assumptions': ['str.lower is an arbitrary idempotent function of the string in the proofs'],
}

B = 'verktyg.http.basic:'
# RFC 2616, 7.1 and 13.5.1
ENTITY = ['allow', 'content-encoding', 'content-language', 'content-length', 'content-location', 'content-md5',
          'content-range', 'content-type', 'expires', 'last-modified']
HOP = ['connection', 'keep-alive', 'proxy-authenticate', 'proxy-authorization', 'te', 'trailer', 'transfer-encoding',
       'upgrade']
NAMES = ENTITY + HOP + ['Content-Type', 'EXPIRES', 'Content-Location', 'Connection', 'TE', 'Trailers', 'X-Other', 'Content',
                        'content-', 'content-type-x', '', 'ETag', 'Date']


def name(g, what='name'):
    return g.str(what, hints=NAMES)


def items(g):
    return g.list('headers', lambda g: (name(g), g.str('value', max=3, without='\r\n')), max=6)


def among(k, names):
    low = k.lower()
    return any(low == n for n in names)


@harness(functions=[B + 'is_entity_header', B + 'is_hop_by_hop_header'])
def h_class(g):
    """The class of a header depends on its name but not on the case of the name."""
    k = name(g)
    g.check(is_entity_header(k) == among(k, ENTITY), 'entity')
    g.check(is_hop_by_hop_header(k) == among(k, HOP), 'hop by hop')


@harness(functions=[B + 'remove_hop_by_hop_headers', B + 'is_hop_by_hop_header'])
def h_hop(g):
    """What is left are the other headers in their order, in the same collection."""
    given = items(g)
    want = [kv for kv in given if not among(kv[0], HOP)]
    h = Headers(given) if g.bool('headers') else list(given)
    r = remove_hop_by_hop_headers(h)
    g.check(r is None, 'in place')
    g.check(same([kv for kv in h], want), 'left')


@harness(functions=[B + 'remove_entity_headers', B + 'is_entity_header'])
def h_entity(g):
    """What is left are the headers that do not describe the body and those that are allowed."""
    given = items(g)
    how = g.choice('allowed', ['default', 'none', 'one', 'two'])
    a, b = name(g, 'first allowed'), name(g, 'second allowed')
    allowed = {'default': ['expires', 'content-location'], 'none': [], 'one': [a], 'two': [a, b]}[how]
    want = [kv for kv in given
            if not among(kv[0], ENTITY) or any(kv[0].lower() == x.lower() for x in allowed)]
    h = Headers(given) if g.bool('headers') else list(given)
    if how == 'default':
        remove_entity_headers(h)
    else:
        remove_entity_headers(h, allowed)
    g.check(same([kv for kv in h], want), 'left')
