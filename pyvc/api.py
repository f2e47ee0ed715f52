"""Declaring contracts.

A property module (props/cNN.py) declares

  @harness(...)   one contract of real functions: precondition (the draws and
                  g.assume), the call of the real code, postcondition
                  (g.check).  Proved symbolically for every draw, and
                  evaluated natively on the same real code.
  @scenario(...)  the same, evaluated natively only (bounded stand-in).
  contract(...)   substitutes a specification for a callee at call sites.
"""
import importlib

from .vlib import *            # noqa
from . import vlib
from .vlib import Reject, ContractFailure


class Missing(Exception):
    """A private function the contract is about no longer exists."""


class Harness(object):
    def __init__(self, fn, functions=(), uses=(), budget=40.0, n=1500, listmax=2, unroll=3,
                 prove=True, bounded=True, note='', invariants=None, lower=(), size=5,
                 max_paths=4000, thorough=1, core=True, weight=1.0):
        self.fn = fn
        self.name = fn.__name__
        self.doc = ' '.join((fn.__doc__ or '').split())
        self.functions = tuple(functions)
        self.uses = tuple(uses)
        self.budget = budget
        self.n = n
        self.listmax = listmax
        self.unroll = unroll
        self.prove = prove
        self.bounded = bounded
        self.note = note
        self.hints = invariants
        self.lower = lower
        self.size = size
        self.max_paths = max_paths
        self.weight = weight


class Contract(object):
    def __init__(self, target, spec, trusted=False):
        self.target = target            # 'module:qualname'
        self.spec = spec
        self.trusted = trusted

    def resolve(self):
        return resolve(self.target)


class Abstract(Contract):
    """A callee replaced by a description of the call (its result is a record
    of the arguments): proves how the callee is used, whatever it does."""


class Opaque(Contract):
    """A callee about which a contract assumes only that it is a total
    deterministic function of arguments of the given kinds."""
    def __init__(self, target, argkinds, reskind):
        Contract.__init__(self, target, None, trusted=True)
        self.argkinds = tuple(argkinds)
        self.reskind = reskind


def resolve(path):
    mod, _, qual = path.partition(':')
    o = importlib.import_module(mod)
    for part in qual.split('.'):
        if part in getattr(o, '__dict__', {}):
            v = o.__dict__[part]
            if isinstance(v, (staticmethod, classmethod)):
                v = v.__func__
            o = v
        else:
            o = getattr(o, part)
    return o


REGISTRY = {}


def _mod(fn):
    return REGISTRY.setdefault(fn.__module__, [])


def harness(**kw):
    def deco(fn):
        _mod(fn).append(Harness(fn, **kw))
        return fn
    return deco


def scenario(**kw):
    def deco(fn):
        kw.setdefault('prove', False)
        kw.setdefault('bounded', False)
        _mod(fn).append(Harness(fn, **kw))
        return fn
    return deco
