"""Path exploration of one contract harness."""
import time
import z3

from .core import (
    Unsupported, PathEnd, Restart, PyExc, Path, Stats, Sym, model_value,
)
from .interp import Interp, to_func, UFunc
from .gen import SymGen, LIST


class Result(object):
    def __init__(self):
        self.obligations = []       # (label, status, backend)
        self.refuted = []           # dicts
        self.unknown = []
        self.unsupported = []
        self.paths = 0
        self.bounded = set()
        self.inexact = set()
        self.time = 0.0
        self.stats = None
        self.functions = set()
        self.contracts = set()
        self.timeout = False

    @property
    def discharged(self):
        return sum(1 for o in self.obligations if o[1] == 'discharged')

    @property
    def proved(self):
        return (not self.unsupported and not self.refuted and not self.unknown
                and not self.timeout and self.discharged > 0 and not self.bounded)


class Explorer(object):
    def __init__(self, harness, mode='proof', contracts=None, verifying=(), models=None,
                 budget=60.0, max_paths=4000, listmax=2, unroll=3, strmax=3, hints=None,
                 lower_consts=()):
        self.harness = harness
        self.mode = mode
        self.contracts = contracts or {}
        self.verifying = set(verifying)
        self.models = models or {}
        self.budget = budget
        self.max_paths = max_paths
        self.listmax = listmax
        self.unroll = unroll
        self.strmax = strmax
        self.max_steps = 60000
        self.loopdb = {}
        self.no_candidates = False
        self.lower_consts = list(lower_consts)
        self.stats = Stats()
        self.functions_seen = set()
        self.used_contracts = set()
        self.covered = set()
        self.hints = hints

    def push(self, prefix):
        self.work.append(prefix)

    def loop(self, key):
        return self.loopdb.setdefault(key, {
            'writes': set(), 'shapes': {}, 'dropped': set(), 'listcand': {}, 'cut': False})

    def drop(self, st, cid):
        """Give up a candidate from the next attempt on (within one attempt
        paths have to be replayed alike)."""
        self.pending.append((st, cid))

    def exits(self, st):
        if not st.get('exits'):
            self.pending.append((st, None))

    def user_candidates(self, I, entry, locs):
        """Annotated loop invariants: predicates of (value now, value on
        entry) of one written location, or of the values of two of them.
        They name no variable of the code; each is tried on every location
        and kept only where it is inductive."""
        out = []
        for i, fn in enumerate(self.hints or ()):
            n = fn.__code__.co_argcount
            for l in locs:
                if n == 2:
                    out.append((('inv', i, l), lambda s, D, l=l, fn=fn: I.invariant(
                        fn, s[l], entry[l][1])))
                else:
                    for m in locs:
                        if m != l:
                            out.append((('inv', i, l, m), lambda s, D, l=l, m=m, fn=fn: I.invariant(
                                fn, s[l], s[m], None)))
        return out

    def obligation(self, I, cond, label):
        if isinstance(cond, bool) and cond is False:
            # false on this path: refuted iff the path is feasible
            status, backend, model = I.path.prove(False)
        else:
            status, backend, model = I.path.prove(cond)
        r = self.result
        r.obligations.append((label, status, backend))
        if status == 'refuted':
            r.refuted.append({
                'label': label, 'model': model, 'draws': list(I.path.draws),
                'inexact': list(I.path.inexact), 'cond': str(cond)[:400],
                'backend': backend,
                'pc': [str(c)[:200] for c in I.path.pc[-12:]],
            })
            raise PathEnd()
        if status == 'unknown':
            r.unknown.append({'label': label, 'draws': list(I.path.draws)})
        if not isinstance(cond, bool):
            I.path.assume(cond)

    def run(self):
        t0 = time.time()
        deadline = t0 + self.budget
        for attempt in range(60):
            self.result = Result()
            self.pending = []
            self.work = [[]]
            restarted = False
            while self.work:
                if time.time() > deadline or self.result.paths > self.max_paths:
                    self.result.timeout = True
                    break
                prefix = self.work.pop()
                self.result.paths += 1
                path = Path(self, prefix)
                I = Interp(self, path)
                g = SymGen(I)
                try:
                    I.call_func(to_func(self.harness), (g,), {})
                    if path._check() == z3.unsat:
                        pass
                except PathEnd:
                    pass
                except Restart:
                    restarted = True
                    break
                except PyExc as e:
                    r = path._check()
                    if r != z3.unsat:
                        m = path.solver.model() if r == z3.sat else None
                        lab = 'no-exception:%s' % e.cls.__name__
                        st = 'refuted' if r == z3.sat else 'unknown'
                        self.result.obligations.append((lab, st, 'z3'))
                        rec = {
                            'label': lab, 'model': m, 'draws': list(path.draws),
                            'inexact': list(path.inexact), 'cond': repr(e.value)[:400],
                            'backend': 'z3', 'pc': [str(c)[:200] for c in path.pc[-12:]]}
                        (self.result.refuted if st == 'refuted' else self.result.unknown).append(rec)
                except Unsupported as e:
                    if path._check() != z3.unsat:
                        self.result.unsupported.append(str(e))
                        if len(self.result.unsupported) > 40:
                            break
                except RecursionError:
                    self.result.unsupported.append('recursion in the engine')
                except z3.Z3Exception as e:
                    self.result.unsupported.append('z3: %s' % e)
                self.result.bounded.update(path.bounded)
                self.result.inexact.update(str(x) for x in path.inexact)
            for st, cid in self.pending:
                if cid is None:
                    st['exits'] = True
                else:
                    st['dropped'].add(cid)
            if restarted or self.pending and not self.result.timeout:
                continue
            break
        r = self.result
        r.time = time.time() - t0
        r.stats = self.stats
        r.functions = set(self.functions_seen)
        r.contracts = set(self.used_contracts)
        return r


def draws_from(rec):
    """Concrete draw values of a refutation, or None."""
    m = rec['model']
    if m is None:
        return None
    out = []
    for name, v in rec['draws']:
        if v is LIST:
            return None
        if isinstance(v, UFunc):
            v = 1
        elif isinstance(v, Sym) and v.k == 'tok':
            d = ''.join(c for c in str(m.eval(v.t, model_completion=True)) if c.isdigit())
            v = int(d or 0) % 4
        else:
            try:
                v = model_value(m, v)
            except Exception:
                return None
        out.append((name, v))
    return out
