"""Decide one property: run every contract harness of props/<id>.py against
the current /repo."""
import ast
import warnings
import glob
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import re
import resource
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
for p in (REPO, ROOT):
    if p not in sys.path:
        sys.path.insert(0, p)
warnings.simplefilter('ignore')
os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')

from .vlib import Reject, ContractFailure      # noqa: E402
from .gen import RandomGen, ReplayGen, enc, dec     # noqa: E402
from . import api                               # noqa: E402


class Hang(BaseException):
    pass


# -- constants of the code under test, as search material ---------------

def mine(files=None):
    strs, ints = set(), set()
    names = files or [os.path.relpath(f, REPO) for f in sorted(
        glob.glob(os.path.join(REPO, 'verktyg', '*.py')) +
        glob.glob(os.path.join(REPO, 'verktyg', '*', '*.py')))
        if '/testsuite/' not in f and not f.endswith('/test.py')]
    for f in names:
        try:
            tree = ast.parse(open(os.path.join(REPO, f)).read())
        except (OSError, SyntaxError):
            continue
        docs = set()
        for n in ast.walk(tree):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                docs.add(id(n.value))
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and id(n) not in docs:
                v = n.value
                if isinstance(v, bool):
                    continue
                if isinstance(v, int) and abs(v) < 1 << 20:
                    ints.add(v)
                elif isinstance(v, str) and 0 < len(v) <= 24:
                    strs.add(v)
                elif isinstance(v, bytes) and 0 < len(v) <= 24:
                    strs.add(v.decode('latin1'))
    return sorted(strs), sorted(ints)


# -- native evaluation -----------------------------------------------------

def _alarm(*a):
    raise Hang()


def evaluate(h, g, cpu=6.0):
    """None if the contract holds (or the case is rejected), else a reason."""
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, cpu)
    try:
        h.fn(g)
        return None
    except Reject:
        g.rejected = True
        return None
    except api.Missing:
        raise
    except ContractFailure as e:
        return 'postcondition %s is false' % e
    except Hang:
        return 'no result within %g s of CPU time' % cpu
    except RecursionError as e:
        return 'unexpected RecursionError'
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if tb and tb[-1].filename.endswith('pyvc/gen.py'):
            g.rejected = True
            g.broken = True
            return None
        if isinstance(e, AttributeError) and tb and os.path.basename(os.path.dirname(tb[-1].filename)) == 'props' \
                and str(e.name).startswith('_') and not str(e.name).startswith('__'):
            raise api.Missing(e.name)       # the contract names a private attribute that is gone
        where = ' <- '.join('%s:%d' % (os.path.basename(f.filename), f.lineno)
                            for f in reversed(tb[-4:]))
        return 'unexpected %s: %s at %s' % (type(e).__name__, str(e)[:200], where)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def rng_for(seed, *parts):
    return random.Random(int.from_bytes(
        hashlib.sha256(repr((seed,) + parts).encode()).digest()[:8], 'big'))


def fuzz(h, seed, n, budget, strs, ints, salt=''):
    """Returns dict(evaluations, distinct, failure, samples)."""
    t0 = time.time()
    out = {'evaluations': 0, 'distinct': 0, 'rejected': 0, 'failure': None, 'samples': []}
    seen = set()
    for i in range(n):
        if time.time() - t0 > budget:
            break
        rng = rng_for(seed, h.name, salt, i)
        g = RandomGen(rng, strs, ints, size=rng.choice((1, 2, 3, h.size, h.size, h.size + 3)))
        g.rejected = False
        why = evaluate(h, g)
        out['evaluations'] += 1
        if g.rejected:
            out['rejected'] += 1
        elif g.checks:
            key = hashlib.md5(repr(g.log).encode('utf8', 'surrogatepass')).digest()
            if key not in seen:
                seen.add(key)
                if len(out['samples']) < 2:
                    out['samples'].append([[nm, enc(v)] for nm, v in g.log][:12])
        if why:
            out['failure'] = shrink(h, list(g.log), why)
            break
    out['distinct'] = len(seen)
    out['time'] = time.time() - t0
    return out


def replay_values(h, values):
    g = ReplayGen(values)
    g.rejected = False
    why = evaluate(h, g)
    return why, g


def shrink(h, log, why, budget=6.0):
    """Greedy reduction of a failing list of (name, value) draws."""
    t0 = time.time()

    def pack(log, why, ok):
        return {'draws': [[n, enc(v)] for n, v in log], 'why': why, 'reproduced': ok}
    w, g = replay_values(h, log)
    if w is None:
        return pack(log, why, False)
    cur, why = list(g.log), w

    def attempt(cand):
        nonlocal cur, why
        if time.time() - t0 > budget:
            return False
        w, g = replay_values(h, cand)
        if w is not None and w.startswith('no result') == why.startswith('no result'):
            if len(repr(g.log)) < len(repr(cur)):
                cur, why = list(g.log), w
                return True
        return False

    changed = not why.startswith('no result')
    while changed and time.time() - t0 < budget:
        changed = False
        i = 0
        while i < len(cur) and time.time() - t0 < budget:
            n, v = cur[i]
            cands = []
            if isinstance(v, (str, bytes)) and v:
                cands = [v[:0], v[:len(v) // 2], v[len(v) // 2:]]
                cands += [v[:j] + v[j + 1:] for j in range(min(len(v), 12))]
            elif isinstance(v, bool):
                cands = []
            elif isinstance(v, int) and v > 0:
                cands = [0, v // 2, v - 1]
            for c in cands:
                if attempt(cur[:i] + [(n, c)] + cur[i + 1:]):
                    changed = True
                    break
            else:
                # drop one element of the list whose length is drawn here
                if n.endswith('.len') and isinstance(v, int) and v > 0:
                    for w in range(1, 5):
                        if attempt(cur[:i] + [(n, v - 1)] + cur[i + 1 + w:]):
                            changed = True
                            break
            i += 1
    return pack(cur, why, True)


# -- symbolic -----------------------------------------------------------------

def contracts_for(h):
    out = {}
    missing = []
    for c in h.uses:
        try:
            out[c.resolve()] = c
        except (AttributeError, ImportError):
            missing.append(c.target)
    return out, missing


def symbolic(h, mode, budget, listmax=None, unroll=None):
    from .explore import Explorer
    cs, missing = contracts_for(h)
    ex = Explorer(h.fn, mode=mode, contracts=cs, budget=budget, hints=h.hints,
                  listmax=listmax or h.listmax, unroll=unroll or h.unroll,
                  lower_consts=h.lower, max_paths=h.max_paths)
    r = ex.run()
    r.missing = missing
    return r


def crosscheck(h, logs, budget):
    """Run the engine on fixed inputs on which CPython satisfied the contract:
    the engine must find a feasible path and agree with CPython."""
    from .explore import Explorer
    bad = []
    n = 0
    t0 = time.time()
    for log in logs:
        if time.time() - t0 > budget:
            break
        cs, _ = contracts_for(h)
        ex = Explorer(h.fn, mode='bounded', contracts=cs, budget=10, lower_consts=h.lower,
                      unroll=60)
        ex.fixed = [v for _, v in log]
        r = ex.run()
        n += 1
        if r.refuted and not any(x['inexact'] for x in r.refuted) and not cs:
            bad.append(('engine refutes %s where CPython accepts' % r.refuted[0]['label'], log))
        elif not r.obligations and not r.unsupported and not r.timeout:
            bad.append(('engine finds no feasible path', log))
    return n, bad


def symbolic_job(h, budget, tier):
    """Proof first; where it does not close, a bounded symbolic check."""
    t0 = time.time()
    out = {'proof': None, 'bounded': None, 'failure': None, 'definite': None}
    from .explore import draws_from

    def summary(r):
        return {
            'obligations': len(r.obligations), 'discharged': r.discharged,
            'by': count(o[2] for o in r.obligations if o[1] == 'discharged'),
            'labels': count(o[0] for o in r.obligations),
            'refuted': [{'label': x['label'], 'inexact': [str(i) for i in x['inexact']],
                         'cond': x['cond'], 'pc': x['pc']} for x in r.refuted][:4],
            'unknown': [x['label'] for x in r.unknown][:4],
            'unsupported': sorted(set(r.unsupported))[:4], 'timeout': r.timeout,
            'bounded': sorted(map(str, r.bounded))[:4], 'paths': r.paths,
            'proved': r.proved, 'time': round(r.time, 2),
            'solver_s': round(r.stats.solver_s, 2), 'queries': r.stats.queries,
            'functions': sorted(r.functions), 'contracts': sorted(getattr(c, 'target', str(c)) for c in r.contracts),
            'missing': r.missing,
        }

    def try_replay(r):
        for x in r.refuted[:12]:
            vals = draws_from(x)
            if vals is None:
                continue
            try:
                why, g = replay_values(h, vals)
            except Exception:
                continue
            if why is not None:
                f = shrink(h, list(g.log), why)
                f['from'] = 'counterexample of obligation %s' % x['label']
                f['backend'] = x['backend']
                return f
        return None

    if h.prove:
        r = symbolic(h, 'proof', budget)
        out['proof'] = summary(r)
        if r.proved:
            out['time'] = time.time() - t0
            return out
        out['failure'] = try_replay(r)
        exact = [x for x in r.refuted if not x['inexact']]
        if out['failure'] is None and exact and not r.missing and \
                not any(isinstance(c, api.Abstract) for c in h.uses):
            out['definite'] = {'label': exact[0]['label'], 'cond': exact[0]['cond'],
                               'pc': exact[0]['pc'],
                               'replayable': draws_from(exact[0]) is not None}
    if out['failure'] is None and h.bounded:
        for lm, un in ((1, 2), (h.listmax, h.unroll)) if tier == 'quick' else (
                (1, 2), (2, 3), (h.listmax + 1, h.unroll + 2)):
            r = symbolic(h, 'bounded', budget, listmax=lm, unroll=un)
            out['bounded'] = summary(r)
            out['bounded']['listmax'] = lm
            out['bounded']['unroll'] = un
            out['failure'] = try_replay(r)
            if out['failure'] is not None or r.timeout:
                break
    out['time'] = time.time() - t0
    return out


def count(it):
    d = {}
    for x in it:
        d[x] = d.get(x, 0) + 1
    return d


# -- scheduling -----------------------------------------------------------------

def _child(conn, fn, args):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        sys.setrecursionlimit(6000)
        devnull = open(os.devnull, 'w')
        sys.stderr = devnull
        sys.stdout = devnull
        conn.send(('ok', fn(*args)))
    except api.Missing as e:
        conn.send(('missing', str(e)))
    except BaseException as e:
        conn.send(('error', '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:])))
    finally:
        conn.close()


def run_jobs(jobs, width=8):
    """jobs: list of (key, fn, args, hard_limit)."""
    ctx = mp.get_context('fork')
    pending = list(jobs)
    live = []
    results = {}
    while pending or live:
        while pending and len(live) < width:
            key, fn, args, lim = pending.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(b, fn, args))
            p.start()
            b.close()
            live.append((key, p, a, time.time() + lim))
        time.sleep(0.02)
        for item in list(live):
            key, p, a, dl = item
            if a.poll():
                try:
                    results[key] = a.recv()
                except EOFError:
                    results[key] = ('error', 'worker died')
                p.join()
                live.remove(item)
            elif not p.is_alive():
                results[key] = ('error', 'worker ended with code %s' % p.exitcode)
                live.remove(item)
            elif time.time() > dl:
                p.kill()
                p.join()
                results[key] = ('timeout', None)
                live.remove(item)
    return results


def native_job(h, seed, n, budget, strs, ints):
    return fuzz(h, seed, n, budget, strs, ints)


def cross_job(h, seed, strs, ints, k):
    logs = []
    for i in range(k * 6):
        g = RandomGen(rng_for(seed, h.name, 'x', i), strs, ints, size=2)
        g.rejected = False
        if evaluate(h, g) is None and not g.rejected and g.checks:
            logs.append(g.log)
        if len(logs) >= k:
            break
    return crosscheck(h, logs, 20.0)


def main(argv=None):
    argv = sys.argv[1:] if argv is None else argv
    if '--replay' in argv:
        return replay_main(argv[argv.index('--replay') + 1])
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    elif '--quick' in argv:
        tier = 'quick'
    only = [a[7:] for a in argv if a.startswith('--only=')]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    mod = importlib.import_module('props.' + pid.lower())
    hs = [h for h in api.REGISTRY.get(mod.__name__, []) if not only or h.name in only]
    meta = mod.META
    strs, ints = mine(meta.get('files'))
    alls, alli = mine()
    strs = strs + [s for s in alls if s not in set(strs)][:60]
    scale = 12 if tier == 'thorough' else 1
    jobs = []
    sym = [h for h in hs if h.prove or h.bounded]
    sym.sort(key=lambda h: -h.budget)
    bscale = 3 if tier == 'thorough' else 1
    for h in hs:
        jobs.append((('native', h.name), native_job,
                     (h, seed, int(h.n * scale), 45.0 * bscale, strs, ints), 120.0 * bscale))
    for h in sym:
        jobs.append((('sym', h.name), symbolic_job, (h, h.budget * bscale, tier),
                     h.budget * bscale * 3 + 90))
        if h.prove:
            jobs.append((('cross', h.name), cross_job,
                         (h, seed, strs, ints, 4 if tier == 'quick' else 20), 60.0))
    res = run_jobs(jobs)
    # deeper native search where the proof is lost
    extra = []
    base = baseline().get(pid, {})
    for h in sym:
        s = res.get(('sym', h.name))
        lost = base.get(h.name) == 'proved' and not (
            s and s[0] == 'ok' and s[1]['proof'] and s[1]['proof']['proved'])
        if lost and not (s and s[0] == 'ok' and s[1]['failure']):
            for j in range(3):
                extra.append((('deep', h.name, j), fuzz,
                              (h, seed, int(h.n * 12 * scale), 40.0, strs, ints, 'deep%d' % j),
                              120.0))
    res.update(run_jobs(extra))
    return report(pid, tier, seed, mod, hs, res, t0, verbose='-v' in argv, partial=bool(only))


def baseline():
    try:
        return json.load(open(os.path.join(ROOT, 'baseline.json')))
    except (OSError, ValueError):
        return {}


def known_findings(pid):
    out = []
    try:
        for line in open(os.path.join(ROOT, 'known_findings.txt')):
            m = re.match(r'known: property=(\S+) harness=(\S+) match=(\S+) (.*)', line.strip())
            if m and m.group(1) == pid:
                out.append(m.groups()[1:])
    except OSError:
        pass
    return out


def report(pid, tier, seed, mod, hs, res, t0, verbose, partial):
    failures = []
    definite = []
    proof = {}
    notes = []
    obligations = discharged = 0
    by = {}
    solver_s = 0.0
    functions = set()
    contracts = set()
    bounded = []
    evals = distinct = 0
    samples = []
    missing = []
    cross_n = 0
    cross_bad = []
    base = baseline().get(pid, {})
    for h in hs:
        r = res.get(('native', h.name))
        if r and r[0] == 'ok':
            v = r[1]
            evals += v['evaluations']
            distinct += v['distinct']
            if v['samples'] and len(samples) < 6:
                samples.append({'contract': h.name, 'draws': v['samples'][0]})
            if v['failure']:
                failures.append((h, v['failure']))
            if v['evaluations'] and not v['distinct']:
                notes.append('%s: native evaluation never reached a check' % h.name)
        elif r and r[0] == 'missing':
            missing.append('%s: %s' % (h.name, r[1]))
            continue
        elif r:
            notes.append('%s native: %s' % (h.name, r))
        for j in range(3):
            d = res.get(('deep', h.name, j))
            if d and d[0] == 'ok':
                evals += d[1]['evaluations']
                distinct += d[1]['distinct']
                if d[1]['failure']:
                    failures.append((h, d[1]['failure']))
        s = res.get(('sym', h.name))
        status = 'native-only'
        if s and s[0] == 'ok':
            v = s[1]
            p = v['proof']
            if p:
                solver_s += p['solver_s']
            if p and p['proved']:
                status = 'proved'
                obligations += p['obligations']
                discharged += p['discharged']
                for k, n in p['by'].items():
                    by[k] = by.get(k, 0) + n
                functions.update(p['functions'])
                contracts.update(p['contracts'])
            else:
                status = 'bounded' if v['bounded'] or not h.prove else 'undecided'
                why = {}
                if p:
                    why = {k: p[k] for k in ('refuted', 'unknown', 'unsupported', 'timeout')
                           if p[k]}
                b = v['bounded'] or {}
                bounded.append({
                    'contract': h.name,
                    'bound': 'lists <= %s elements, %s loop iterations before cutting, strings '
                             'unbounded' % (b.get('listmax'), b.get('unroll')),
                    'obligations_bounded': b.get('obligations'),
                    'discharged_bounded': b.get('discharged'),
                    'complete_within_bound': bool(b.get('proved')),
                    'unsupported': b.get('unsupported'),
                    'proof_lost': why if h.prove else 'not attempted: %s' % h.note})
                if h.prove and p and p['unknown'] and not p['refuted']:
                    notes.append('%s: solver gave no answer for %s' % (h.name, p['unknown']))
            if v['failure']:
                failures.append((h, v['failure']))
            elif v['definite'] and base.get(h.name) == 'proved':
                definite.append((h, v['definite']))
        elif s:
            status = 'undecided'
            notes.append('%s symbolic: %s' % (h.name, s))
        if status == 'native-only':
            bounded.append({'contract': h.name,
                            'bound': 'native evaluation of %s cases' % (
                                r[1]['evaluations'] if r and r[0] == 'ok' else 0),
                            'reason': h.note})
        c = res.get(('cross', h.name))
        if c and c[0] == 'ok':
            cross_n += c[1][0]
            cross_bad += [(h.name, x[0], repr(x[1])[:300]) for x in c[1][1]]
        elif c:
            notes.append('%s crosscheck: %s' % (h.name, c))
        proof[h.name] = status
    known = known_findings(pid)
    lines = []
    violations = 0
    os.makedirs(os.path.join(ROOT, 'evidence', 'replays'), exist_ok=True)
    seen = set()
    printed_known = set()
    for h, f in failures:
        k = [x for x in known if x[0] == h.name and re.search(x[1], f['why'] + ' ' + repr(f['draws']))]
        if k:
            if k[0] not in printed_known:
                printed_known.add(k[0])
                lines.append('KNOWN-FINDING: property=%s %s' % (pid, k[0][2]))
            continue
        if h.name in seen:
            continue
        seen.add(h.name)
        path = os.path.join('evidence', 'replays', '%s-%s.json' % (pid, h.name))
        with open(os.path.join(ROOT, path), 'w') as fh:
            json.dump(dict(f, property=pid, contract=h.name, statement=h.doc,
                           replay='python3-vt check.py --replay %s' % path), fh, indent=1)
        violations += 1
        lines.append('%s %s: %s' % (h.name, f['why'], json.dumps(f['draws'])[:400]))
        lines.append('VIOLATION property=%s replay=%s' % (pid, path))
    for h, d in definite:
        if h.name in seen:
            continue
        seen.add(h.name)
        path = os.path.join('evidence', 'replays', '%s-%s.json' % (pid, h.name))
        with open(os.path.join(ROOT, path), 'w') as fh:
            json.dump(dict(d, property=pid, contract=h.name, statement=h.doc,
                           failed_obligation=d['label'], verifier_output=d), fh, indent=1)
        violations += 1
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
    trusted = ['pyvc: the AST-level verification-condition generator in /verif/pyvc and its models '
               'of CPython builtins (cross-checked against CPython on every run)',
               'z3 %s, cvc5' % z3_version(),
               'CPython 3.12 executing the same source text the verifier reads']
    trusted += list(mod.META.get('trusted', ()))
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': mod.META['level'],
        'coverage': {
            'obligations': obligations, 'discharged': discharged,
            'checker_cmd': 'python3-vt check.py %s' % pid,
            'trusted_base': trusted,
            'discharged_by': by, 'solver_seconds': round(solver_s, 2),
            'functions_under_contract': sorted(set(f for h in hs for f in h.functions)),
            'functions_interpreted': sorted(functions),
            'contracts_used_at_call_sites': sorted(contracts),
            'contracts': proof,
            'bounded_standins': bounded,
            'missing': missing,
            'evaluations': evals, 'distinct_nontrivial': distinct,
            'rule': 'random draws of the contract arguments (seeded; constants mined from the '
                    'current source); non-trivial = precondition held and a postcondition was '
                    'evaluated',
            'samples': samples,
            'engine_crosscheck_runs': cross_n,
            'engine_crosscheck_disagreements': cross_bad,
        },
        'assumptions': list(mod.META.get('assumptions', ())) + ASSUMPTIONS + notes,
        'wall_s': round(time.time() - t0, 2),
        'violations': violations,
    }
    if not partial:
        with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1)
    for ln in lines:
        print(ln)
    st = count(proof.values())
    print('%s: %s; obligations %d discharged %d; native evaluations %d; %.1fs' % (
        pid, ', '.join('%s %d' % kv for kv in sorted(st.items())), obligations, discharged,
        evals, time.time() - t0))
    if verbose:
        for h in hs:
            print('  %-40s %s %s' % (h.name, proof.get(h.name), timing(res, h)))
        for b in bounded:
            print('  bounded:', json.dumps(b)[:600])
        for n in notes:
            print('  note:', n[:1500])
        for m in missing:
            print('  missing:', m)
        for c in cross_bad:
            print('  CROSS:', c)
    if violations:
        return 1
    if not evals and not discharged:
        print('nothing was checked')
        return 2
    return 0


def timing(res, h):
    out = []
    for k in ('native', 'sym', 'cross'):
        r = res.get((k, h.name))
        if r and r[0] == 'ok' and isinstance(r[1], dict):
            out.append('%s %.1fs' % (k, r[1].get('time', 0)))
            if k == 'native':
                out.append('(%d ev, %d distinct)' % (r[1]['evaluations'], r[1]['distinct']))
            elif r[1].get('proof'):
                p = r[1]['proof']
                out.append('(%d/%d obl, %d paths)' % (p['discharged'], p['obligations'], p['paths']))
        elif r and r[0] != 'ok':
            out.append('%s %s' % (k, r[0]))
    return ' '.join(out)


ASSUMPTIONS = [
    'Python integers are mathematical integers; floats are treated as reals where they appear',
    'strings are sequences of code points below 0x30000 in proofs (z3 string theory)',
    'values have the builtin types the contracts draw (no subclasses overriding operators)',
    'termination is not proved; native evaluation fails a contract that uses 6 s of CPU',
]


def z3_version():
    try:
        import z3
        return z3.get_version_string()
    except Exception:
        return '?'


def replay_main(path):
    f = json.load(open(path))
    mod = importlib.import_module('props.' + f['property'].lower())
    h = [h for h in api.REGISTRY[mod.__name__] if h.name == f['contract']][0]
    if 'draws' not in f:
        print(json.dumps(f, indent=1))
        return 1
    why, g = replay_values(h, [(n, dec(v)) for n, v in f['draws']])
    for nm, v in g.log:
        print('  %s = %r' % (nm, v))
    print(why or 'contract holds')
    return 1 if why else 0
