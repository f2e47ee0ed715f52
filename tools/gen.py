"""python3-vt tools/gen.py: rewrite properties.jsonl and MANIFEST.json from
tools/properties.py, and baseline.json from the evidence files present."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from tools.properties import P      # noqa
from pyvc.api import REGISTRY       # noqa

NA = []
TECH = ('contracts on the real functions; verification conditions generated from the current source '
        '(loop invariants inferred inductively) and discharged by z3/cvc5')


def main():
    os.chdir(HERE)
    sys.path.insert(0, '/repo')
    ids = sorted(P)
    with open('properties.jsonl', 'w') as f:
        for i in ids:
            f.write(json.dumps(P[i]) + '\n')
    base = {}
    checks = []
    for i in ids:
        m = importlib.import_module('props.' + i.lower())
        st = {}
        try:
            ev = json.load(open('evidence/%s.json' % i))
            st = ev['coverage']['contracts']
        except OSError:
            print('no evidence for', i)
        base[i] = st
        n = {}
        for s in st.values():
            n[s] = n.get(s, 0) + 1
        note = m.META.get('note') or ''
        level = m.META['level']
        checks.append({
            'property': i,
            'quick_cmd': 'python3-vt check.py %s' % i,
            'thorough_cmd': 'VERIF_TIER=thorough python3-vt check.py %s --thorough' % i,
            'technique': TECH if level == 'proof' else m.META.get('technique', TECH),
            'level': level,
            'level_note': ('%d contracts proved for all inputs on the unchanged tree, %d bounded stand-ins '
                           '(symbolic within a list/loop bound, or native evaluation), never counted as '
                           'proved. %s' % (n.get('proved', 0), sum(n.values()) - n.get('proved', 0),
                                           note)).strip(),
        })
    with open('MANIFEST.json', 'w') as f:
        json.dump({'version': 1,
                   'setup_cmd': 'python3-vt -c "import z3, sys; sys.path.insert(0, \'.\'); import pyvc.run"',
                   'checks': checks, 'not_applicable': NA,
                   'notes': 'No hooks in /repo. check.py <id> --replay FILE re-runs a recorded violation.'},
                  f, indent=1)
    with open('baseline.json', 'w') as f:
        json.dump(base, f, indent=1, sort_keys=True)



def section(i):
    """What decides one property."""
    m = importlib.import_module('props.' + i.lower())
    try:
        st = json.load(open('evidence/%s.json' % i))['coverage']['contracts']
    except OSError:
        st = {}
    p = P[i]
    out = ['### %s — %s' % (i, p['title']), '', p['statement'], '']
    for h in REGISTRY[m.__name__]:
        s = st.get(h.name, '?')
        how = {'proved': 'proved for all inputs', 'bounded': 'bounded', 'native-only': 'native'}.get(s, s)
        if s == 'native-only':
            how = 'native, %d cases' % h.n
        if h.note and s != 'proved':
            how += '; ' + h.note
        uses = ', '.join(sorted({c.target.split(':')[1] for c in h.uses}))
        out.append('* `%s` (%s) %s%s' % (h.name, how, h.doc, (' Callees under contract: %s.' % uses) if uses else ''))
    if m.META.get('note'):
        out += ['', m.META['note']]
    if m.META.get('assumptions'):
        out += ['', 'Assumed: ' + '; '.join(m.META['assumptions']) + '.']
    return '\n'.join(out + [''])


def design():
    out = [open('tools/design.md').read(), '## Properties and what decides them\n',
           'Every contract takes its functions from /repo on every run. "proved": every obligation of the contract is '
           'discharged from the current source for all inputs and all iterations. "bounded": symbolic exploration with '
           'lists of at most two elements (five in the thorough tier). "native": evaluated by CPython on drawn cases. A '
           'proved contract is evaluated natively as well.\n']
    out += [section(i) for i in sorted(P)]
    out.append('## Planted bugs\n')
    out.append('| change | property | what it needs | caught by |\n|---|---|---|---|')
    caught = dict(l.split(' ', 1) for l in open('tools/caught.txt').read().splitlines())
    for s in sorted(os.listdir('seeded')):
        d = json.load(open('seeded/%s/meta.json' % s))
        out.append('| %s | %s | %s | %s |' % (s, d['property'], d['needs'], caught.get(s, '').replace(',', ', ') or '?'))
    out.append('\n## Defects found\n')
    for l in open('known_findings.txt'):
        if l.startswith(('fixed:', 'known:')):
            out.append('* ' + l.strip())
    with open('DESIGN.md', 'w') as f:
        f.write('\n'.join(out) + '\n')


if __name__ == '__main__':
    main()
    design()
