#!/usr/bin/env python3
"""Writes /verif/DESIGN.md."""
import json, os, glob, re, csv
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
docs = {}
for f in sorted(glob.glob(V + '/harness/*/*.go')):
    lines = open(f).read().split('\n')
    for i, l in enumerate(lines):
        m = re.match(r'func (H_(\w\d+)_\w+)\(\)', l)
        if m:
            d, j = [], i - 1
            while j >= 0 and lines[j].startswith('// '):
                d.insert(0, lines[j][3:]); j -= 1
            t = ' '.join(d)
            docs.setdefault(m.group(2), []).append(t if t else m.group(1))
times = {}
if os.path.exists(V + '/tools/times.tsv'):
    for r in csv.reader(open(V + '/tools/times.tsv'), delimiter='\t'):
        times[(r[0], r[1])] = r[2:]
o = [open(V + '/tools/design_head.md').read().rstrip(), '', '## 4. The properties', '',
     'All are decided by bounded symbolic execution as above; the oracle is the expected value the harness computes from',
     'the pieces it built the input of, or from a list of the operations it performed (never from the code under test).', '']
for p in props:
    o += ['### %s %s' % (p['id'], p['title']), '', p['statement'], '',
          '- **Quantified over:** ' + p['quantifier']['text'],
          '- **Why tests cannot settle it:** ' + p['why_tests_cant'],
          '- **Code:** ' + ', '.join(p['anchors']['files']),
          '- **Observed at:** ' + ', '.join(p['anchors']['observe_at'])]
    for tier in ('quick', 'thorough'):
        if (p['id'], tier) in times:
            o.append('- **Cost (%s):** %s' % (tier, ', '.join(times[(p['id'], tier)])))
    o.append('- **Harnesses and bounds:**')
    for d in docs.get(p['id'], []):
        o.append('  - `%s`' % d.split(':')[0] + (':' + d.split(':', 1)[1] if ':' in d else ''))
    o.append('')
find, fixed = [], []
for l in open(V + '/known_findings.txt'):
    l = l.strip()
    if l.startswith('finding: '): find.append(l[9:])
    elif l.startswith('fixed: '): fixed.append(l[7:])
o += ['## 5. Findings and repairs', '',
      'Recorded, not repaired (the stable tests demand the behaviour):', '']
for l in find:
    m = re.match(r'property=(\w+) harness=(\w+) .*:: (.*)', l)
    o.append('- %s (`%s`): %s' % (m.group(1), m.group(2), m.group(3)))
o += ['', 'Repaired by `fix:` commits in /repo (%d entries; a fixed entry suppresses nothing):' % len(fixed), '']
for l in fixed:
    m = re.match(r'property=(\w+) (\w+) (.*)', l)
    o.append('- %s `%s` %s' % m.groups())
res = {}
if os.path.exists(V + '/tools/seeded_results.tsv'):
    for r in csv.reader(open(V + '/tools/seeded_results.tsv'), delimiter='\t'):
        res[r[0]] = r[1:]
sd = sorted(glob.glob(V + '/seeded/*/meta.json'))
o += ['', '## 6. Planted bugs', '',
      'Each was written from the text of a property and the code, confirmed (builds, stable tests pass, demonstration fails',
      'with it and passes without) and kept whether or not it was caught at first. Most of those missed at first led to wider',
      'harness domains: other letter case, lists of three, values 0 and beyond 2^31, blanks inside texts, empty values,',
      'second calls after a refused one, optional getters before the check. The table shows the last run of the quick check.', '',
      '| bug | property | needs | quick check |', '|---|---|---|---|']
for f in sd:
    i = os.path.basename(os.path.dirname(f)); m = json.load(open(f))
    r = res.get(i)
    o.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '\\|'), ('caught' if r[0] == '1' else 'missed') + ', ' + r[1] + ' s' if r else '?'))
n = [res[os.path.basename(os.path.dirname(f))][0] for f in sd if os.path.basename(os.path.dirname(f)) in res]
o += ['', '%d bugs, %d run last, %d caught.' % (len(sd), len(n), n.count('1')), '']
o.append(open(V + '/tools/design_tail.md').read().rstrip() if os.path.exists(V + '/tools/design_tail.md') else '')
open(V + '/DESIGN.md', 'w').write('\n'.join(o) + '\n')
