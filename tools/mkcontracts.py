#!/usr/bin/env python3
"""CONTRACTS.md: every contract, from the directives in contracts/*/*.go."""
import glob, os, re, json
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for f in sorted(glob.glob(root + '/contracts/*/*.go')):
    pkg = f.split('/')[-2]
    doc = []
    for line in open(f):
        if line.startswith('//'):
            doc.append(line.rstrip('\n')); continue
        m = re.match(r'func (vc_\w+)\(', line)
        if m:
            d = {}
            says = []
            for l in doc:
                k = re.match(r'//vc:(\w+) ?(.*)', l)
                if k: d.setdefault(k.group(1), []).append(k.group(2))
                else: says.append(l[2:].strip())
            props = ' '.join(d.get('prop', [])).split()
            how = 'bounded' if 'bounded' in d else 'proved'
            if 'norun' in d and how == 'bounded': how = 'bounded, assumed at call sites'
            if 'modular' in d: how += ', modular'
            for p in props:
                rows.setdefault(p, []).append((pkg + '.' + m.group(1), how, ' '.join(' '.join(d.get('target', [])).split()), ' '.join(says).strip()))
        doc = []
bugs = {}
for m in sorted(glob.glob(root + '/seeded/*/meta.json')):
    j = json.load(open(m)); bugs.setdefault(j['property'], []).append((m.split('/')[-2], j['needs'], j['what_it_breaks']))
out = ['# Contracts by property (written by tools/mkcontracts.py)\n',
       '"proved": every obligation discharged for all inputs; "bounded": executed on generated inputs only; "modular": callers are checked against it, not the body.\n']
for l in open(root + '/properties.jsonl'):
    p = json.loads(l)
    out.append('\n## %s %s\n' % (p['id'], p['title']))
    out.append('| contract | how | functions | says |\n|---|---|---|---|')
    for r in rows.get(p['id'], []): out.append('| %s | %s | %s | %s |' % tuple(x.replace('|', '\\|') for x in r))
    if p['id'] in bugs:
        out.append('\nPlanted: ' + '; '.join('**%s** (%s; needs %s)' % (b[0], b[2], b[1]) for b in bugs[p['id']]) + '.')
n = {}
for rs in rows.values():
    for r in rs: n[r[0]] = r[1]
out.append('\n%d contracts: %d proved, %d bounded.' % (len(n), sum(not x.startswith('b') for x in n.values()), sum(x.startswith('b') for x in n.values())))
open(root + '/CONTRACTS.md', 'w').write('\n'.join(out) + '\n')
print(out[-1])
