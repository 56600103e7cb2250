#!/usr/bin/env python3
"""Regenerates DESIGN.md from tools/design_head.md, the harness directives, tools/oracles.py and tools/design_tail.md."""
import json, re, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(V + '/tools/oracles.py').read())
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
har = {}
for f in sorted(glob.glob(V + '/harness/vh/*/*.go')):
    pkg = f.split('/')[-2]
    lines = open(f).read().split('\n')
    for i, l in enumerate(lines):
        if not l.startswith('//vh:'):
            continue
        j = i
        while lines[j].startswith('//'):
            j -= 1
        doc = ' '.join(x[2:].strip() for x in lines[j+1:i] if x.strip() != '//')
        name = re.search(r'func (VH_\w+)', '\n'.join(lines[i:i+4])).group(1)
        doc = re.sub(r'^' + name + r':?\s*', '', doc)
        kv = l[5:].split()
        ps = [p for k in kv if k.startswith('prop=') for p in k[5:].split(',')]
        b = ' '.join(k for k in kv if re.match(r'(case|quick|thorough):', k))
        b = b.replace('case:', '').replace('quick:', 'q:').replace('thorough:', 't:')
        for p in ps:
            har.setdefault(p, []).append((pkg + '.' + name, doc, b))
out = [open(V + '/tools/design_head.md').read().rstrip(), '']
out.append('## Properties\n')
for p in props:
    i = p['id']
    out.append('### %s %s\n' % (i, p['title']))
    out.append(ORACLES[i].strip() + '\n')
    hs = har.get(i, [])
    if i in ('P41', 'P35') and len(hs) > 25:
        out.append('Harnesses: %d, generated or written one per operation (`pure.go`, `reuse.go` of each harness package).\n' % len(hs))
        continue
    out.append('Harnesses (name, what is asserted, bounds; `q:` quick tier, `t:` thorough tier, otherwise both):\n')
    for n, d, b in hs:
        d = d.rstrip('.')
        out.append('- `%s` %s%s' % (n, d, (' — `' + b + '`') if b else ''))
    out.append('')
out.append(open(V + '/tools/design_tail.md').read().rstrip())
for n in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(V + '/seeded/' + n + '/meta.json'))
    out.append('| %s | %s | %s |' % (n, m['property'], m['needs'].replace('|', '/')))
open(V + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
