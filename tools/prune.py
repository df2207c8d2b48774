"""Maintenance (never called by a check): drop known findings that the last run no longer sees.
usage: tools/prune.py < outputs-of-check.py"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
seen = set()
props = set()
for l in sys.stdin:
    if l.startswith('KNOWN-FINDING: property='):
        p, k = l.split('property=', 1)[1].split(' ', 1)
        for d in (1,):
            seen.add((p, k))
    elif l[:1] == 'C' and ':' in l:
        props.add(l.split()[0])
out = []
for l in open(H + '/known_findings.jsonl'):
    s = l.strip()
    if not s or s.startswith('#') or s.startswith('fixed:'):
        out.append(l); continue
    d = json.loads(s)
    if d['property'] in props and not any(p == d['property'] and k.startswith(d['key'] + ' ') for p, k in seen):
        continue
    out.append(l)
open(H + '/known_findings.jsonl', 'w').writelines(out)
print(len(out), 'lines')
