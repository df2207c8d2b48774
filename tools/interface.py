"""Record what each group takes from outside and offers, for C16 (run when a fix commit changes it)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa import wiring as W

rs = W.sweep({'cap': 400, 'rand': 0, 'seed': 1, 'limit': 700})
links = {}
for r in rs:
    for k, d in r.get('ends', {}).items():
        for x, ns in d.items():
            links.setdefault(k, {}).setdefault(x, set()).update(ns)
names = sorted({n for r in rs for f in r['iface'].values() for x in f for n in x} | {n for d in links.values() for ns in d.values() for n in ns})
num = {n: i for i, n in enumerate(names)}
out = {}
for r in rs:
    base = None
    o = {}
    for what, f in r['iface'].items():
        f = [{num[n] for n in x} for x in f]
        if base is None:
            base = f
            o[what] = [sorted(x) for x in f]
        elif f == base:
            o[what] = 0
        else:
            o[what] = [[sorted(b - a), sorted(a - b)] for a, b in zip(base, f)]
    if o:
        out[r['class']] = o
with open(os.path.join(HERE, 'data', 'interface.json'), 'w') as f:
    f.write('{"names": %s,\n"groups": {\n' % json.dumps(names))
    f.write(',\n'.join('%s: {\n%s}' % (json.dumps(k), ',\n'.join('%s: %s' % (json.dumps(w), json.dumps(x, separators=(',', ':'))) for w, x in o.items())) for k, o in out.items()))
    f.write('\n},\n"links": {\n')
    f.write(',\n'.join('%s: %s' % (json.dumps(k), json.dumps({x: sorted(num[n] for n in ns) for x, ns in sorted(d.items())}, separators=(',', ':'))) for k, d in sorted(links.items())))
    f.write('\n}}\n')
