"""Write data/totals.json: what each total of each model consists of, as reviewed."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import totals as T

CAP, RAND = 200, 30


def main():
    rs = T.sweep({'cap': CAP, 'rand': RAND, 'seed': 1, 'keep': True, 'again': (2, 3), 'memos': {}, 'limit': 1500})
    out = {}
    for r in rs:
        if not any(m[0] for m in r['models'].values()):
            continue
        cfgs = list(r['models'])
        e = {'configs': cfgs, 'names': sorted({x for m in r['models'].values() for x in m[2]}), 'totals': {}}
        for i, (flat, pure, have) in enumerate(r['models'].values()):
            for q, d in flat.items():
                t = e['totals'].setdefault(q, {'rows': [], 'at': [-1] * len(cfgs)})
                row = [d, q in pure]
                if row not in t['rows']:
                    t['rows'].append(row)
                t['at'][i] = t['rows'].index(row)
        out[r['class']] = e
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data', 'totals.json')
    with open(p, 'w') as f:
        json.dump(out, f, sort_keys=True, separators=(',', ':'))
    print(len(out), sum(len(e['configs']) for e in out.values()), sum(len(e['totals']) for e in out.values()), os.path.getsize(p))


main()
