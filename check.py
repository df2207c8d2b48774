#!/usr/bin/env python3
"""Entry point of every check:  python3-vt check.py C01

Reads /repo's current sources (never imports or runs them), decides the property, prints
VIOLATION / KNOWN-FINDING lines, rewrites evidence/<id>.json.  Exit 0 held, 1 violated, 2 no answer.
"""

import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

KNOWN = os.path.join(HERE, 'known_findings.jsonl')


def known(pid):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding='utf-8'):
            line = line.strip()
            if not line or line.startswith('#') or line.startswith('fixed:'):
                continue
            d = json.loads(line)
            if d['property'] == pid:
                for k in d['keys'] if 'keys' in d else [d['key']]:
                    out[k] = d.get('what', '')
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    mod = importlib.import_module('sa.checks.' + pid.lower())
    res = mod.check(tier, seed)
    # res: dict(findings=[dict(key, msg, ...)], coverage={...}, assumptions=[...], error=None or str)
    kf = known(pid)
    new, old = [], []
    seen = set()
    for f in res['findings']:
        if f['key'] in seen:
            continue
        seen.add(f['key'])
        (old if f['key'] in kf else new).append(f)
    ev = {
        'property': pid,
        'tier': tier,
        'seed': seed,
        'level': 'other',
        'coverage': res['coverage'],
        'assumptions': res.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(new),
    }
    ev['coverage']['known_findings_seen'] = len(old)
    ev['coverage']['reported'] = [f['key'] + ': ' + f['msg'] for f in new[:50]]
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    path = os.path.join(HERE, 'evidence', pid + '.json')
    with open(path, 'w', encoding='utf-8') as fh:
        json.dump(ev, fh, indent=1, default=str)
    print('%s %s: %s' % (pid, tier, res['coverage'].get('explanation', '')[:400]))
    for k, v in res['coverage'].items():
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            print('  %s = %s' % (k, v))
    for f in old:
        print('KNOWN-FINDING: property=%s %s' % (pid, f['key'] + ' ' + f['msg']))
    if res.get('error') and not new:
        print('ERROR: %s' % res['error'])
        return 2
    if new:
        rep = os.path.join(HERE, 'evidence', pid + '.violations.json')
        with open(rep, 'w', encoding='utf-8') as fh:
            json.dump(new, fh, indent=1, default=str)
        for f in new:
            print('  %s: %s' % (f['key'], f['msg']))
        print('VIOLATION property=%s replay=%s' % (pid, rep))
        return 1
    print('held (%d known findings)  %.1fs' % (len(old), time.time() - t0))
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
