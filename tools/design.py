"""DESIGN.md from its template and the planted bugs"""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(root + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (root, d)))
    rows.append('| %s: %s | %s | %s |' % (d, m['what_it_breaks'], m['property'], m.get('caught_by', m['property'])))
s = open(root + '/tools/DESIGN.tpl').read()
s = s.replace('@@SEEDS', '\n'.join(rows)).replace('@@AST\n', '')
open(root + '/DESIGN.md', 'w').write(s)
