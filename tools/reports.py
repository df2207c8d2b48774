"""writes data/reports.json: the errors and warnings each function reports, the reference of C15"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.checks import c15

ck = c15.Checker()
fs = sorted((f for f in ck.prog.functions if not f.module.external), key=lambda f: f.qual)
rows = sorted({(f.qual, k, tuple(sorted(w))) for f in fs for k, w, _ in ck.own_reports(f)})
json.dump({'functions': sorted({f.qual for f in fs}), 'reports': rows}, open(c15.TABLE, 'w'), indent=0)
print(len(rows), 'reports of', len(fs), 'functions')
