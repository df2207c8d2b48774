"""names that OpenMDAO's own system classes define (run with the interpreter that has OpenMDAO)"""
import json
import openmdao.api as om
names = set()
for c in (om.Group, om.ExplicitComponent, om.ImplicitComponent):
    g = c()
    names |= set(dir(g)) | set(vars(g))
names = sorted(names)
json.dump(names, open('/verif/data/om_attrs.json', 'w'))
