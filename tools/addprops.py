"""dev helper: merge the records of a Python file (list P of tuples id,title,statement,over,qtext,why,files,[(mech,where)]) into props.json, sorted by id"""
import json, sys
d = {x['id']: x for x in json.load(open('/verif/props.json'))}
ns = {}
exec(open(sys.argv[1]).read(), ns)
for i, t, s, o, q, w, f, m in ns['P']:
    d[i] = dict(id=i, title=t, statement=s, quantifier=dict(over=o, text=q), why_tests_cant=w, anchors=dict(files=f, mechanism=[dict(name=a, where=b) for a, b in m]))
json.dump([d[k] for k in sorted(d)], open('/verif/props.json', 'w'), indent=1)
