"""kf.py known|fixed PROPERTY KEY TEXT : add to known_findings.json"""
import json, sys
p = '/verif/known_findings.json'
d = json.load(open(p))
st, prop, key, what = sys.argv[1:5]
d['findings'] = [e for e in d['findings'] if (e['property'], e['key']) != (prop, key)]
if st == 'fixed':
    what = 'fixed: property=%s %s %s' % (prop, key, what)
d['findings'].append(dict(property=prop, key=key, status=st, what=what))
json.dump(d, open(p, 'w'), indent=1)
