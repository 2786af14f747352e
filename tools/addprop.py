"""addprop.py: append/replace property entries given as a JSON list on stdin."""
import json, sys
p = '/verif/properties.jsonl'
rows = [json.loads(x) for x in open(p) if x.strip()]
for n in json.load(sys.stdin):
    a = n.pop('files', None)
    if a is not None:
        n['anchors'] = {'files': a, 'mechanism': [{'name': k, 'where': w} for k, w in n.pop('mech')], 'hook_needed': None}
        n['quantifier'] = {'over': n.pop('over'), 'text': n.pop('qtext')}
    assert len(n['title']) <= 80, n['title']
    rows = [r for r in rows if r['id'] != n['id']] + [n]
rows.sort(key=lambda r: r['id'])
open(p, 'w').write(''.join(json.dumps(r) + '\n' for r in rows))
