"""Regenerates /verif/MANIFEST.json from the check modules and properties.jsonl."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
props = [json.loads(l) for l in open(V + '/properties.jsonl') if l.strip()]
na = json.load(open(V + '/tools/not_applicable.json'))
checks = []
for p in props:
    pid = p['id']
    if pid in na:
        continue
    m = importlib.import_module('checks.' + pid.lower())
    assert m.ID == pid
    checks.append({'property': pid,
                   'quick_cmd': '/opt/venv/bin/python -W ignore run.py %s --tier quick' % pid,
                   'thorough_cmd': '/opt/venv/bin/python -W ignore run.py %s --tier thorough' % pid,
                   'evidence_file': 'evidence/%s.json' % pid,
                   'technique': m.TECH, 'level': m.LEVEL, 'level_note': m.NOTE})
man = {'version': 1, 'setup_cmd': 'bash setup.sh',
       'hooks': {'guard': 'none', 'enable': 'no hooks are needed: the simulator replaces the operating-system seams from outside',
                 'source_commits': []},
       'checks': checks,
       'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(na.items())],
       'notes': 'Deterministic simulation with fault injection; see DESIGN.md. Replay a violation with: /opt/venv/bin/python run.py --replay FILE'}
json.dump(man, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
