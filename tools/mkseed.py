"""mkseed.py SPEC.py : SPEC defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source).
Writes /verif/seeded/<ID>/ (patch.diff, demo.sh, demo.py, meta.json).  Works on a scratch copy of the files."""
import json, os, subprocess, sys, tempfile, runpy, shutil
spec = runpy.run_path(sys.argv[1])
d = '/verif/seeded/' + spec['ID']
os.makedirs(d, exist_ok=True)
T = tempfile.mkdtemp()
try:
    diff = b''
    files = []
    for f, old, new, *nth in spec['EDITS']:
        for side in 'ab':
            p = os.path.join(T, side, f)
            if not os.path.exists(p):
                os.makedirs(os.path.dirname(p), exist_ok=True)
                shutil.copyfile('/repo/' + f, p)
        if f not in files:
            files.append(f)
        p = os.path.join(T, 'b', f)
        s = open(p).read()
        if nth:      # nth occurrence (0-based)
            parts = s.split(old)
            s = old.join(parts[:nth[0]+1]) + new + old.join(parts[nth[0]+1:])
        else:
            assert s.count(old) == 1, (f, s.count(old), old)
            s = s.replace(old, new)
        open(p, 'w').write(s)
    for f in files:
        r = subprocess.run(['diff', '-u', 'a/' + f, 'b/' + f], cwd=T, stdout=subprocess.PIPE)
        out = r.stdout.decode().split('\n')
        out[0] = '--- a/' + f
        out[1] = '+++ b/' + f
        diff += ('diff --git a/%s b/%s\n' % (f, f)).encode() + '\n'.join(out).encode()
    open(d + '/patch.diff', 'wb').write(diff)
finally:
    shutil.rmtree(T)
open(d + '/demo.py', 'w').write(spec['DEMO'])
open(d + '/demo.sh', 'w').write('''#!/bin/bash
# run in /repo after the build; exit 0 if the behaviour is right
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export HOME=$T LSLCONFIGDIR=$T/lsl XDG_CONFIG_HOME=$T MPLBACKEND=Agg PYTHONPATH=/repo SCRATCH=$T PYTHONDONTWRITEBYTECODE=1
cd "$T"
timeout 250 /opt/venv/bin/python -W ignore "$D/demo.py"
''')
json.dump({'property': spec['PROP'], 'needs': spec['NEEDS'], 'what_it_breaks': spec['BREAKS']},
          open(d + '/meta.json', 'w'), indent=1)
r = subprocess.run(['git', '-C', '/repo', 'apply', '--check', d + '/patch.diff'])
print(spec['ID'], 'apply check', r.returncode)
