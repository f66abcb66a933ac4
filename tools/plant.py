#!/usr/bin/env python3
"""plant.py <spec.py>: makes seeded/<id>/ from a spec (ID, PROP, EDITS [(file under src/oidcmsg, old, new)], DEMO (python), NEEDS, BREAKS)
and reports whether tests pass, the demo tells the two apart, and the property's check catches it (all in a scratch copy)."""
import json, os, shutil, subprocess, sys, tempfile
for spec in sys.argv[1:]:
    g = {}
    exec(open(spec).read(), g)
    d = tempfile.mkdtemp(prefix='plant')
    r = d + '/repo'
    subprocess.run(['git', 'clone', '-q', '/repo', r], check=True)
    for f, old, new in g['EDITS']:
        p = r + '/src/oidcmsg/' + f
        s = open(p).read()
        if s.count(old) != 1:
            sys.exit('%s: %d occurrences of %r' % (g['ID'], s.count(old), old))
        open(p, 'w').write(s.replace(old, new))
    o = '/verif/seeded/' + g['ID']
    os.makedirs(o, exist_ok=True)
    diff = subprocess.run(['git', '-C', r, 'diff'], capture_output=True, text=True).stdout
    open(o + '/patch.diff', 'w').write(diff)
    open(o + '/demo.py', 'w').write(g['DEMO'].lstrip('\n'))
    open(o + '/demo.sh', 'w').write('#!/bin/bash\n# exit 0 if the property holds here\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(o + '/demo.sh', 0o755)
    json.dump({'property': g['PROP'], 'needs': g['NEEDS'], 'what_it_breaks': g['BREAKS']}, open(o + '/meta.json', 'w'), indent=1)
    env = dict(os.environ, PYTHONPATH=r + '/src', PYTHONDONTWRITEBYTECODE='1', TZ='UTC')
    t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', 'tests', '-q', '-p', 'no:cacheprovider', '--timeout=300'], cwd=r, env=env, capture_output=True, text=True)
    good = subprocess.run([o + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
    bad = subprocess.run([o + '/demo.sh'], cwd=r, env=env, capture_output=True, text=True)
    ev = dict(os.environ, SA_SRC=r + '/src', SA_EVIDENCE=d)
    res = []
    for i in [g['PROP']] + g.get('ALSO', []):
        c = subprocess.run(['python3', '/verif/check.py', i], env=ev, capture_output=True, text=True)
        res.append('%s:%d' % (i, c.returncode))
    print(g['ID'], '| tests', t.stdout.strip().splitlines()[-1], '| demo', good.returncode, bad.returncode, '| check', ' '.join(res))
    if good.returncode:
        print(good.stderr[-800:])
    if not bad.returncode or '-v' in sys.argv:
        print(bad.stdout[-300:], bad.stderr[-500:])
    shutil.rmtree(d)
