#!/usr/bin/env python3
"""mut.py <ids,> <file under src/oidcmsg> <old> <new> [<file> <old> <new> ...]: runs checks on a changed scratch copy of the source"""
import os, shutil, subprocess, sys, tempfile
ids = sys.argv[1].split(',')
d = tempfile.mkdtemp(prefix='mut')
shutil.copytree('/repo/src', d + '/src')
a = sys.argv[2:]
while a:
    f, old, new = a[:3]
    a = a[3:]
    p = d + '/src/oidcmsg/' + f
    s = open(p).read()
    n = s.count(old)
    if not n:
        sys.exit('not found: ' + old)
    if n > 1:
        print('note: %d occurrences, first changed' % n)
    s = s.replace(old, new, 1)
    open(p, 'w').write(s)
env = dict(os.environ, SA_SRC=d + '/src', SA_EVIDENCE=d)
ps = [(i, subprocess.Popen(['python3', '/verif/check.py', i], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)) for i in ids]
for i, p in ps:
    o = p.communicate()[0]
    print('==', i, p.returncode)
    print('\n'.join(o.splitlines()[-6:]))
shutil.rmtree(d)
