#!/usr/bin/env python3
"""Try a mutation: mutate.py FILE OLD NEW HARNESS ID...   (in a scratch copy of the sources)
With FILE = '-', OLD is a patch file."""
import os, shutil, subprocess, sys, tempfile
f, old, new, harness, ids = sys.argv[1], sys.argv[2], sys.argv[3], sys.argv[4], sys.argv[5:]
root = os.environ.get('MUT_ROOT', '/tmp/mut')
os.makedirs(root, exist_ok=True)
r = root + '/repo'
shutil.rmtree(r, ignore_errors=True)
os.makedirs(r)
# keep the times, so that builds are incremental
subprocess.run(['cp', '-a', '/repo/src', '/repo/VERSION', r], check=True)
if f == '-':
 subprocess.run(['patch', '-s', '-p1', '-d', r, '-i', old], check=True)
else:
 p = os.path.join(r, 'src/joedb', f)
 s = open(p).read()
 old = old.encode().decode('unicode_escape'); new = new.encode().decode('unicode_escape')
 assert s.count(old) >= 1, 'old text not found'
 s = s.replace(old, new, 1)
 open(p, 'w').write(s)
env = dict(os.environ, MC_REPO=r, MC_BUILD=root + '/build', MC_NO_EVIDENCE='1')
for i in ids:
 p = subprocess.run(['python3', '/verif/mc/build.py', harness, i], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd='/verif')
 lines = [l for l in p.stdout.split('\n') if l.strip()]
 print('==', i, 'exit', p.returncode)
 print('\n'.join(l[:300] for l in (lines[-40:] if p.returncode == 1 else lines[-3:])))
