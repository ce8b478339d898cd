#!/usr/bin/env python3
"""mkseed.py SPEC.py : SPEC defines id, prop, needs, breaks, edits=[(file,old,new)], demo (C++ text), optional demo_sh.
Writes /verif/seeded/<id>/ and tries the demonstration on nothing (use vcheck --bug ID, or tools/tryseed.sh)."""
import os, json, subprocess, sys, shutil
ns = {}
exec(open(sys.argv[1]).read(), ns)
i = ns['id']
d = '/verif/seeded/' + i
os.makedirs(d, exist_ok=True)
w = '/tmp/mkseed'
shutil.rmtree(w, ignore_errors=True)
subprocess.run(['git', '-C', '/repo', 'worktree', 'prune'], check=True)
subprocess.run(['git', 'clone', '-q', '/repo', w], check=True)
for f, old, new in ns['edits']:
 p = os.path.join(w, 'src/joedb', f)
 s = open(p).read()
 assert s.count(old) == 1, (f, s.count(old), old)
 open(p, 'w').write(s.replace(old, new))
diff = subprocess.run(['git', '-C', w, 'diff'], check=True, stdout=subprocess.PIPE, text=True).stdout
open(d + '/patch.diff', 'w').write(diff)
json.dump({"property": ns['prop'], "needs": ns['needs'], "what_it_breaks": ns['breaks']}, open(d + '/meta.json', 'w'), indent=1)
if 'demo' in ns:
 open(d + '/demo.cpp', 'w').write(ns['demo'].lstrip('\n'))
for k, v in ns.get('files', {}).items():
 open(os.path.join(d, k), 'w').write(v)
sh = ns.get('demo_sh')
if sh is None:
 sh = '''#!/bin/bash
# Run in /repo after the build.
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/joedb_demo.XXXXXX)
trap 'rm -rf "$T"' EXIT
R=$PWD
%s
g++ -std=c++20 -O0 -w -pthread -D_FILE_OFFSET_BITS=64 -D_GLIBCXX_DEBUG -DJOEDB_HAS_ASIO -DJOEDB_HAS_BOOST -DJOEDB_HAS_BROTLI %s -I"$R/src" -I"$T" "$HERE/demo.cpp" %s -o "$T/demo" -L"$R/_build" -ljoedb -Wl,-rpath,"$R/_build" %s
cd "$T"
timeout 100 ./demo
''' % (ns.get('prepare', ''), ns.get('flags', ''), ns.get('sources', ''), ns.get('libs', ''))
open(d + '/demo.sh', 'w').write(sh)
os.chmod(d + '/demo.sh', 0o755)
shutil.rmtree(w)
print(diff)
