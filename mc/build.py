#!/usr/bin/env python3
# Build one harness of /verif/mc against the current working tree of /repo, and
# run it: build.py [--build-only] HARNESS [args...]
#
# Sources of the library are globbed, so that files that are added, renamed or
# split are picked up. Nothing is written in /repo: code generated by joedbc
# goes to the build directory.
import os, re, subprocess, sys, shutil

VERIF = os.environ.get('VERIF_DIR') or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MC_REPO', '/repo')
MC = os.path.join(VERIF, 'mc')

# harness: (groups, schemas, extra compile flags, extra link flags, variant)
HARNESSES = {}

def harness(name, groups=('core',), schemas=(), cflags='', ldflags='', variant='std', sources=()):
 HARNESSES[name] = dict(groups=groups, schemas=schemas, cflags=cflags,
  ldflags=ldflags, variant=variant, sources=list(sources) or [name + '.cpp'])

exec(open(os.path.join(MC, 'harnesses.py')).read())

VARIANTS = {
 'std': '-O1 -D_GLIBCXX_DEBUG',
 'opt': '-O2',
 'asan': '-O1 -g1 -D_GLIBCXX_DEBUG -fsanitize=address,undefined -fno-sanitize=signed-integer-overflow -fno-sanitize-recover=undefined -fno-omit-frame-pointer',
}

EXCLUDE = re.compile(r'(Windows_File|CURL_File|Websocket_Channel|Android_Logger|Apple_Logger|minimal_runtime|/ssh/|/db/)')

BUILD = os.environ.get('MC_BUILD', os.path.join(VERIF, '.build'))
SOURCE = REPO

# Work on a copy of the sources that is updated by content, so that time stamps
# do not matter for incremental builds.
def snapshot():
 global REPO
 copy = os.path.join(BUILD, 'repo')
 wanted = {'VERSION'}
 for root, dirs, files in os.walk(os.path.join(SOURCE, 'src')):
  for f in files:
   if f.endswith(('.cpp', '.h', '.joedbi', '.joedbc', '.in', '.hpp', '.c')):
    wanted.add(os.path.relpath(os.path.join(root, f), SOURCE))
 for root, dirs, files in os.walk(copy):
  for f in files:
   p = os.path.relpath(os.path.join(root, f), copy)
   if p not in wanted:
    os.unlink(os.path.join(copy, p))
 for p in sorted(wanted):
  data = open(os.path.join(SOURCE, p), 'rb').read()
  target = os.path.join(copy, p)
  if os.path.exists(target) and open(target, 'rb').read() == data:
   continue
  os.makedirs(os.path.dirname(target), exist_ok=True)
  with open(target, 'wb') as t:
   t.write(data)
 REPO = copy

def version():
 v = open(os.path.join(REPO, 'VERSION')).read().strip().strip('"').split('.')
 return int(v[0]) * 10000 + int(v[1]) * 100 + int(v[2])

def classify():
 groups = {'core': [], 'compiler': [], 'asio': [], 'enc': [], 'mains': []}
 for root, dirs, files in os.walk(os.path.join(REPO, 'src')):
  dirs.sort()
  for f in sorted(files):
   if not f.endswith('.cpp'):
    continue
   p = os.path.join(root, f)
   if EXCLUDE.search(p):
    continue
   s = open(p, errors='replace').read()
   if re.search(r'^\s*(static\s+)?int\s+main\s*\(', s, re.M) or 'JOEDB_MAIN' in s or 'main_wrapper(' in s and f != 'main_wrapper.cpp':
    groups['mains'].append(p)
   elif '/compiler/' in p:
    groups['compiler'].append(p)
   elif '/asio/' in p or p.endswith('concurrency/Server.cpp') or p.endswith('Local_Channel.cpp'):
    groups['asio'].append(p)
   elif re.search(r'(Encoded_File|Brotli_File|File_Parser|Parsed_Client|Brotli_Codec|Brotli_Decoder)\.cpp$', p) or 'encoded_file' in s:
    groups['enc'].append(p)
   else:
    groups['core'].append(p)
 return groups

def main():
 args = sys.argv[1:]
 build_only = False
 if args and args[0] == '--build-only':
  build_only = True
  args = args[1:]
 name = args[0]
 h = HARNESSES[name]
 variant = h['variant']
 B = os.path.join(BUILD, variant)
 os.makedirs(B, exist_ok=True)
 snapshot()
 groups = classify()
 flags = ('-std=c++20 -pthread -w -D_FILE_OFFSET_BITS=64 -DJOEDB_HAS_ASIO -DJOEDB_HAS_BOOST -DJOEDB_HAS_BROTLI '
  '-DJOEDB_VERSION=%d -fmacro-prefix-map=%s/=/joedb/ ' % (version(), REPO)) + VARIANTS[variant]
 gen = os.path.join(B, 'gen')
 os.makedirs(gen, exist_ok=True)
 n = []
 w = n.append
 w('builddir = ' + B)
 w('rule cxx\n command = g++ %s $fl -I%s -I%s/src -I%s -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc\n description = CXX $out' % (flags, gen, REPO, MC))
 w('rule cxxtool\n command = g++ -O0 -std=c++20 -pthread -w -D_FILE_OFFSET_BITS=64 -DJOEDB_VERSION=%d -fmacro-prefix-map=%s/=/joedb/ -D_GLIBCXX_DEBUG -I%s/src -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc\n description = TOOL $out' % (version(), REPO, REPO))
 w('rule ar\n command = rm -f $out && ar rcs $out $in\n description = AR $out')
 w('rule link\n command = g++ %s -o $out $in $ld -lbrotlienc -lbrotlidec -pthread\n description = LINK $out' % VARIANTS[variant])
 w('rule gen\n command = rm -rf $dir && mkdir -p $dir && cp -r $base.joedbc $base.joedbi $dir/ && (if [ -d $base.rpc ]; then cp -r $base.rpc $dir/; fi) && cd $dir && $joedbc $stem > /dev/null && touch $out\n description = JOEDBC $out')

 def obj(p, sub=''):
  return 'obj/' + sub + os.path.relpath(p, '/').replace('/', '_') + '.o'

 tool_srcs = groups['core'] + groups['compiler'] + [p for p in groups['mains'] if p.endswith('joedbc.cpp')]
 # the compiler is built without the encoded file (which it generates)
 tool_objs = []
 for p in tool_srcs:
  o = obj(p, 'tool_')
  tool_objs.append(o)
  w('build %s: cxxtool %s' % (o, p))
 w('rule linktool\n command = g++ -o $out $in -pthread')
 main_objs = [o for o in tool_objs if o.endswith('joedbc.cpp.o') or '_compiler_' in o]
 w('build libtool.a: ar ' + ' '.join(o for o in tool_objs if o not in main_objs))
 w('build joedbc: linktool %s libtool.a' % ' '.join(main_objs))

 stamps = []
 def gen_schema(base, rel):
  d = os.path.join(gen, os.path.dirname(rel))
  stem = os.path.basename(rel)
  sub = os.path.join(d, '_' + stem)  # not used
  stamp = 'gen_%s.stamp' % rel.replace('/', '_')
  extra = []
  if os.path.isdir(base + '.rpc'):
   extra = [os.path.join(base + '.rpc', f) for f in sorted(os.listdir(base + '.rpc')) if f.endswith(('.joedbc', '.joedbi'))]
  w('build %s: gen %s.joedbc %s.joedbi %s | joedbc\n dir = %s\n base = %s\n stem = %s\n joedbc = %s/joedbc' % (stamp, base, base, ' '.join(extra), d, base, stem, B))
  return stamp
 gen_enc = None
 def need_enc():
  return 'enc' in h['groups']
 out_objs = []
 deps = []
 if need_enc():
  gen_enc = gen_schema(os.path.join(REPO, 'src/joedb/db/encoded_file'), 'joedb/db/encoded_file')
  deps.append(gen_enc)
 schema_objs = []
 for s in h['schemas']:
  stamp = gen_schema(os.path.join(MC, 'schemas', s), 'mcdb_%s/%s' % (s, s))
  deps.append(stamp)
  wc = os.path.join(gen, 'mcdb_%s/%s/writable.cpp' % (s, s))
  o = 'obj/gen_%s.o' % s
  w('build %s: cxx %s | %s' % (o, wc, ' '.join(deps)))
  w('build %s: phony %s' % (wc, stamp))
  schema_objs.append(o)
  rpc = os.path.join(MC, 'schemas', s + '.rpc')
  if os.path.isdir(rpc):
   for f in sorted(os.listdir(rpc)):
    if f.endswith('.joedbc'):
     r = f[:-7]
     wc = os.path.join(gen, 'mcdb_%s/%s/rpc/%s/writable.cpp' % (s, s, r))
     o = 'obj/gen_%s_%s.o' % (s, r)
     w('build %s: cxx %s | %s' % (o, wc, ' '.join(deps)))
     w('build %s: phony %s' % (wc, stamp))
     schema_objs.append(o)
 libs = []
 for g in ('asio', 'enc', 'compiler', 'core'):
  if g != 'core' and g not in h['groups']:
   continue
  objs = []
  for p in groups[g]:
   o = obj(p)
   objs.append(o)
   w('build %s: cxx %s%s' % (o, p, (' | ' + gen_enc) if g in ('enc', 'asio') and gen_enc else ''))
  if g == 'enc':
   wc = os.path.join(gen, 'joedb/db/encoded_file/writable.cpp')
   w('build %s: phony %s' % (wc, gen_enc))
   w('build obj/gen_encoded_file.o: cxx %s | %s' % (wc, gen_enc))
   objs.append('obj/gen_encoded_file.o')
  lib = 'lib%s.a' % g
  w('build %s: ar %s' % (lib, ' '.join(objs)))
  libs.append(lib)
 hobjs = []
 for src in h['sources']:
  o = 'obj/harness_%s_%s.o' % (name, os.path.basename(src))
  w('build %s: cxx %s%s\n fl = %s' % (o, os.path.join(MC, src), (' | ' + ' '.join(deps)) if deps else '', h['cflags']))
  hobjs.append(o)
 exe = 'h_' + name
 w('build %s: link %s %s %s\n ld = %s -Wl,--start-group %s -Wl,--end-group' % (exe, ' '.join(hobjs), ' '.join(schema_objs), '| ' + ' '.join(libs), h['ldflags'], ' '.join(libs)))
 w('default ' + exe)
 nf = os.path.join(B, 'build_%s.ninja' % name)
 with open(nf, 'w') as f:
  f.write('\n'.join(n) + '\n')
 if shutil.which('ccache') and os.environ.get('MC_CCACHE'):
  pass
 r = subprocess.run(['ninja', '-C', B, '-f', nf], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
 if r.returncode != 0:
  sys.stderr.write(r.stdout[-6000:])
  sys.stderr.write('build failed\n')
  sys.exit(2)
 if build_only:
  sys.exit(0)
 exe = os.path.join(B, exe)
 env = dict(os.environ)
 env['VERIF_DIR'] = VERIF
 env['MC_REPO'] = SOURCE
 env['MC_GEN'] = gen
 env['MC_BIN'] = B
 env.setdefault('ASAN_OPTIONS', 'exitcode=99:abort_on_error=0:detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=2048')
 env.setdefault('UBSAN_OPTIONS', 'exitcode=99:print_stacktrace=1')
 sys.stdout.flush()
 import signal, tempfile
 base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
 scratch = tempfile.mkdtemp(prefix='mc_', dir=base)
 env['MC_SCRATCH'] = scratch
 process = subprocess.Popen([exe] + args[1:], env=env)
 def stop(*_):
  process.terminate()
 signal.signal(signal.SIGTERM, stop)
 try:
  code = process.wait()
 finally:
  if process.poll() is None:
   process.kill()
   process.wait()
  shutil.rmtree(scratch, ignore_errors=True)
 sys.exit(code if code in (0, 1) else 2)

main()
