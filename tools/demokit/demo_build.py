#!/usr/bin/env python3
"""Builds and runs a demonstration against the tree in the current directory.
usage: demo_build.py KIT DEMO.cpp [options]
  --protos       link with the protocol buffers
  --profiles     generate the journal profiles
  --tus A,B      translation units of the tree ("ksp" for a whole plugin)
  --cflags F     additional flags
Everything that is built goes into a scratch directory, which is removed."""
import concurrent.futures
import glob
import os
import shutil
import subprocess
import sys
import tempfile

KIT, DEMO = os.path.abspath(sys.argv[1]), os.path.abspath(sys.argv[2])
ARGS = sys.argv[3:]
REPO = os.getcwd()


def opt(name):
  return ARGS[ARGS.index(name) + 1] if name in ARGS else ''


OUT = tempfile.mkdtemp(prefix='demo')
GEN, OVERLAY = OUT + '/gen', OUT + '/overlay'
FLAGS = [
    '-std=c++23', '-m64', '-msse4.1', '-fPIC', '-fbracket-depth=257',
    '-fdeclspec', '-fexceptions', '-ferror-limit=20', '-ffp-contract=off',
    '-fno-char8_t', '-w', '-O0',
    '-DPROJECT_DIR=std::filesystem::path("ksp_plugin_adapter/")',
    '-DSOLUTION_DIR=std::filesystem::path("./")',
    '-DTEMP_DIR=std::filesystem::path("/tmp")',
    '-DPLATFORM_WITH_CPU_FEATURES="x64"',
    '-DNDEBUG', '-DPRINCIPIA_REQUIRES_AVX=0', '-DPRINCIPIA_REQUIRES_FMA=0',
    '-include', 'verif_compat.hpp', '-I' + OVERLAY, '-I' + KIT + '/shim',
    '-I' + REPO, '-I' + GEN] + opt('--cflags').split()


def run(cmd, **kwargs):
  r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                     text=True, errors='replace', **kwargs)
  if r.returncode:
    print(r.stdout[-3000:])
    raise SystemExit('demo: failed: ' + ' '.join(cmd)[-300:])


def compile_one(job):
  src, obj, flags = job
  run(['clang++-20'] + flags + ['-c', src, '-o', obj])
  return obj


def library_tus():
  result = []
  for f in sorted(glob.glob('*/*.cpp')):
    d, b = f.split('/')
    if (d in ('benchmarks', 'ksp_plugin_test', 'tools', 'testing_utilities',
              'mathematica', 'macos_allocator_replacement', 'functions',
              'nanobenchmarks', 'ksp_plugin_adapter', 'stacktrace_decoder') or
        d.startswith('_') or
        any(x in b for x in ('_test', 'fake_', 'mock_', 'benchmark', 'main.'))):
      continue
    result.append(f)
  return result


code = 1
try:
  run(['python3', KIT + '/make_overlay.py', OVERLAY])
  os.makedirs(GEN)
  run(['protoc', '-I.', '--cpp_out=' + GEN] +
      sorted(glob.glob('serialization/*.proto')))
  jobs = [(DEMO, OUT + '/demo.o', FLAGS)]
  tus = [t for t in opt('--tus').split(',') if t]
  if tus == ['ksp']:
    tus = library_tus()
  libs = []
  if '--protos' in ARGS or tus:
    for p in glob.glob(GEN + '/serialization/*.cc'):
      jobs.append((p, p[:-3] + '.o',
                   ['-std=c++17', '-O0', '-w', '-fPIC', '-I' + OVERLAY,
                    '-I' + GEN]))
    libs.append('-lprotobuf')
  for t in tus:
    jobs.append((t, OUT + '/' + t.replace('/', '_') + '.o', FLAGS))
  for l in sorted(glob.glob('/usr/lib/x86_64-linux-gnu/libabsl_*.so')):
    name = os.path.basename(l)[3:-3]
    if not any(x in name for x in ('flags', 'scoped_set_env', 'periodic')):
      libs.append('-l' + name)
  with concurrent.futures.ThreadPoolExecutor(8) as pool:
    objs = list(pool.map(compile_one, jobs))
  run(['clang++-20', '-o', OUT + '/demo'] + objs + libs + ['-lpthread'])
  scratch = OUT + '/scratch'
  os.makedirs(scratch)
  try:
    code = subprocess.run([OUT + '/demo'], cwd=scratch, timeout=100,
                          stderr=subprocess.DEVNULL).returncode
  except subprocess.TimeoutExpired:
    print('demo: timed out')
    code = 1
finally:
  shutil.rmtree(OUT, ignore_errors=True)
sys.exit(1 if code else 0)
