"""Builds the harnesses from the current tree of /repo, with ninja."""
import os
import subprocess
import sys
import glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
CXX = 'clang++-20'
POINT_ON_UNLOCK = True

BASE_FLAGS = [
    '-std=c++23', '-m64', '-msse4.1', '-fPIC', '-fbracket-depth=257',
    '-fdeclspec', '-fexceptions', '-ferror-limit=20', '-ffp-contract=off',
    '-fno-char8_t', '-w',
    '-DPROJECT_DIR=\'std::filesystem::path("ksp_plugin_adapter/")\'',
    '-DSOLUTION_DIR=\'std::filesystem::path("./")\'',
    '-DTEMP_DIR=\'std::filesystem::path("/tmp")\'',
    '-DPLATFORM_WITH_CPU_FEATURES=\'"x64"\'',
    '-DNDEBUG', '-DPRINCIPIA_REQUIRES_AVX=0', '-DPRINCIPIA_REQUIRES_FMA=0',
]

PROTOS = ['astronomy', 'geometry', 'integrators', 'journal', 'ksp_plugin',
          'numerics', 'options', 'physics', 'quantities', 'testing_utilities',
          'base']


def absl_libs():
  libs = []
  for l in sorted(glob.glob('/usr/lib/x86_64-linux-gnu/libabsl_*.so')):
    name = os.path.basename(l)[3:-3]
    if any(x in name for x in ('flags', 'scoped_set_env', 'periodic')):
      continue
    libs.append('-l' + name)
  return libs


def library_tus():
  """All the translation units of the libraries of Principia."""
  result = []
  for f in sorted(glob.glob(os.path.join(REPO, '*', '*.cpp'))):
    rel = os.path.relpath(f, REPO)
    d, b = rel.split('/')
    if (d in ('benchmarks', 'ksp_plugin_test', 'tools', 'testing_utilities',
              'mathematica', 'macos_allocator_replacement', 'functions',
              'nanobenchmarks', 'ksp_plugin_adapter', 'stacktrace_decoder') or
        d.startswith('_') or
        any(x in b for x in ('_test', 'fake_', 'mock_', 'benchmark', 'main.'))):
      continue
    result.append(rel)
  return result


# The translation units that the headers up to geometry need.
CORE = ['base/cpuid.cpp', 'base/flags.cpp', 'geometry/instant.cpp',
        'numerics/cbrt.cpp', 'numerics/sin_cos.cpp']
# Those that the headers of physics need.
PHYSICS = CORE + [
    'base/bundle.cpp', 'base/zfp_compressor.cpp',
    'numerics/apodization.cpp', 'numerics/elliptic_functions.cpp',
    'numerics/elliptic_integrals.cpp', 'physics/protector.cpp']


# Protects the generated messages from the substitution of the primitives.
SCHED_PROTOBUF = [
    '-DVERIF_SCHED_PROTOBUF=\'"serialization/physics.pb.h"\'',
    '-DVERIF_SCHED_PROTOBUF2=\'"serialization/testing_utilities.pb.h"\'']


class Ninja:

  def __init__(self, name):
    self.name = name
    self.lines = []
    self.targets = []
    self.seen = set()
    self.dir = BUILD
    self.gen = os.path.join(BUILD, 'gen')
    self.overlay = os.path.join(BUILD, 'overlay')
    self.profiles = os.path.join(BUILD, 'profiles')
    self.shim = os.path.join(VERIF, 'harness', 'shim')
    self.sched = os.path.join(VERIF, 'harness', 'sched')
    self.common = os.path.join(VERIF, 'harness', 'common')
    w = self.lines.append
    w('rule cxx')
    w('  command = %s $flags -MMD -MF $out.d -c $in -o $out' % CXX)
    w('  depfile = $out.d')
    w('  deps = gcc')
    w('rule link')
    w('  command = %s -fuse-ld=lld -o $out $in $libs' % CXX)
    w('rule protoc')
    w('  command = mkdir -p %s && cd %s && protoc -I%s --cpp_out=%s '
      'serialization/*.proto && touch $out' % (self.gen, REPO, REPO, self.gen))
    w('rule overlay')
    w('  command = rm -rf %s && python3 $in %s > /dev/null && touch $out' %
      (self.overlay, self.overlay))
    w('rule profiles')
    w('  command = rm -rf {0} && mkdir -p {0}/journal {0}/ksp_plugin '
      '{0}/ksp_plugin_adapter && cd {0} && $in > log 2>&1 && '
      'touch $out'.format(self.profiles))
    w('build %s/overlay.stamp: overlay %s' %
      (BUILD, os.path.join(VERIF, 'harness', 'make_overlay.py')))
    w('build %s/gen.stamp: protoc | %s' % (
        BUILD,
        ' '.join(os.path.join(REPO, 'serialization', p + '.proto')
                 for p in PROTOS
                 if os.path.exists(os.path.join(REPO, 'serialization',
                                                p + '.proto')))))

  def flags(self, mode, profiles=False, opt='-O0', extra=()):
    f = list(BASE_FLAGS) + [opt]
    if mode == 'sched':
      f += ['-include', 'sched_prelude.hpp']
    else:
      f += ['-include', 'verif_compat.hpp']
    f += ['-I' + self.overlay, '-I' + self.shim, '-I' + self.sched,
          '-I' + self.common]
    if profiles:
      f += ['-I' + self.profiles]
    f += ['-I' + REPO, '-I' + self.gen]
    if mode == 'sched' and POINT_ON_UNLOCK:
      f += ['-DVERIF_POINT_ON_UNLOCK']
    f += list(extra)
    return ' '.join(f)

  def obj(self, src, out, flags, deps=('overlay', 'gen')):
    out = os.path.join(BUILD, 'obj', out + '.o')
    if out in self.seen:
      return out
    self.seen.add(out)
    self.lines.append('build %s: cxx %s || %s' % (
        out, src,
        ' '.join('%s/%s.stamp' % (BUILD, d) for d in deps)))
    self.lines.append('  flags = ' + flags.replace('$', '$$'))
    return out

  def protos(self):
    objs = []
    for p in PROTOS:
      if not os.path.exists(os.path.join(REPO, 'serialization', p + '.proto')):
        continue
      src = '%s/serialization/%s.pb.cc' % (self.gen, p)
      out = os.path.join(BUILD, 'obj', 'pb', p + '.o')
      objs.append(out)
      if out in self.seen:
        continue
      self.seen.add(out)
      self.lines.append('build %s: cxx %s/pbsrc/%s.cc || %s/gen.stamp' %
                        (out, BUILD, p, BUILD))
      self.lines.append('  flags = -std=c++17 -O0 -w -fPIC -I%s -I%s' %
                        (self.overlay, self.gen))
      d = os.path.join(BUILD, 'pbsrc')
      os.makedirs(d, exist_ok=True)
      path = os.path.join(d, p + '.cc')
      content = '#include "serialization/%s.pb.cc"\n' % p
      if not os.path.exists(path) or open(path).read() != content:
        open(path, 'w').write(content)
    return objs

  def executable(self, name, objs, libs):
    out = os.path.join(BUILD, 'bin', name)
    self.lines.append('build %s: link %s' % (out, ' '.join(objs)))
    self.lines.append('  libs = ' + ' '.join(libs))
    self.targets.append(out)
    return out

  def generate_profiles(self):
    if 'profiles' in self.seen:
      return
    self.seen.add('profiles')
    f = self.flags('seq')
    objs = [
        self.obj(os.path.join(VERIF, 'harness', 'common', 'gen_main.cpp'),
                 'gen_main', f),
        self.obj(os.path.join(REPO, 'tools', 'generate_profiles.cpp'),
                 'tools/generate_profiles', f),
        self.obj(os.path.join(REPO, 'tools', 'journal_proto_processor.cpp'),
                 'tools/journal_proto_processor', f)]
    exe = self.executable('gen_profiles', objs + self.protos(),
                          absl_libs() + ['-lprotobuf', '-lpthread'])
    self.lines.append('build %s/profiles.stamp: profiles %s' % (BUILD, exe))

  def run(self, jobs=None, verbose=False):
    os.makedirs(BUILD, exist_ok=True)
    path = os.path.join(BUILD, self.name + '.ninja')
    open(path, 'w').write('builddir = %s\n' % BUILD + '\n'.join(self.lines) +
                          '\n')
    cmd = ['ninja', '-f', path, '-C', BUILD]
    if jobs:
      cmd += ['-j', str(jobs)]
    cmd += self.targets
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, errors='replace')
    if r.returncode != 0 or verbose:
      lines = [l[:300] for l in r.stdout.splitlines()
               if 'error' in l or 'FAILED' in l or 'undefined' in l]
      sys.stderr.write('\n'.join(lines[:30]) + '\n')
    if r.returncode != 0:
      raise BuildError('build failed')


class BuildError(Exception):
  pass


def tu_obj(n, rel, mode='seq', extra=(), opt='-O0'):
  """The object for a translation unit of Principia."""
  profiles = rel.startswith('ksp_plugin/') or rel.startswith('journal/')
  if profiles:
    n.generate_profiles()
  deps = ('overlay', 'gen') + (('profiles',) if profiles else ())
  return n.obj(os.path.join(REPO, rel), mode + opt + '/' + rel[:-4],
               n.flags(mode, profiles, opt, extra), deps)


def build(drivers, name='build', **kwargs):
  """`drivers` is a list of dictionaries with keys name, mode, tus, protos,
  profiles, libs, opt, extra."""
  n = Ninja(name)
  exes = {}
  for d in drivers:
    mode = d.get('mode', 'seq')
    opt = d.get('opt', '-O0')
    extra = d.get('extra', ())
    profiles = d.get('profiles', False)
    if profiles:
      n.generate_profiles()
    f = n.flags(mode, profiles, opt, extra)
    deps = ('overlay', 'gen') + (('profiles',) if profiles else ())
    objs = [n.obj(os.path.join(VERIF, 'harness', 'drivers',
                               d['name'] + '.cpp'),
                  'drivers/' + d['name'], f, deps)]
    if mode == 'sched':
      objs.append(n.obj(os.path.join(n.sched, 'sched.cpp'), 'sched/sched',
                        n.flags('seq', False)))
    for t in d.get('tus', ()):
      objs.append(tu_obj(n, t, mode=d.get('tu_mode', 'seq'), opt=opt))
    if d.get('protos'):
      objs += n.protos()
    libs = absl_libs() + (['-lprotobuf'] if d.get('protos') else []) + [
        '-lpthread'] + list(d.get('libs', ()))
    exes[d['name']] = n.executable(d['name'], objs, libs)
  n.run(**kwargs)
  return exes
