#!/usr/bin/env python3
"""Makes and confirms a planted bug.
usage: seed.py ID PROPERTY [--args "demo_build options"] [--no-run]
Reads from /tmp/seed/ID: edits.py (a list EDITS of (file, old, new)), demo.cpp,
needs.txt and breaks.txt.  Writes /verif/seeded/ID.
The change is applied to a scratch copy in /tmp/seedrepo; the repository's build
and tests are run there with the paths substituted."""
import importlib.util
import json
import os
import shutil
import subprocess
import sys

ID, PROP = sys.argv[1:3]
ARGS = sys.argv[sys.argv.index('--args') + 1] if '--args' in sys.argv else ''
SRC = '/tmp/seed/' + ID
DST = '/verif/seeded/' + ID
COPY = '/tmp/seedrepo'


def sh(cmd, **kw):
  return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE,
                        stderr=subprocess.STDOUT, text=True, errors='replace',
                        **kw)


os.makedirs(DST, exist_ok=True)
sh('git -C /repo worktree prune; rm -rf /tmp/seedrepo; mkdir -p /tmp/seedrepo; '
   'git -C /repo archive HEAD | tar -x -C /tmp/seedrepo; '
   'cd /tmp/seedrepo && git init -q && git add -A -f && '
   'git -c user.name=a -c user.email=a@b commit -qm base')
spec = importlib.util.spec_from_file_location('edits', SRC + '/edits.py')
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
for f, old, new in m.EDITS:
  p = os.path.join(COPY, f)
  s = open(p).read()
  if s.count(old) != 1:
    sys.exit('%s: %d occurrences of %r' % (f, s.count(old), old))
  open(p, 'w').write(s.replace(old, new))
patch = sh('cd /tmp/seedrepo && git diff').stdout
open(DST + '/patch.diff', 'w').write(patch)
shutil.copy(SRC + '/demo.cpp', DST + '/demo.cpp')
sh('rm -rf /tmp/kit; mkdir -p /tmp/kit; cp -r /verif/harness/shim '
   '/verif/harness/make_overlay.py /verif/tools/demokit/demo_build.py /tmp/kit; '
   'tar -C /tmp/kit --sort=name --mtime=2020-01-01 --owner=0 --group=0 '
   '-cf - . | gzip -n > %s/kit.tar.gz' % DST)
open(DST + '/demo.sh', 'w').write(
    open('/verif/tools/demokit/demo.sh').read().replace('@ARGS@', ARGS))
os.chmod(DST + '/demo.sh', 0o755)
json.dump({'property': PROP, 'needs': open(SRC + '/needs.txt').read().strip(),
           'what_it_breaks': open(SRC + '/breaks.txt').read().strip()},
          open(DST + '/meta.json', 'w'), indent=1, ensure_ascii=False)
a = sh('bash %s/demo.sh' % DST, cwd='/repo')
b = sh('bash %s/demo.sh' % DST, cwd=COPY)
print('unchanged:', a.returncode, a.stdout[-300:])
print('patched:', b.returncode, b.stdout[-300:])
