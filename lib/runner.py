"""What the checks have in common: building and running harnesses, checking
models with TLC, validating traces, writing evidence, reporting violations."""
import concurrent.futures
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

import build

VERIF = build.VERIF
SPECS = os.path.join(VERIF, 'specs')
TLC_JARS = ('/opt/veriftools/tla/tla2tools.jar:'
            '/opt/veriftools/tla/CommunityModules-deps.jar')
CPUS = os.cpu_count() or 8


class CheckError(Exception):
  pass


class TlcResult:

  def __init__(self):
    self.ok = False
    self.violated = None
    self.generated = 0
    self.distinct = 0
    self.accepted = set()
    self.positions = {}
    self.output = ''
    self.trace_ids = set()
    self.error = None


def run_tlc(module, cfg, workers=CPUS, **kwargs):
  """TLC has rare races when it has several workers: when it fails with an
  internal error, a single worker has the last word."""
  r = run_tlc_once(module, cfg, workers=workers, **kwargs)
  for _ in range(2):
    if r.error and r.error != 'timeout' and (
        'unexpected exception' in r.output or 'TLC bug' in r.output or
        'java.lang' in r.output):
      r = run_tlc_once(module, cfg, workers=1, **kwargs)
  return r


def run_tlc_once(module, cfg, env=None, workers=CPUS, timeout=600, simulate=None,
            extra=(), heap='6g', cont=False):
  meta = tempfile.mkdtemp(prefix='tlc', dir=scratch())
  cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss16m',
         '-cp', TLC_JARS]
  cmd += ['tlc2.TLC', '-noGenerateSpecTE', '-metadir', meta,
          '-workers', str(workers), '-config', cfg]
  if simulate:
    cmd += ['-simulate', simulate]
  if cont:
    cmd += ['-continue']
  cmd += list(extra) + [module + '.tla']
  e = dict(os.environ)
  e.update(env or {})
  r = TlcResult()
  try:
    p = subprocess.run(cmd, cwd=SPECS, env=e, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors='replace',
                       timeout=timeout)
    out = p.stdout
    r.code = p.returncode
  except subprocess.TimeoutExpired as x:
    out = x.stdout.decode(errors='replace') if isinstance(
        x.stdout, bytes) else (x.stdout or '')
    r.error = 'timeout'
    r.code = -1
  shutil.rmtree(meta, ignore_errors=True)
  r.output = out
  for m in re.finditer(r'<<"ACCEPT", (\d+)>>', out):
    r.accepted.add(int(m.group(1)))
  for m in re.finditer(r'<<"AT", (\d+), (\d+)>>', out):
    t, l = int(m.group(1)), int(m.group(2))
    r.positions[t] = max(r.positions.get(t, 0), l)
  m = None
  for m in re.finditer(
      r'([\d,]+) states generated, ([\d,]+) distinct states found', out):
    pass
  if m:
    r.generated = int(m.group(1).replace(',', ''))
    r.distinct = int(m.group(2).replace(',', ''))
  m = re.search(r'Error: (Invariant|Action property|Temporal properties|'
                r'Property|Deadlock)( \S+)?[^\n]*', out)
  if m:
    r.violated = m.group(0)[7:]
    for t in re.finditer(r'/\\ tr = (\d+)', out):
      r.trace_ids.add(int(t.group(1)))
  elif 'Error:' in out or (r.code != 0 and r.error is None):
    m = re.search(r'Error:[^\n]*(\n[^\n]*){0,8}', out)
    r.error = r.error or (m.group(0) if m else 'tlc exit %s' % r.code)
  r.ok = r.violated is None and r.error is None
  return r


_scratch = None


def scratch():
  global _scratch
  if _scratch is None:
    os.makedirs(build.BUILD, exist_ok=True)
    _scratch = tempfile.mkdtemp(prefix='run', dir=build.BUILD)
  return _scratch


def log(*args):
  print('[%6.1fs]' % (time.time() - START), *args, file=sys.stderr, flush=True)


START = time.time()


class Check:

  def __init__(self, prop):
    self.property = prop
    self.tier = os.environ.get('VERIF_TIER', 'quick')
    self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    self.thorough = self.tier == 'thorough'
    self.states = 0
    self.transitions = 0
    self.model_states = 0
    self.traces = 0
    self.executions = 0
    self.samples = []
    self.details = {}
    self.assumptions = []
    self.violations = []
    self.known_seen = []
    self.notes = []
    for f in glob.glob(os.path.join(VERIF, 'evidence', 'replay',
                                    '%s-*.json' % prop)):
      os.remove(f)

  # Budgets.
  def scale(self, quick, thorough):
    return thorough if self.thorough else quick

  def build(self, drivers):
    t = time.time()
    exes = build.build(drivers, name='check_' + self.property)
    log('built', ', '.join(exes), 'in %.1fs' % (time.time() - t))
    return exes

  # Model checking of the design.
  def model(self, module, cfg=None, timeout=600, expect_ok=True, **kwargs):
    cfg = cfg or module + '.cfg'
    r = run_tlc(module, cfg, timeout=timeout, **kwargs)
    log('model', module, cfg, 'states', r.distinct, 'ok' if r.ok else
        (r.violated or r.error))
    if expect_ok and not r.ok:
      # The specification itself violates the properties: this is a failure of
      # the machinery, not of the code.
      sys.stderr.write(r.output[-3000:])
      raise CheckError('model %s fails: %s' % (module, r.violated or r.error))
    self.states += r.distinct
    self.transitions += r.generated
    self.model_states += r.distinct
    self.details.setdefault('models', {})[cfg] = {
        'states': r.distinct, 'transitions': r.generated}
    return r

  # Running harnesses.
  def run_driver(self, exe, args=(), workers=CPUS, timeout=600, tag='',
                 env=None):
    """Runs `workers` copies of the harness; returns the parsed traces."""
    outs = []
    procs = []
    e = dict(os.environ)
    e.update(env or {})
    for w in range(workers):
      out = os.path.join(scratch(), '%s%s-%d.ndjson' %
                         (os.path.basename(exe), tag, w))
      outs.append(out)
      cmd = [exe, '--out', out, '--worker', str(w), '--workers', str(workers),
             '--seed', str(self.seed)] + [str(a) for a in args]
      procs.append(subprocess.Popen(cmd, stdout=subprocess.DEVNULL,
                                    stderr=subprocess.PIPE, cwd=scratch(),
                                    env=e, text=True, errors='replace'))
    traces = []
    stats = {}
    deadline = time.time() + timeout
    for p, out in zip(procs, outs):
      try:
        _, err = p.communicate(timeout=max(1, deadline - time.time()))
      except subprocess.TimeoutExpired:
        for q in procs:
          q.kill()
        raise CheckError('harness %s timed out' % exe)
      if p.returncode != 0:
        raise CheckError('harness %s exited with %d: %s' %
                         (exe, p.returncode, err[-800:]))
      for line in err.splitlines():
        if line.startswith('STATS '):
          for k, v in json.loads(line[6:]).items():
            if isinstance(v, (int, float)):
              stats[k] = stats.get(k, 0) + v
      with open(out) as f:
        for line in f:
          traces.append(json.loads(line))
      os.remove(out)
    log('harness', os.path.basename(exe) + tag, len(traces), 'traces', stats)
    self.executions += stats.get('executions', len(traces))
    d = self.details.setdefault('harness', {}).setdefault(
        os.path.basename(exe) + tag, {})
    for k, v in stats.items():
      d[k] = v
    return traces

  def _validate_once(self, module, cfg, traces, verbose=False, workers=CPUS,
                     timeout=600, env=None):
    fd, path = tempfile.mkstemp(prefix='traces-', suffix='.ndjson',
                                dir=scratch())
    with os.fdopen(fd, 'w') as f:
      for t in traces:
        f.write(json.dumps({'cfg': t.get('cfg', {}), 'ev': t['ev']}) + '\n')
    e = {'TRACES': path}
    e.update(env or {})
    if verbose:
      e['VERBOSE'] = '1'
    r = run_tlc(module, cfg, env=e, workers=workers, timeout=timeout)
    os.remove(path)
    return r

  def validate(self, module, traces, cfg=None, timeout=600, batch=4000,
               replay=None, driver=None, key=None):
    """Validates `traces` against the trace specification `module`.  `replay`
    is a function that re-executes a trace and returns the new one (or None)."""
    cfg = cfg or module + '.cfg'
    if not traces:
      raise CheckError('no traces for ' + module)
    # Identical traces need only be validated once.
    unique = {}
    for t in traces:
      unique.setdefault(json.dumps([t.get('cfg', {}), t['ev']]), t)
    todo = list(unique.values())
    rejected = []
    start = time.time()
    chunks = [todo[i:i + batch] for i in range(0, len(todo), batch)]
    # TLC does not parallelize well on many small linear behaviours: run a few
    # of them.
    par = min(4, len(chunks))

    def one(chunk):
      return self._validate_chunk(module, cfg, chunk, timeout,
                                  max(1, CPUS // max(par, 1)))
    with concurrent.futures.ThreadPoolExecutor(max(par, 1)) as pool:
      for bad, generated, distinct in pool.map(one, chunks):
        rejected += bad
        self.states += distinct
        self.transitions += generated
    log('validated', len(todo), 'distinct traces against', module,
        'in %.1fs,' % (time.time() - start), len(rejected), 'rejected')
    self.traces += len(todo) - len(rejected)
    d = self.details.setdefault('validated', {})
    d[module] = d.get(module, 0) + len(todo)
    for t in todo[:: max(1, len(todo) // 2)][:2]:
      self.sample(module, t)
    for t, why in rejected[:8]:
      self.confirm(module, cfg, t, why, replay, driver)
    return rejected

  def sample(self, module, t):
    if len(self.samples) < 6:
      s = {k: v for k, v in t.items() if k != 'ev'}
      s['spec'] = module
      s['events'] = t['ev'][:40]
      self.samples.append(s)

  def _validate_chunk(self, module, cfg, chunk, timeout, workers):
    """Returns the list of rejected traces."""
    bad = []
    generated = distinct = 0
    remaining = list(chunk)
    while True:
      r = self._validate_once(module, cfg, remaining, workers=workers,
                              timeout=timeout)
      generated += r.generated
      distinct += r.distinct
      if r.error == 'timeout' or (
          r.error and 'Parsing or semantic analysis failed' in r.error):
        raise CheckError('%s: %s' % (module, r.error))
      if r.error:
        # Some trace cannot be evaluated, e.g., because it has an event which
        # makes no sense in the state where it occurs: find it.
        if len(remaining) == 1:
          log('evaluation error', r.error[:600])
          return bad + [(remaining[0], 'evaluation error')], generated, distinct
        size = max(1, len(remaining) // 8)
        for i in range(0, len(remaining), size):
          b, g, d = self._validate_chunk(module, cfg, remaining[i:i + size],
                                         timeout, workers)
          bad += b
          generated += g
          distinct += d
          if len(bad) > 4:
            break
        return bad, generated, distinct
      if r.violated:
        if not r.trace_ids:
          raise CheckError('%s: %s' % (module, r.violated))
        for i in sorted(r.trace_ids):
          bad.append((remaining[i - 1], r.violated))
        remaining = [t for i, t in enumerate(remaining)
                     if i + 1 not in r.trace_ids]
        if len(bad) > 8 or not remaining:
          return bad, generated, distinct
        continue
      for i, t in enumerate(remaining):
        if i + 1 not in r.accepted:
          bad.append((t, 'not a behaviour of the specification'))
      return bad, generated, distinct

  def confirm(self, module, cfg, t, why, replay, driver):
    """Re-executes and re-validates a rejected trace."""
    t2 = t
    if replay is not None:
      t2 = replay(t)
      if t2 is None:
        raise CheckError('a rejected trace could not be replayed: ' +
                         json.dumps(t)[:500])
    r = self._validate_once(module, cfg, [t2], verbose=True, workers=1)
    if r.error == 'timeout':
      raise CheckError('%s: %s' % (module, r.error))
    if not r.violated and not r.error and 1 in r.accepted:
      raise CheckError('a rejection was not repeated: ' + json.dumps(t)[:500])
    position = r.positions.get(1, 1)
    event = t2['ev'][position - 1] if position <= len(t2['ev']) else None
    what = why
    if not r.violated:
      what = ('event %d is not allowed by %s: %s' %
              (position, module, json.dumps(event)[:300]))
    self.violation(what, {
        'spec': module, 'why': what, 'scenario': t2.get('sc'),
        'schedule': t2.get('schedule'), 'cfg': t2.get('cfg'),
        'driver': driver, 'rejected_at': position, 'events': t2['ev'],
        'tlc': r.output[-2000:] if r.violated or r.error else None})

  def violation(self, what, data, key=None):
    for k in known_findings(self.property):
      if k['key'] in json.dumps(data, sort_keys=True):
        if k not in self.known_seen:
          self.known_seen.append(k)
        return
    path = os.path.join(VERIF, 'evidence', 'replay', '%s-%d.json' %
                        (self.property, len(self.violations)))
    os.makedirs(os.path.dirname(path), exist_ok=True)
    data = dict(data, property=self.property, seed=self.seed, tier=self.tier)
    with open(path, 'w') as f:
      json.dump(data, f, indent=1)
    self.violations.append((what, path))
    log('VIOLATION', what[:600])

  def finish(self, level='model_checking', exhaustive=None):
    coverage = {
        'states': self.states,
        'transitions': self.transitions,
        'traces_validated_against_impl': self.traces,
        'evaluations': self.executions,
        'samples': self.samples,
        'model_states': self.model_states,
    }
    coverage.update(self.details)
    evidence = {
        'property': self.property, 'tier': self.tier, 'seed': self.seed,
        'level': level, 'coverage': coverage,
        'assumptions': self.assumptions,
        'wall_s': round(time.time() - START, 1),
        'violations': len(self.violations),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', self.property + '.json'),
              'w') as f:
      json.dump(evidence, f, indent=1, ensure_ascii=False)
    for k in known_findings(self.property):
      print('KNOWN-FINDING: property=%s %s' % (self.property, k['what']))
    for what, path in self.violations:
      print('VIOLATION property=%s replay=%s' % (self.property, path))
    sys.stdout.flush()
    log('done,', len(self.violations), 'violations')
    return 1 if self.violations else 0


def known_findings(prop):
  """Lines "finding: property=<id> key=<text> :: <what>" suppress the violations
  whose data contain the key."""
  result = []
  path = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
  if os.path.exists(path):
    for line in open(path):
      m = re.match(r'finding: property=(\S+) key=(.*?) :: (.*)', line)
      if m and m.group(1) == prop:
        result.append({'key': m.group(2), 'what': m.group(3)})
  return result


def sched_replay(exe):
  """Replays a trace of a harness run under the controlled scheduler."""
  def replay(t):
    p = subprocess.run([exe, '--replay', t['sc'], '--schedule', t['schedule'],
                        '--seed', os.environ.get('VERIF_SEED', '1')],
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                       text=True, timeout=120, cwd=scratch())
    for line in p.stdout.splitlines():
      r = json.loads(line)
      return r
    return None
  return replay


def main(prop, body):
  check = Check(prop)
  code = 2
  try:
    body(check)
    code = check.finish()
  except (CheckError, build.BuildError, subprocess.SubprocessError) as e:
    # If a violation was already confirmed, it is reported nevertheless.
    if check.violations:
      log('error after a violation: %s' % e)
      code = check.finish()
    else:
      print('ERROR: %s' % e, file=sys.stderr)
      code = 2
  finally:
    if _scratch:
      shutil.rmtree(_scratch, ignore_errors=True)
  sys.exit(code)
