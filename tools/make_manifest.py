#!/usr/bin/env python3
"""Writes MANIFEST.json: a property is claimed iff it has a check."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

SCHED = ('TLA+ specification checked with TLC; executions of the real code '
         'under a controlled scheduler validated against it')
SEQ = ('TLA+ specification checked with TLC; generated operation sequences '
       'run on the real code and their traces validated against it')
SCHED_NOTE = (
    'The design is model-checked exhaustively within small constants; the code '
    'is bound to it by validating traces of the code recompiled against a '
    'cooperative scheduler which explores interleavings at synchronization '
    'operations (bounded preemptions and random). Trusts the scheduler shim '
    '(mutexes, condition variables, threads, virtual time) and TLC.')
SEQ_NOTE = (
    'The design is model-checked exhaustively within small constants; the code '
    'is bound to it by validating the traces of exhaustively enumerated short '
    'and randomly generated long operation sequences, each trace giving the '
    'arguments and observable results of each operation. Trusts the projection '
    'in the driver, and TLC.')

KIND = {'C01': 'sched', 'C02': 'sched', 'C03': 'sched', 'C04': 'sched',
        'C05': 'sched', 'C08': 'sched', 'C20': 'sched'}
NOTES = {}
NOT_APPLICABLE = {
    'C25': 'Numeric accuracy: an error bound over the reals or over all the '
           'floating-point inputs is not a statement about states and '
           'transitions, and TLC has no real arithmetic.',
    'C26': 'A pure function from bytes to characters without state: encode/'
           'decode fidelity is not decided by a state-transition model.',
}
PENDING = ('No specification bound to this part of the code has been completed '
           'yet.')

checks = []
na = []
for line in open(os.path.join(VERIF, 'properties.jsonl')):
  p = json.loads(line)['id']
  if os.path.exists(os.path.join(VERIF, 'checks', p + '.py')):
    sched = KIND.get(p, 'seq') == 'sched'
    checks.append({
        'property': p,
        'quick_cmd': './check ' + p,
        'thorough_cmd': 'VERIF_TIER=thorough ./check ' + p,
        'evidence_file': 'evidence/%s.json' % p,
        'technique': SCHED if sched else SEQ,
        'level': 'model_checking',
        'level_note': (SCHED_NOTE if sched else SEQ_NOTE) +
                      (' ' + NOTES[p] if p in NOTES else '')})
  else:
    na.append({'property': p, 'reason': NOT_APPLICABLE.get(p, PENDING)})

manifest = {
    'version': 1,
    'setup_cmd': 'python3 tools/setup.py',
    'checks': checks,
    'not_applicable': na,
    'notes': 'No hook in the code: the harnesses compile the code of /repo '
             'against substitutes for the synchronization primitives. See '
             'DESIGN.md. KNOWN_FINDINGS.txt lists the defects found.',
}
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
  json.dump(manifest, f, indent=1, ensure_ascii=False)
  f.write('\n')
