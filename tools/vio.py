"""Prints the events around the rejection in the replay files of a property."""
import glob, json, sys
prop = sys.argv[1]
n = int(sys.argv[2]) if len(sys.argv) > 2 else 3
for f in sorted(glob.glob('/verif/evidence/replay/%s-*.json' % prop)):
  d = json.load(open(f))
  print('==', f, 'scenario', d['scenario'], 'cfg', json.dumps(d['cfg'])[:200])
  ev = [e for e in d['events'][:d['rejected_at']]]
  skip = sys.argv[3:]
  ev = [e for i, e in enumerate(ev) if e['e'] not in skip or i == len(ev) - 1]
  for e in ev[-n:]:
    print('   ', json.dumps(e)[:600])
