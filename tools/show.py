"""Summarises the trajectory operations of a replay file."""
import json, sys
d=json.load(open(sys.argv[1])); n=int(sys.argv[2]) if len(sys.argv)>2 else 16
for e in d['events'][:d['rejected_at']][-n:]:
  if e['e']=='obs': print('   obs',e['k'],[[p[0] for p in s['p']] if isinstance(s,dict) else s for s in e['segs']])
  else: print(json.dumps(e)[:200])
