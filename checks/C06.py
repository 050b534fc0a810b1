"""DisjointSets: sequences of unions, validated against DisjointSets.tla."""
from runner import sched_replay


def check(c):
  exe = c.build([dict(name='disjoint_sets')])['disjoint_sets']
  c.model('DisjointSetsMC')
  # The first 6561 sequences are exhaustive for 3 elements and 4 unions.
  traces = c.run_driver(exe, ['--count', c.scale(10500, 200000)])
  c.validate('DisjointSetsTrace', traces, replay=sched_replay(exe),
             driver='disjoint_sets')
