"""Flags: sequences of operations, validated against Flags.tla."""
from runner import sched_replay


def check(c):
  exe = c.build([dict(name='flags', tus=['base/flags.cpp'])])['flags']
  c.model('FlagsMC')
  traces = c.run_driver(exe, ['--count', c.scale(4000, 100000)])
  c.validate('FlagsTrace', traces, replay=sched_replay(exe), driver='flags')
