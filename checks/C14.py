"""Flows: sequences of flows of trajectories in the field of an ephemeris,
validated against Flows.tla; design model of the adaptive flow."""
import build
from runner import sched_replay


def check(c):
  exe = c.build([dict(name='flows', tus=build.PHYSICS, protos=True)])['flows']
  c.model('FlowsMC')
  traces = c.run_driver(exe, ['--count', c.scale(4000, 100000),
                              '--timeout', 20])
  c.validate('FlowsTrace', traces, replay=sched_replay(exe), driver='flows',
             batch=300)
