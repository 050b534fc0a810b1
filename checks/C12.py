"""Continuous trajectories: sequences of appends, prepends, checkpoints and
serializations, validated against ContinuousTrajectory.tla."""
import build
from runner import sched_replay


def check(c):
  c.model('ContinuousTrajectoryMC')
  if c.thorough:
    c.model('ContinuousTrajectoryMC', 'ContinuousTrajectoryThorough.cfg')
  exe = c.build([dict(name='continuous_trajectory', tus=build.PHYSICS,
                      protos=True)])['continuous_trajectory']
  traces = c.run_driver(exe, ['--count', c.scale(1500, 40000)])
  c.validate('ContinuousTrajectoryTrace', traces, replay=sched_replay(exe),
             driver='continuous_trajectory', batch=300)
