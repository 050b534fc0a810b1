"""Discrete trajectories: sequences of edits, validated against
DiscreteTrajectory.tla."""
import build
from runner import sched_replay


def check(c):
  exe = c.build([dict(name='discrete_trajectory', tus=build.PHYSICS,
                      protos=True)])['discrete_trajectory']
  c.model('DiscreteTrajectoryMC',
          c.scale('DiscreteTrajectoryMC.cfg',
                  'DiscreteTrajectoryMCThorough.cfg'))
  traces = c.run_driver(exe, ['--count', c.scale(4000, 60000)])
  c.validate('DiscreteTrajectoryTrace', traces, replay=sched_replay(exe),
             driver='discrete_trajectory', batch=500)
