"""Serialization of discrete trajectories: sequences of edits, writes and reads,
validated against DiscreteTrajectory.tla."""
import build
from runner import sched_replay


def check(c):
  exes = c.build([dict(name='discrete_trajectory_io', tus=build.PHYSICS,
                       protos=True),
                  dict(name='downsampling', tus=build.PHYSICS, opt='-O1',
                       protos=True)])
  exe = exes['discrete_trajectory_io']
  traces = c.run_driver(exe, ['--count', c.scale(3000, 60000)])
  c.validate('DiscreteTrajectoryTrace', traces, replay=sched_replay(exe),
             driver='discrete_trajectory_io', batch=500)
  exe = exes['downsampling']
  traces = c.run_driver(exe, ['--count', c.scale(1500, 20000)])
  c.validate('DownsamplingTrace', traces, replay=sched_replay(exe),
             driver='downsampling', batch=500)
