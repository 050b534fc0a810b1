"""Downsampled trajectories: appends mixed with truncations, merges and
serializations, validated against Downsampling.tla."""
import build
from runner import sched_replay


def check(c):
  exe = c.build([dict(name='downsampling', tus=build.PHYSICS, opt='-O1',
                      protos=True)])['downsampling']
  traces = c.run_driver(exe, ['--count', c.scale(2000, 40000)])
  c.validate('DownsamplingTrace', traces, replay=sched_replay(exe),
             driver='downsampling', batch=500)
