"""Nearest neighbour trees, validated against NearestNeighbour.tla."""
import build
from runner import sched_replay


def check(c):
  exe = c.build([dict(name='nearest_neighbour', tus=build.CORE, protos=True)])[
      'nearest_neighbour']
  c.model('NearestNeighbourMC',
          c.scale('NearestNeighbourMC.cfg', 'NearestNeighbourMCThorough.cfg'))
  traces = c.run_driver(exe, ['--count', c.scale(8000, 100000)])
  c.validate('NearestNeighbourTrace', traces, replay=sched_replay(exe),
             driver='nearest_neighbour')
