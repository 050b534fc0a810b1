"""The maps between frames, validated against Maps.tla."""
import build
from runner import sched_replay


def check(c):
  exe = c.build([dict(name='maps', tus=build.CORE, protos=True)])['maps']
  c.model('MapsMC', c.scale('MapsMC.cfg', 'MapsMCThorough.cfg'))
  # All the pairs of permutations and signatures, and all the axes, angles and
  # bases; then pairs of orthogonal maps (there are 4608 of them).
  traces = c.run_driver(exe, ['--count', c.scale(1400, 15000)])
  c.validate('MapsTrace', traces, replay=sched_replay(exe), driver='maps')
