"""Piles up: sequences of frames, validated against PileUps.tla."""
import build
from runner import sched_replay


def check(c):
  exe = c.build([dict(
      name='pile_ups', profiles=True, protos=True, opt='-O1',
      tus=build.PHYSICS + ['ksp_plugin/part.cpp',
                           'ksp_plugin/part_subsets.cpp',
                           'ksp_plugin/pile_up.cpp',
                           'ksp_plugin/integrators.cpp',
                           'ksp_plugin/identification.cpp'])])['pile_ups']
  c.model('PileUpsMC', c.scale('PileUpsMC.cfg', 'PileUpsMCThorough.cfg'))
  traces = c.run_driver(exe, ['--count', c.scale(6000, 100000),
                              '--timeout', 40])
  c.validate('PileUpsTrace', traces, replay=sched_replay(exe),
             driver='pile_ups', batch=300)
