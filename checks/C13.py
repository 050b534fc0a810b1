"""Ephemerides: sequences of prolongations, serializations and reanimations,
validated against Ephemeris.tla; concurrent reanimation requests, explored under
the controlled scheduler; design model of the reanimation protocol."""
import build
from runner import sched_replay


def check(c):
  exes = c.build([dict(name='ephemeris', tus=build.PHYSICS, protos=True),
                  dict(name='ephemeris_conc', mode='sched', protos=True,
                       tus=build.PHYSICS, extra=build.SCHED_PROTOBUF)])
  c.model('EphemerisReanimationMC')
  if c.thorough:
    c.model('EphemerisReanimationMC', 'EphemerisReanimationThorough.cfg')
  exe = exes['ephemeris']
  traces = c.run_driver(exe, ['--count', c.scale(1500, 40000), '--timeout', 20])
  c.validate('EphemerisTrace', traces, replay=sched_replay(exe),
             driver='ephemeris', batch=300)
  exe = exes['ephemeris_conc']
  traces = c.run_driver(
      exe, ['--seconds', c.scale(12, 240), '--bound', c.scale(2, 3), '--dfs',
            c.scale(600, 100000), '--random', c.scale(300, 20000)])
  c.validate('EphemerisConcTrace', traces, replay=sched_replay(exe),
             driver='ephemeris_conc')
