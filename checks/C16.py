"""Flight plans: sequences of edits, validated against FlightPlan.tla."""
import build
from runner import sched_replay


def check(c):
  exe = c.build([dict(
      name='flight_plan', profiles=True, protos=True, opt='-O1',
      tus=build.PHYSICS + ['ksp_plugin/flight_plan.cpp',
                           'ksp_plugin/integrators.cpp',
                           'ksp_plugin/orbit_analyser.cpp'])])['flight_plan']
  c.model('FlightPlanMC')
  traces = c.run_driver(exe, ['--count', c.scale(3500, 40000),
                              '--timeout', 40])
  c.validate('FlightPlanTrace', traces, replay=sched_replay(exe),
             driver='flight_plan', batch=100)
