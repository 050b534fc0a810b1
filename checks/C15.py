"""Integrators: sequences of integrations, clonings and serializations of
fixed-step and adaptive instances, validated against Integrators.tla and
AdaptiveIntegrators.tla; measurement of the orders of convergence."""
import build
from runner import sched_replay


def check(c):
  exe = c.build([dict(name='integrators', tus=build.CORE, protos=True)])[
      'integrators']
  c.model('IntegratorsMC')
  c.model('IntegratorsMC', 'IntegratorsOneStepMC.cfg')
  c.model('AdaptiveIntegratorsMC')
  traces = c.run_driver(exe, ['--count', c.scale(10000, 150000),
                              '--timeout', 20])
  for kind, module in (('order', 'OrderTrace'),
                       ('adaptive', 'AdaptiveIntegratorsTrace')):
    c.validate(module, [t for t in traces if t['cfg'].get('kind') == kind],
               replay=sched_replay(exe), driver='integrators', batch=300)
  c.validate('IntegratorsTrace',
             [t for t in traces
              if t['cfg'].get('kind') not in ('order', 'adaptive')],
             replay=sched_replay(exe), driver='integrators', batch=300)
