"""Checkpointer: operation sequences validated against Checkpointer.tla, and
concurrent executions validated against CheckpointerConc.tla."""
import build
from runner import sched_replay


def check(c):
  exes = c.build([dict(name='checkpointer', protos=True, tus=build.CORE),
                  dict(name='checkpointer_conc', mode='sched', protos=True,
                       tus=build.CORE, extra=build.SCHED_PROTOBUF)])
  c.model('CheckpointerMC')
  c.model('CheckpointerConcMC')
  exe = exes['checkpointer']
  traces = c.run_driver(exe, ['--count', c.scale(8000, 200000)])
  c.validate('CheckpointerTrace', traces, replay=sched_replay(exe),
             driver='checkpointer')
  exe = exes['checkpointer_conc']
  traces = c.run_driver(
      exe, ['--seconds', c.scale(10, 120), '--bound', c.scale(2, 3), '--dfs',
            c.scale(1000, 100000), '--random', c.scale(200, 20000)])
  c.validate('CheckpointerConcTrace', traces, replay=sched_replay(exe),
             driver='checkpointer_conc')
