"""Protector and Clientele: controlled schedules of the real code, validated
against Protector.tla and Clientele.tla."""
import build
from runner import sched_replay


def check(c):
  exe = c.build([dict(name='protector', mode='sched',
                      tus=build.CORE, protos=True,
                      extra=build.SCHED_PROTOBUF)])['protector']
  c.model('ProtectorMC')
  c.model('ClienteleMC')
  traces = c.run_driver(
      exe, ['--seconds', c.scale(16, 240), '--bound', c.scale(2, 3), '--dfs',
            c.scale(1000, 100000), '--random', c.scale(200, 20000)])
  c.validate('ProtectorTrace', [t for t in traces if t['cfg']['c'] == 'p'],
             replay=sched_replay(exe), driver='protector')
  c.validate('ClienteleTrace', [t for t in traces if t['cfg']['c'] == 'c'],
             replay=sched_replay(exe), driver='protector')
