"""PullSerializer and PushDeserializer: controlled schedules, validated against
StreamOut.tla and StreamIn.tla."""
from runner import sched_replay


def check(c):
  exe = c.build([dict(
      name='stream', mode='sched',
      extra=['-DVERIF_SCHED_PROTOBUF=\'<google/protobuf/struct.pb.h>\''],
      libs=['-lprotobuf'])])['stream']
  c.model('StreamOutMC')
  c.model('StreamInMC')
  traces = c.run_driver(
      exe, ['--seconds', c.scale(14, 300), '--bound', c.scale(2, 3), '--dfs',
            c.scale(400, 50000), '--random', c.scale(120, 10000)])
  c.validate('StreamTrace', traces, replay=sched_replay(exe), driver='stream')
  c.assumptions += [
      'synchronization primitives behave as documented (they are replaced by '
      'the scheduler)', 'a compressor written for the check stands for gipfeli']
