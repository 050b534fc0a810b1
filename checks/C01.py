"""Bundle: controlled schedules of the real code, validated against Bundle.tla."""
from runner import sched_replay


def check(c):
  exe = c.build([dict(name='bundle', mode='sched')])['bundle']
  c.model('BundleMC')
  traces = c.run_driver(
      exe, ['--seconds', c.scale(12, 240), '--bound', c.scale(2, 3), '--dfs',
            c.scale(1500, 200000), '--random', c.scale(300, 20000)])
  c.validate('BundleTrace', traces, replay=sched_replay(exe), driver='bundle')
  c.assumptions += [
      'synchronization primitives behave as documented (they are replaced by '
      'the scheduler)', 'time only advances when all threads are blocked']
