"""PushPullCallback: controlled schedules, validated against PushPull.tla."""
from runner import sched_replay


def check(c):
  exe = c.build([dict(name='push_pull_callback', mode='sched')])[
      'push_pull_callback']
  c.model('PushPullMC')
  traces = c.run_driver(
      exe, ['--seconds', c.scale(10, 240), '--bound', c.scale(2, 4), '--dfs',
            c.scale(1000, 100000), '--random', c.scale(300, 20000)])
  c.validate('PushPullTrace', traces, replay=sched_replay(exe),
             driver='push_pull_callback')
  c.assumptions += [
      'synchronization primitives behave as documented (they are replaced by '
      'the scheduler)', 'time only advances when all threads are blocked']
