"""RecurringThread: controlled schedules, validated against RecurringThread.tla."""
from runner import sched_replay


def check(c):
  exe = c.build([dict(name='recurring_thread', mode='sched')])['recurring_thread']
  c.model('RecurringThreadMC')
  c.model('RecurringThreadMC', 'RecurringThreadLive.cfg')
  traces = c.run_driver(
      exe, ['--seconds', c.scale(12, 300), '--bound', c.scale(2, 3), '--dfs',
            c.scale(400, 50000), '--random', c.scale(150, 10000)])
  c.validate('RecurringThreadTrace', traces, replay=sched_replay(exe),
             driver='recurring_thread')
  c.assumptions += [
      'synchronization primitives behave as documented (they are replaced by '
      'the scheduler)', 'time only advances when all threads are blocked']
