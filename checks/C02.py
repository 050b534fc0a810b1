"""ThreadPool: controlled schedules, validated against ThreadPool.tla."""
from runner import sched_replay


def check(c):
  exe = c.build([dict(name='thread_pool', mode='sched')])['thread_pool']
  c.model('ThreadPoolMC')
  traces = c.run_driver(
      exe, ['--seconds', c.scale(12, 300), '--bound', c.scale(2, 3), '--dfs',
            c.scale(400, 50000), '--random', c.scale(150, 10000)])
  c.validate('ThreadPoolTrace', traces, replay=sched_replay(exe),
             driver='thread_pool')
  c.assumptions += [
      'synchronization primitives behave as documented (they are replaced by '
      'the scheduler)', 'time only advances when all threads are blocked']
