# C03: concurrent operations are linearizable.
import common


def run(c):
    b = c.build(['conc'], link=common.WRAP)
    s = c.build(['conc'], link=common.WRAP, variant='sched')
    x = ['mode=direct', 'ulog=15']
    common.histories(c, s['conc'], 'ConcTrace', 'scheduled concurrent histories', 1500, ops=24, extra=x, name='v')
    common.histories(c, b['conc'], 'ConcTrace', 'concurrent histories', 700, ops=24, extra=x)
    common.histories(c, b['conc'], 'ConcTrace', 'short concurrent histories', 700, ops=9, extra=x, name='s',
                     seed=None if not c.quick else c.seed * 1000 + 500)
