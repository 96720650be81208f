# C10: rebuilding, synchronizing, copying while other threads operate.
import common


def run(c):
    b = c.build(['conc'], link=common.WRAP)
    s = c.build(['conc'], link=common.WRAP, variant='sched')
    x = ['mode=maint', 'ulog=15']
    common.histories(c, s['conc'], 'ConcTrace', 'scheduled histories with online maintenance', 1200, ops=24, extra=x, name='v')
    common.histories(c, b['conc'], 'ConcTrace', 'histories with online maintenance', 800, ops=24, extra=x)
