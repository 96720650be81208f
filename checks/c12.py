# C12: the asynchronous adapter.
import common


def run(c):
    b = c.build(['conc'], link=common.WRAP)
    s = dict(c.build(['conc'], link=common.WRAP, variant='sched'))
    s.update(c.build(['signal'], variant='sched'))
    x = ['mode=async', 'ulog=10']
    common.histories(c, s['conc'], 'ConcTrace', 'scheduled asynchronous histories', 1000, ops=20, extra=x, name='v')
    common.histories(c, b['conc'], 'ConcTrace', 'asynchronous histories', 700, ops=20, extra=x)
    common.histories(c, s['signal'], 'TaskTrace', 'task queue programs', 60, extra=['mode=task'], name='q')
