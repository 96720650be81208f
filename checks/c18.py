# C18: the skip database publishes batches in key order.
import common


def run(c):
    b = c.build(['skip'])
    common.histories(c, b['skip'], 'SkipTrace', 'skip database histories', 350, ops=40, name='s')
    common.histories(c, b['skip'], 'SkipConc', 'concurrent skip database histories', 250, ops=12, extra=['mode=conc'],
                     name='c')
    x = c.build(['skip'], variant='sched')
    common.histories(c, x['skip'], 'SkipConc', 'scheduled skip database histories', 500, ops=12, extra=['mode=conc'],
                     name='x')
