# C09: the message queue, alone (with the death of the process at every storage call) and between threads.
import common


def run(c):
    b = c.build(['mq'], link=common.IOWRAP)
    common.histories(c, b['mq'], 'MQTrace', 'message queue histories', 700, ops=60, name='s')
    common.histories(c, b['mq'], 'MQConc', 'concurrent message queue histories', 600, ops=16, extra=['mode=conc'], name='c')
