# C08: update logs and their replay.
import common


def run(c):
    b = c.build(['ulog'])
    common.histories(c, b['ulog'], 'ULogTrace', 'histories of logged databases', 270, ops=60, name='s')
    common.histories(c, b['ulog'], 'ULogTrace', 'concurrent logged histories', 300, ops=24, extra=['mode=conc'], name='c')
