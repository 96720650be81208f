# C16: file objects are byte arrays.
import common


def run(c):
    b = c.build(['file'], link=common.IOWRAP)
    common.histories(c, b['file'], 'FileTrace', 'sequential file histories', 3000, ops=60, name='s')
    common.histories(c, b['file'], 'FileConc', 'concurrent file histories', 2500, ops=14, extra=['mode=conc'], name='c')
