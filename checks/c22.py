# C22: the C interface decided by the specifications of the C++ interface.
import common


def run(c):
    b = c.build(['lkv', 'liter', 'lindex'], variant='asan')
    f = c.build(['lfile'], link=common.IOWRAP)
    common.histories(c, b['lkv'], 'KVTrace', 'histories through the C interface', 550, name='k')
    common.histories(c, b['liter'], 'IterTrace', 'iterator histories through the C interface', 450, name='i')
    common.histories(c, b['lindex'], 'IndexTrace', 'index histories through the C interface', 200, ops=60, name='x')
    common.histories(c, f['lfile'], 'FileTrace', 'file histories through the C interface', 300, ops=60, name='f')
