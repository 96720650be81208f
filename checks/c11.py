# C11: backups, exports and imports.
import common


def run(c):
    a = c.build(['exp'], variant='asan')
    p = c.build(['lexp'])
    s = c.build(['conc'], link=common.WRAP, variant='sched')
    b = c.build(['conc'], link=common.WRAP)
    common.histories(c, a['exp'], 'CopyTrace', 'histories of exports, imports and copies', 250, ops=60)
    common.histories(c, p['lexp'], 'CopyTrace', 'the same through the C interface', 100, ops=60, name='l')
    x = ['mode=maint', 'copying=1', 'ulog=5']
    common.histories(c, s['conc'], 'ConcTrace', 'scheduled histories with copies and exports', 350, ops=24, extra=x, name='v')
    common.histories(c, b['conc'], 'ConcTrace', 'histories with concurrent copies and exports', 300, ops=24, extra=x, name='p')
