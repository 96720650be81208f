# C17: a sharded database equals a single database.
import common


def run(c):
    b = dict(c.build(['shard', 'kv']))
    b.update(c.build(['conc'], link=common.WRAP, variant='sched'))
    common.histories(c, b['shard'], 'ShardTrace', 'sharded databases and their files', 600, name='s')
    common.histories(c, b['kv'], 'KVTrace', 'sequential sharded histories', 250, extra=['cls=shard'], name='k')
    common.histories(c, b['conc'], 'ConcTrace', 'scheduled sharded histories', 700, ops=16,
                     extra=['mode=direct', 'ulog=15', 'cls=shard', 'cxm=35'], name='c')
