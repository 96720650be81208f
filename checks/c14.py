# C14: bounded caches and the containers.
import common


def run(c):
    b = c.build(['lru'])
    common.histories(c, b['lru'], 'LruTrace', 'bounded cache histories', 800, ops=80, name='l')
    common.histories(c, b['lru'], 'ContTrace', 'container histories', 1200, ops=80, extra=['mode=cont'], name='k')
    common.histories(c, b['lru'], 'SetConc', 'concurrent set histories', 1200, ops=24, extra=['mode=set'], name='s')
