# C01: every database class behaves as one key-value map.
import common


def run(c):
    b = c.build(['kv'])
    common.histories(c, b['kv'], 'KVTrace', 'sequential histories', 2000)
