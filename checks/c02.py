# C02: iterators visit exactly the stored records, in order, also while records change.
import common


def run(c):
    n = 4000 if c.quick else 8000
    b = c.build(['iter'])
    common.histories(c, b['iter'], 'IterTrace', 'iterator histories', n, ops=100)
