# C24: searches return exactly the matching keys and lines.
import common


def run(c):
    b = c.build(['search', 'lsearch'], variant='asan')
    common.histories(c, b['search'], 'SearchTrace', 'searches of databases and text files', 550, ops=40, name='s')
    common.histories(c, b['lsearch'], 'SearchTrace', 'searches through the C interface', 200, ops=40, name='l')
