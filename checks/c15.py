# C15: secondary indices.
import common


def run(c):
    b = c.build(['index'])
    common.histories(c, b['index'], 'IndexTrace', 'index histories', 1200, ops=90, name='i')
    common.histories(c, b['index'], 'IndexConc', 'concurrent index histories', 1200, ops=14, extra=['mode=conc'], name='c')
