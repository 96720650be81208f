# C13: locks exclude, upgrade and re-hash correctly.
import common


def run(c):
    b = c.build(['lock'], variant='sched')
    common.histories(c, b['lock'], 'LockTrace', 'lock programs', 150, name='l')
