# C21: signals between threads are never lost or misdelivered.
import common


def run(c):
    b = c.build(['signal'], variant='sched')
    common.histories(c, b['signal'], 'SignalTrace', 'signal programs', 120, name='g')
