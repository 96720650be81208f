# C19: misuse and read-only access.
import common


def known(info):
    e = info['event'] or {}
    return 'copy-drops-lock' if e.get('o') == 'hold' and e.get('lost') == 1 else None


def run(c):
    b = c.build(['guard'])
    common.histories(c, b['guard'], 'GuardTrace', 'histories of misuse and read-only access', 300, ops=60, name='g')
    common.histories(c, b['guard'], 'GuardTrace', 'histories of another process after a copy', 6, ops=60,
                     extra=['lost=100'], name='l', seed=1, knownfn=known, max_report=12)
