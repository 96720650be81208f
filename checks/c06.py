# C06: a crash of a tree database.
import common


def known(info):
    e, tr = info['event'] or {}, info['trace']
    prev = tr[info['event_index'] - 2] if info['event_index'] >= 2 else {}
    return 'tree-restore-crash' if e.get('o') == 'open' and prev.get('cont') else None


def run(c):
    b = c.build(['crash'], link=common.WRAP)
    common.histories(c, b['crash'], 'CrashTrace', 'crash histories (tree)', 500, ops=40, extra=['mode=tree'])
    common.histories(c, b['crash'], 'CrashTrace', 'crash histories (tree, restoration interrupted)', 30, ops=40,
                     extra=['mode=tree', 'strict=1'], name='s', seed=1, knownfn=known, max_report=12)
