# C05: restoring to the last synchronized state.
import common


def known(info):
    bad = [x for x in (info['event'] or {}).get('cr', []) if x[0] != 'ok' or x[2]]
    return 'closed-mark-not-durable' if bad else None


def run(c):
    b = c.build(['crash'], link=common.WRAP)
    common.histories(c, b['crash'], 'CrashTrace', 'crash histories (sync)', 400, ops=40, extra=['mode=sync'])
    common.histories(c, b['crash'], 'CrashTrace', 'crash histories with lost writes', 400, ops=40, extra=['mode=loss'], name='l')
    common.histories(c, b['crash'], 'CrashTrace', 'crash histories with lost metadata', 8, ops=40,
                     extra=['mode=loss', 'strict=1', 'cls=hash'], name='s', seed=1, knownfn=known, max_report=12)
