import common


def run(c):
    b = c.build(['crash'], link=common.WRAP)
    common.histories(c, b['crash'], 'CrashTrace', 'crash histories (all)', 700, ops=40, extra=['mode=all'])
