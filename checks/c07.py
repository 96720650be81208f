import common


def run(c):
    b = c.build(['crash'], link=common.WRAP)
    common.histories(c, b['crash'], 'CrashTrace', 'crash histories (whole)', 400, ops=40, extra=['mode=whole'])
