from .common import *
INFO = {'outside': 'Levels as listed in bounds (-1: symbolic over all levels). Reference points: every corner of the reference element and the middle between it and corner 0.', 'assumptions': ASSUME}
NV = [1, 2, 4, 3, 8, 4, 6, 5, 1, 2, 4, 8]


def units(tier):
    us = []
    th = tier == 'thorough'
    for s in ALL:
        if s in (0, 8):
            continue
        M = MAXL[s]
        kw = dict(vac=True) if s == 7 else {}
        lv = range(0, M + 1) if th else (0, 1, 6, M)
        ca = [(l, v) for l in lv for v in range(NV[s])]
        us.append(scheme_unit('vertex', 'c11_coords.cxx', s, 0, ca, **kw))
        us.append(scheme_unit('point', 'c11_coords.cxx', s, 1, [c for c in ca if th or c[0] < M or c[1] == NV[s] - 1], defs=['DIMP=3'], **kw))
    return us
