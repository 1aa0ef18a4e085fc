from .common import *
INFO = {'outside': 'Levels as listed in bounds (-1: symbolic over all levels).', 'assumptions': ASSUME}


def units(tier):
    us = []
    th = tier == 'thorough'
    for s in ALL:
        if s in (0, 8):
            continue
        M = MAXL[s]
        uw = dict(unwind=lambda c: max(c[0] + 2, 11), timeout=1500) if s == 7 else {}
        uw['vac'] = True
        if th:
            lv = range(0, M + 1)
        elif s == 7:
            lv = (0, 1, 3, M)
        elif s >= 9 or s in (5, 6):
            lv = (0, 1, 7, M)
        else:
            lv = [-1]
        F = range(NF[s])
        us.append(scheme_unit('bound', 'c10_boundary.cxx', s, 0, [(l, f) for l in lv for f in F], **uw))
        us.append(scheme_unit('extrude', 'c10_boundary.cxx', s, 1, [(l, f) for l in (lv if s != 7 else range(7) if th else (0, 1, 2, 4, M)) for f in F if th or s != 7 or l == 0 or f == 4], types=[], **uw))
        if DIM[s] < 3:
            no = {1: 2, 9: 2, 2: 4, 10: 4, 3: 3}[s]
            us.append(scheme_unit('transform', 'c10_boundary.cxx', s, 2, [(l, o, g) for l in lv for o in range(no) for g in ((0, 1) if DIM[s] == 2 else (0,))]))
    return us
