from .common import *
INFO = {'outside': 'Levels as listed in bounds (-1: symbolic over all levels). Tetrahedral elements of pyramid trees: levels up to 3 (quick) / 8 (thorough).', 'assumptions': ASSUME}


def units(tier):
    us = []
    th = tier == 'thorough'
    for s in ALL:
        if s in (0, 8):
            continue
        M = MAXL[s]
        if s == 7:
            lv = range(0, M + 1) if th else (0, 1, 2, 3, 5, 12, M)
        elif s >= 9:
            lv = range(0, M + 1) if th else (0, 1, 2, 7, M - 1, M)
        else:
            lv = [-1]
        ca = [(l, f) for l in lv for f in range(NF[s])]
        if s == 7:
            kw = dict(vac=True, timeout=1500)
            t2 = lambda c: range(8) if th or c[0] < 3 else (0, 2, 3, 5)
            us.append(scheme_unit('neigh', 'c08_faces.cxx', s, 0, [c for c in ca if c[0] <= (8 if th else 3) and (th or c[0] < 3 or c[1] == 2)], sw=True, types=t2, unwind=lambda c: max(c[0] + 2, 5), **kw))
            us.append(scheme_unit('neighp', 'c08_faces.cxx', s, 0, [c for c in ca if th or c[0] > 2], types=(6, 7), unwind=lambda c: max(c[0] + 2, 5), **kw))
            continue
        us.append(scheme_unit('neigh', 'c08_faces.cxx', s, 0, ca, defs=['INVOL=1']))
    return us
