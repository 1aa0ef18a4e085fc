from .common import *
INFO = {'outside': 'Levels and level pairs as listed in bounds (-1: symbolic over all levels).', 'assumptions': ASSUME}


def units(tier):
    us = []
    th = tier == 'thorough'
    for s in ALL:
        if s in (0, 8):
            continue
        M = MAXL[s]
        uw = dict(unwind=24, vac=True, timeout=1500) if s == 7 else {}
        if th:
            lv = range(0, M)
        elif s == 7:
            lv = (0, 2, M - 1)
        elif s in (1, 2):
            lv = [-1]
        else:
            lv = (0, 5) if s == 5 else (0, 9) if DIM[s] == 3 else (0, 1, 4, M - 1)
        F = range(NF[s])
        us.append(scheme_unit('chface', 'c08_faces.cxx', s, 1, [(l, f) for l in lv for f in F], types=(lambda c: range(8) if th or c[0] < 5 else (6, 7)) if s == 7 else None, **uw))
        lp = [l if l <= 0 else l + 1 for l in lv] if s != 7 or th else [0, 1, 2, M]
        if s == 7:
            ca = [(l, f, t) for l in lp if l <= (8 if th else 3) for f in F for t in range(8) if l or t == 6]
            ca = [c + (w,) for c in ca for w in ([-1] if c[2] >= 6 else [w for w in range(1, c[0] + 1) if w < c[0] or c[2] in (0, 3)])]
            ca += [(l, f, t, -1) for l in lp if l > (8 if th else 3) for f in F for t in (6, 7)]
            # type of the parent: pyramids have pyramid parents, tetrahedra too at the level of the switch
            ca = [c + (p,) for c in ca for p in ((6, 7) if c[2] >= 6 or c[3] == c[0] else range(6)) if (c[0] != 1 or p == 6) and (c[0] != 2 or p in (0, 3, 6, 7))]
            us.append(scheme_unit('parface', 'c08_faces.cxx', s, 2, ca, types=[], defs=['TCASE=2', 'SWCASE=3', 'PTCASE=4'], **uw))
        else:
            us.append(scheme_unit('parface', 'c08_faces.cxx', s, 2, [(l, f) for l in lp for f in F], **uw))
        pr = [(l, L) for L in range(M + 1) for l in range(L + 1)] if th else [(0, 1), (1, 1), (0, 3), (2, 5), (4, 5) if s == 5 else (12, 13) if s == 3 else (M - 1, M)]
        if s == 7:
            pr = [(l, L) for l, L in pr if L - l <= 3 and L <= 8] if th else [(0, 1), (1, 1), (0, 3), (1, 3)]
        us.append(scheme_unit('facedesc', 'c08_faces.cxx', s, 4, [(l, f, L) for l, L in pr for f in F], **uw))
    return us
