from .common import *
from . import C03
INFO = {'outside': 'Level pairs as listed in bounds.', 'assumptions': ASSUME}


def units(tier):
    us = []
    for s in ALL:
        M = MAXL[s]
        if s not in (0, 8):
            al = [(l, L) for l in range(1, M + 1) for L in range(1, l + 1) if tier == 'thorough' or (l, L) in ((1, 1), (2, 1), (2, 2), (4, 2), (4, 1), (7, 5), (M, 1), (M, M), (M, M - 1), (M, M // 2), (M - 1, 3))]
            if s == 7 and tier != 'thorough':
                al = [c for c in al if c[0] <= 4]
            us.append(scheme_unit('ancid', 'c03_order.cxx', s, 5, al, sw=True))
        pr = C03.pairs(s, tier)
        us.append(scheme_unit('isanc', 'c03_order.cxx', s, 6, [(b, a) for a, b in pr if s != 7 or tier == 'thorough' or (a, b) != (3, 2)], types=() if s == 7 else None, vac=True, fsa=256 if s >= 8 else 64))
        if s == 7:
            # nearest common ancestor of pyramids: type and switch level of both elements are fixed per query
            tw = lambda l: [(t, w) for t in LVT[7].get(l, range(8)) for w in ([-1] if t >= 6 else [w for w in range(1, l + 1) if w < l or t in (0, 3)])]
            th = tier == 'thorough'
            pr = [(0, 0), (1, 0), (0, 2), (1, 1), (2, 1), (1, 2), (2, 2)] + ([(3, 3), (3, 1)] if th else [])
            ca = [(a, b) + x + y for a, b in pr for x in tw(a) for y in tw(b)]
            if not th:
                # two tetrahedra or deep switch levels are expensive: a selection of them
                ca = [c for c in ca if (c[2] >= 6 and c[4] >= 6) or (c[:2] == (1, 1) and c[2] >= 6) or c[:2] == (1, 0)]
            us.append(scheme_unit('nca', 'c03_order.cxx', s, 7, ca, types=(), defs=['TCASE=2', 'SWCASE=3', 'T2CASE=4'], vac=True, timeout=1500, unwind=lambda c: max(c[0], c[1]) + 2))
            continue
        if tier != 'thorough' and s in (3, 5, 6):
            pr = [c for c in pr if min(c) < 8 or (s == 3 and c == (M, M - 1))]
            pr = [c for c in pr if s != 5 or c != (M, 2)]
        us.append(scheme_unit('nca', 'c03_order.cxx', s, 7, pr, sw=True, timeout=1500, vac=True, unwind=lambda c: max(c[0], c[1]) + 2))
    return us
