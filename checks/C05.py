from .common import *
INFO = {'outside': 'Level pairs as listed in bounds.', 'assumptions': ASSUME}


def units(tier):
    us = []
    for s in ALL:
        M = MAXL[s]
        if s in (0, 8):
            pr = [(0, 0), (0, 1), (1, 3), (200, 254), (254, 254)]
        elif tier == 'thorough':
            pr = [(l, L) for l in range(M + 1) for L in range(l, M + 1)]
        else:
            pr = [(0, 0), (0, 1), (0, 3), (0, M), (1, 1), (1, 2), (2, 4), (3, 4), (5, 5), (5, M), (7, 11), (M - 1, M), (M, M)]
        if s == 7:
            pr = [(l, L) for l, L in pr if l <= (6 if tier == 'thorough' else 2)] + ([] if tier == 'thorough' else [(1, 12)])
        if s == 5 and tier != 'thorough':
            pr = [c for c in pr if c not in ((M, M), (5, M))]
        us.append(scheme_unit('desc', 'c03_order.cxx', s, 4, pr, **(dict(mem=5) if s == 7 else {})))
    return us
