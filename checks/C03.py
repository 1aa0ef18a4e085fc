from .common import *
INFO = {'outside': 'Level pairs as listed in bounds (thorough tier: all pairs up to the stated level). Pyramids: full symbolic elements up to level 3 (quick) / 6 (thorough), one fixed path pattern above.',
        'assumptions': ASSUME}


def pairs(s, tier):
    M = MAXL[s]
    if s in (0, 8):
        return [(0, 0), (0, 3), (3, 1), (254, 253), (254, 254)]
    if tier == 'thorough':
        N = 6 if s == 7 else M
        return [(a, b) for a in range(N + 1) for b in range(N + 1) if abs(a - b) <= 3 or a in (0, N) or b in (0, N)]
    if s == 7:
        return [(0, 0), (1, 1), (1, 0), (0, 2), (2, 2), (3, 2), (1, 3), (3, 3)]
    return [(0, 0), (1, 1), (1, 0), (0, 2), (2, 2), (3, 2), (2, 4), (4, 1), (7, 7), (M, M), (M, M - 1), (M - 2, M), (0, M), (M, 2)]


def units(tier):
    us = []
    for s in ALL:
        us.append(scheme_unit('compare', 'c03_order.cxx', s, 0, pairs(s, tier), sw=True, vac=True))
        us.append(scheme_unit('equal', 'c03_order.cxx', s, 1, [()], types=()))
    return us
