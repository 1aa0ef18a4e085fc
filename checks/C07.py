from .common import *
INFO = {'outside': 'Pyramids: families with at most one foreign member; all other classes: arbitrary tuples of elements of all levels.', 'assumptions': ASSUME}


def units(tier):
    us = []
    for s in ALL:
        if s == 7:
            us.append(scheme_unit('family10', 'c03_order.cxx', s, 9, [(-1, 10, j) for j in (range(-1, 10) if tier == 'thorough' else (-1, 0, 3, 7, 9))], types=[6, 7]))
            us.append(scheme_unit('family8', 'c03_order.cxx', s, 9, [(-1, 8, j) for j in (range(-1, 8) if tier == 'thorough' else (-1, 0, 4, 7))], types=range(6) if tier == 'thorough' else (lambda c: (0, 3) if c[2] in (0, 7) else (0, 1, 5))))
        else:
            us.append(scheme_unit('family', 'c03_order.cxx', s, 8, [(-1,)] if s < 9 else [(l,) for l in range(0, 4)], types=()))
            us.append(scheme_unit('familyx', 'c03_order.cxx', s, 9, [(-1, 0, -1)] if s < 9 else [(l, 0, -1) for l in (0, 2, 5, MAXL[s] - 1)], types=()))
    return us
