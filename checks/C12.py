from .common import *
INFO = {'outside': 'Levels as listed in bounds (-1: symbolic over all levels). Queries that a class documents as not implemented are not called.', 'assumptions': ASSUME}


def units(tier):
    us = []
    for s in ALL:
        M = MAXL[s]
        lv = range(M + 1) if s == 7 and tier == 'thorough' else (0, 1, 5, M) if s == 7 else [-1]
        us.append(scheme_unit('shape', 'c12_shape.cxx', s, 0, [(l,) for l in lv]))
    return us
