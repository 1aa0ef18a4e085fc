from .common import *
INFO = {'outside': 'Levels as listed in bounds; above the fully symbolic levels the path down to the last few levels follows fixed patterns. The successor of the last element of a level is undefined and excluded.', 'assumptions': ASSUME}


def units(tier):
    us = []
    th = tier == 'thorough'
    for s in ALL:
        M = MAXL[s]
        kw = dict(rec=lambda c: min(c[0], 3), sw=True)
        if s in (0, 8):
            continue
        if s in (3, 5, 6):
            us.append(scheme_unit('succ', 'c03_order.cxx', s, 3, [(l,) for l in (range(1, M + 1) if th else (1, 2, 3, 4))], defs=['INPLACE=1'], **kw))
            us.append(scheme_unit('succw', 'c03_order.cxx', s, 3, [(l, w) for l in (range(6, M + 1) if th else (8, M - 1, M)) for w in ((1, 2, 3, 4, 5) if th else (4, 5))], defs=['WCASE=1', 'WINDOW=4'], **kw))
        elif s == 7:
            us.append(scheme_unit('succ', 'c03_order.cxx', s, 3, [(l,) for l in range(1, 7 if th else 4)], **kw))
            us.append(scheme_unit('succw', 'c03_order.cxx', s, 3, [(l, 4) for l in ((6, 9, 15, M) if th else (5,))], defs=['WCASE=1', 'WINDOW=2'], types=[6, 7] if not th else None, rec=lambda c: min(c[0], 3)))
        else:
            us.append(scheme_unit('succ', 'c03_order.cxx', s, 3, [(l,) for l in (range(1, M + 1) if th else (1, 2, 3, 5, 9, M - 1, M))], defs=['INPLACE=1'], **kw))
    return us
