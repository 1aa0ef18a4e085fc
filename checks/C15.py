from .common import *
INFO = {'outside': 'Numbers of ranks as listed (case 0; further cases are ranks); trees below 2^BITS as listed (the code only compares tree numbers and adds or subtracts one).', 'assumptions': ASSUME}


def units(tier):
    th = tier == 'thorough'
    us = []

    def u(name, part, ranks, nr, bits, sub=0):
        cases = []
        for r in ranks:
            c = [(r,)]
            for _ in range(nr):
                c = [x + (k,) for x in c for k in range(r)]
            cases += c
        us.append(Unit(name, 'c15_offset.cxx', defs=['PART=%d' % part, 'SUB=%d' % sub, 'BITS=%d' % bits], srcs=['t8_cmesh/t8_cmesh_internal/t8_cmesh_offset.c'],
                       models=MODELS, cases=cases, unwind=lambda c: c[0] + 2, timeout=1200 if th else 400, note='trees below 2^%d' % bits))
    for s, n in enumerate(('any', 'anyext', 'neighbours', 'first', 'last', 'all')):
        u('owner_' + n, 1, range(1, (4 if s == 5 else 5 if s >= 2 else 6) + th), 1 if s in (1, 2) else 0, 3, s)
    u('nosend', 4, range(1, 4 + th), 1, 4)
    u('sendsto', 3, range(1, 5 + th), 2, 4)
    u('table', 0, range(1, 6 + 2 * th), 1, 60)
    u('sendstree', 2, range(1, 5 + th), 2, 4)
    u('range', 5, range(1, 4 + th), 1, 4)
    return us
