from .common import *
INFO = {'outside': 'Vertices only at levels 0..3 and 252..254 (one element per level). Quick tier: pairs (element level, numbering level) as listed in bounds; thorough tier: all pairs.',
        'assumptions': ['libp4est quadrant primitives are represented by models/p4est_model.inc (validated against the installed library)']}

FULLP = {'quick': 3, 'thorough': 12}


def units(tier):
    us = []
    for s in ALL:
        M = MAXL[s]
        lv = list(range(M + 1)) if M < 100 else [0, 1, 2, 3, 252, 253, 254]
        lq = lv if tier == 'thorough' or M > 100 else sorted(set([0, 1, 2, 3, 6, 11, 17, 23, M - 1, M]) & set(lv))
        if s == 10 and tier == 'quick':
            lq = [0, 1, 2, 5, 12, M]
        lf = lv if tier == 'thorough' or M > 100 else sorted(set(list(range(0, M, 2)) + [1, M - 1]))
        fine = [(l, L) for l in lf for L in lv if l < L and (tier == 'thorough' or L == l + 1 or L == M and l % 4 == 0)]
        coarse = [(l, L) for l in lv for L in lv if l > L and (tier == 'thorough' or (L == l - 1 and l % 2) or L == 1 and l % 4 == 0 or l == M and L == M // 2)]
        if s == 7:
            F = FULLP[tier]
            cw = [(l, L, w) for l, L in fine if l >= F for w in range(1, 6)]
            lw = [(l, w) for l in lv if l > F for w in range(1, 6)]
            if tier == 'quick':
                cw = [(20, 21, 4), (11, 12, 3), (7, 21, 5)]
                lw = [(9, 4)]
            us.append(scheme_unit('childid', 'c02_id.cxx', s, 0, [(l, L) for l, L in fine if l < F and (L == l + 1 or tier != 'quick')]))
            us.append(scheme_unit('childidw', 'c02_id.cxx', s, 0, cw, defs=['WCASE=2', 'WINDOW=2'], types=wt))
            us.append(scheme_unit('inverse', 'c02_id.cxx', s, 1, [(l,) for l in lv if l <= F]))
            us.append(scheme_unit('inversew', 'c02_id.cxx', s, 1, lw, defs=['WCASE=1', 'WINDOW=2'], types=wt))
            us.append(scheme_unit('surjective', 'c02_id.cxx', s, 4, [(l,) for l in lv if l <= F], types=()))
            us.append(scheme_unit('surjectivew', 'c02_id.cxx', s, 4, [(l, w) for l in (lv[F + 1:] if tier == 'thorough' else [21]) for w in ((0, 1, 3) if tier == 'quick' else range(5))], defs=['IDW=1'], types=()))
            coarse = [(l, L) for l, L in coarse if l <= F]
        else:
            us.append(scheme_unit('childid', 'c02_id.cxx', s, 5, fine))
            us.append(scheme_unit('inverse', 'c02_id.cxx', s, 1, [(L,) for L in lq]))
            us.append(scheme_unit('surjective', 'c02_id.cxx', s, 4, [(L,) for L in lq], types=()))
        us.append(scheme_unit('leaves', 'c02_id.cxx', s, 2, [(L,) for L in lq], types=()))
        us.append(scheme_unit('coarser', 'c02_id.cxx', s, 3, coarse, sw=True))
    return us


def wt(c):
    """types of the symbolic element that exist below the fixed path pattern"""
    w = c[-1]
    return [1] if w == 5 else [6, 0] if w == 4 else [6, 3]
