from .common import *
INFO = {'outside': 'Nothing within the element classes: all levels 0..maximum and all coordinates/types of each class are symbolic. Sibling construction is only called where it is implemented (quad, triangle, hexahedron, tetrahedron).',
        'assumptions': ['libp4est quadrant primitives are represented by models/p4est_model.inc (validated against the installed library)']}


def units(tier):
    us = []
    for s in ALL:
        us.append(scheme_unit('root', 'c01_tree.cxx', s, 3, [(-1, -1)], types=()))
        us.append(scheme_unit('down', 'c01_tree.cxx', s, 0, [(-1, k) for k in range(NCH[s])]))
        us.append(scheme_unit('up', 'c01_tree.cxx', s, 1, [(-1,)]))
        for n in ([10, 8] if s == 7 else [NCH[s]]):
            us.append(scheme_unit('children%d' % n, 'c01_tree.cxx', s, 2, [(-1, a) for a in (0, 1)], defs=['NCASE=%d' % n],
                                  types={5: range(6), 7: [6, 7] if n == 10 else range(6)}.get(s)))
        if s in (2, 3, 4, 5):
            us.append(scheme_unit('sibling', 'c01_tree.cxx', s, 4, [(-1, k) for k in range(NCH[s])]))
    return us
