from .common import *
INFO = {'outside': 'Edge tables of pyramids (the library has none). Names of classes.', 'assumptions': []}


def units(tier):
    n = ['class', 'face', 'edge', 'vtk', 'compare', 'ctables']
    return [Unit(n[p], 'c14_eclass.cxx', defs=['PART=%d' % p], srcs=EC + ['t8_element/t8_element.cxx', 't8_element/t8_element_shape.c'], models=['eclass_c.c'], native_models=['eclass_c.c'], unwind=50) for p in range(6)]
