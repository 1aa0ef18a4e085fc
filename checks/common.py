from vp.engine import Unit
D = 't8_schemes/t8_default/'
TRI = [D + 't8_default_tri/' + f for f in ('t8_dtri_bits.c', 't8_dtri_connectivity.c')]
LINE = [D + 't8_default_line/t8_dline_bits.c']
TET = [D + 't8_default_tet/' + f for f in ('t8_dtet_bits.c', 't8_dtet_connectivity.c')]
EC = ['t8_eclass/t8_eclass.c']
S = {
    0: ('vertex', [D + 't8_default_vertex/t8_default_vertex.cxx'] + EC),
    1: ('line', [D + 't8_default_line/t8_default_line.cxx'] + LINE + EC + [D + 't8_default_vertex/t8_default_vertex.cxx']),
    2: ('quad', [D + 't8_default_quad/t8_default_quad.cxx', D + 't8_default_quad/t8_default_quad_bits.cxx'] + EC),
    3: ('tri', [D + 't8_default_tri/t8_default_tri.cxx'] + TRI + EC),
    4: ('hex', [D + 't8_default_hex/t8_default_hex.cxx', D + 't8_default_hex/t8_dhex_bits.c'] + EC),
    5: ('tet', [D + 't8_default_tet/t8_default_tet.cxx'] + TET + EC),
    6: ('prism', [D + 't8_default_prism/t8_default_prism.cxx', D + 't8_default_prism/t8_dprism_bits.c'] + LINE + TRI + EC),
    7: ('pyramid', [D + 't8_default_pyramid/t8_default_pyramid.cxx', D + 't8_default_pyramid/t8_dpyramid_bits.c', D + 't8_default_pyramid/t8_dpyramid_connectivity.c'] + TET + TRI + EC),
    8: ('svertex', EC), 9: ('sline', EC), 10: ('squad', EC), 11: ('shex', EC),
}
MAXL = [254, 30, 29, 29, 18, 21, 21, 21, 254, 30, 30, 21]
NCH = [1, 2, 4, 4, 8, 8, 8, 10, 1, 2, 4, 8]
NF = [0, 2, 4, 3, 6, 4, 5, 5, 0, 2, 4, 6]
DIM = [0, 1, 2, 2, 3, 3, 3, 3, 0, 1, 2, 3]
ASSUME = ['libp4est quadrant primitives and libsc helpers are represented by models/ (validated against the installed libraries by models/validate.sh)']
MODELS = ['p4est_model.c', 'p8est_model.c', 'sc_model.c']
ALL = [7, 5, 6, 3, 10, 11, 9, 4, 2, 1, 0, 8]
LVT = {5: {0: [0]}, 7: {0: [6], 1: [0, 3, 6, 7]}}


def scheme_unit(name, harness, sch, part, cases, srcs=(), **kw):
    defs = ['SCH=%d' % sch, 'PART=%d' % part] + list(kw.pop('defs', []))
    kw.setdefault('unwind', 40)
    t = kw.pop('types', None)
    if t is None and sch == 7:
        t = range(8)
    if t and sch in (5, 7):
        # split on the type of the primary element; at a fixed level only the types that occur there
        ok = lambda lv, ty: lv < 0 or ty in LVT[sch].get(lv, range(8))
        n = len(cases[0])
        defs.append('TCASE=%d' % n)
        cases = [tuple(c) + (ty,) for c in cases for ty in (t(c) if callable(t) else t) if ok(c[0] if not kw.get('nolevel') else -1, ty)]
        if kw.pop('sw', False) and sch == 7:
            # also split on the level at which a tetrahedral element's ancestors stop being pyramids
            defs.append('SWCASE=%d' % (n + 1))
            kw['vac'] = True
            cases = [c + (w,) for c in cases for w in ([-1] if c[n] >= 6 else [w for w in range(1, c[0] + 1) if w < c[0] or c[n] in (0, 3)])]
    kw.pop('nolevel', None)
    kw.pop('sw', None)
    return Unit('%s.%s' % (name, S[sch][0]), harness, defs=defs, srcs=S[sch][1] + list(srcs), models=kw.pop('models', MODELS), cases=cases, **kw)
