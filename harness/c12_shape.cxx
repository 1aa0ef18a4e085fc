/* C12: shape queries agree with the geometry of the element.  case 0: level */
#include "geom.hxx"
#define HAS_CF (SCH == 2 || SCH == 3 || SCH == 4 || SCH >= 9)
static inline int spec_shape (const E &e)
{
#if SCH == 7
  return e.pyramid.type < 6 ? T8_ECLASS_TET : T8_ECLASS_PYRAMID;
#else
  return ECLASS;
#endif
}
static inline int spec_face_shape (const E &e, int f)
{
  const int n = face_nv (e, f);
  return DIM == 1 ? T8_ECLASS_VERTEX : DIM == 2 ? T8_ECLASS_LINE : n == 3 ? T8_ECLASS_TRIANGLE : T8_ECLASS_QUAD;
}
extern "C" void vp_harness (void)
{
  Sch &s = sch ();
  E e;
  int lo, hi; lvl_range (0, MAXL, lo, hi);
  prim_at (e, lo, hi);
  const E e0 = e;
  VP_CHECK (s.element_get_level (CEL (&e)) == LVL (e), "level");
  VP_CHECK (s.get_maxlevel () == MAXL, "maximum level");
  VP_CHECK (s.element_get_shape (CEL (&e)) == spec_shape (e), "shape of an element");
  VP_CHECK (s.element_get_num_corners (CEL (&e)) == nvert (e), "number of corners");
  VP_CHECK (s.element_get_num_children (CEL (&e)) == spec_nch (e), "number of children");
  VP_CHECK (s.get_max_num_children () == NCH, "maximum number of children");
  VP_CHECK ((s.element_is_refinable (CEL (&e)) != 0) == (LVL (e) < MAXL), "refinable below the maximum level");
  VP_CHECK (s.get_element_size () == sizeof (E), "element size");
  VP_CHECK ((s.refines_irregular () != 0) == (SCH == 7), "irregular refinement");
#if DIM > 0
  VP_CHECK (s.element_get_num_faces (CEL (&e)) == nface (e), "number of faces");
  VP_CHECK (s.element_get_max_num_faces (CEL (&e)) >= nface (e), "maximum number of faces");
  for (int f = 0; f < MAXF; f++) {
    if (f >= nface (e)) continue;
    VP_CHECK (s.element_get_face_shape (CEL (&e), f) == spec_face_shape (e, f), "shape of a face");
    VP_CHECK (s.element_get_num_face_children (CEL (&e), f) == 1 << (DIM - 1), "number of children at a face");
    for (int k = 0; k < 4; k++) {
      if (k >= face_nv (e, f)) continue;
      VP_CHECK (s.element_get_face_corner (CEL (&e), f, k) == face_v (e, f, k), "corners of a face in order");
    }
  }
#if HAS_CF
  for (int v = 0; v < (SCH == 3 ? 3 : 1 << DIM); v++) {
    unsigned seen = 0;
    for (int i = 0; i < DIM; i++) {
      const int f = s.element_get_corner_face (CEL (&e), v, i);
      VP_CHECK (f >= 0 && f < MAXF && !(seen >> f & 1), "faces at a corner are different faces");
      seen |= 1u << f;
      bool has = false;
      for (int k = 0; k < 4; k++) if (k < face_nv (e, f) && face_v (e, f, k) == v) has = true;
      VP_CHECK (has, "faces at a corner contain the corner");
    }
  }
#endif
#endif
  VP_CHECK (same (e, e0), "element unchanged");
  E r;
  junk (r);
  s.set_to_root (EL (&r));
  VP_CHECK (LVL (r) == 0 && inv (r), "set to root");
  E c;
  junk (c);
  s.element_copy (CEL (&e), EL (&c));
  VP_CHECK (same (c, e) && s.element_is_equal (CEL (&c), CEL (&e)), "copy is equal");
#if SCH == 7
  VP_CHECK (c.switch_shape_at_level == e.switch_shape_at_level, "copy is equal in every field");
#endif
  vp_witness ("shape");
}
