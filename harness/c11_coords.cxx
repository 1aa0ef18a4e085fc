/* C11: coordinates of elements inside the reference tree.
 * case 0: level, case 1: corner */
#include "geom.hxx"
/* root length of each coordinate as an exact double */
static inline double rlen (int k)
{
#if SCH >= 9
  return (double) (1u << MAXL);
#elif SCH == 3
  return (double) (1u << 29);
#elif SCH == 5 || SCH == 7
  return (double) (1u << 21);
#elif SCH == 6
  return k < 2 ? (double) (1u << 29) : (double) (1u << 30);
#else
  return (double) (1u << 30);
#endif
}
/* reference coordinates of corner v of the reference element of e's shape */
static inline double refc (const E &e, int v, int k)
{
#if CUBE
  return v >> k & 1;
#elif SCH == 3
  return k == 0 ? v > 0 : v == 2;
#elif SCH == 5
  return k == 0 ? v > 0 : k == 1 ? v == 3 : v >= 2;
#elif SCH == 6
  return k == 0 ? v % 3 > 0 : k == 1 ? v % 3 == 2 : v >= 3;
#elif SCH == 7
  if (e.pyramid.type < 6) return k == 0 ? v > 0 : k == 1 ? v == 3 : v >= 2;
  return v == 4 ? 1 : k < 2 ? v >> k & 1 : 0;
#else
  return 0;
#endif
}
/* length of integer vertex coordinates: hypercubes and simplices use their own root length, prisms a length of 2^21 */
extern "C" void vp_harness (void)
{
  Sch &s = sch ();
  E e;
  const int v = vp_case (1);
  int lo, hi; lvl_range (0, MAXL, lo, hi);
  prim_at (e, lo, hi);
  vp_assume (v < nvert (e));
  const E e0 = e;
  enum { D3 = DIM < 1 ? 1 : DIM };
#if PART == 0
  double c[3] = { -1, -1, -1 };
  s.element_get_vertex_reference_coords (CEL (&e), v, c);
  ic x[3];
  vertex (e, v, x);
  for (int k = 0; k < DIM; k++) VP_CHECK (c[k] * rlen (k) == (double) x[k], "reference coordinates of a corner are its position in the tree");
  VP_CHECK (same (e, e0), "element unchanged");
#if SCH < 8
  int n[3] = { -1, -1, -1 };
  s.element_get_vertex_integer_coords (CEL (&e), v, n);
  for (int k = 0; k < DIM; k++) VP_CHECK (n[k] == (int) (SCH != 6 ? x[k] : k < 2 ? x[k] >> 8 : x[k] >> 9), "integer coordinates of a corner");
#endif
#if SCH != 1 && SCH < 8
  if (v == 0) {
    int a[3] = { -1, -1, -1 };
    s.element_get_anchor (CEL (&e), a);
#if SCH == 7
    if (e.pyramid.type == 7) x[2] -= 1u << (21 - LVL (e)); /* the anchor of an upside down pyramid is the lowest corner of its cube */
#endif
    for (int k = 0; k < DIM; k++) VP_CHECK (a[k] == (int) (SCH != 6 ? x[k] : k < 2 ? x[k] >> 8 : x[k] >> 9), "anchor is the first corner");
  }
#endif
  vp_witness ("corner");
#else
  /* points of the element: a corner, and the middle between that corner and corner 0; two points in one call */
  double in[2 * 3], out[2 * 3 + 1], c[3], o[3];
  for (int k = 0; k < DIM; k++) in[k] = (refc (e, v, k) + refc (e, 0, k)) / 2, in[DIMP + k] = refc (e, v, k);
  for (int k = DIM; k < DIMP; k++) in[k] = 0, in[DIMP + k] = 0;
  out[2 * DIM] = -5;
  s.element_get_reference_coords (CEL (&e), in, 2, out);
  s.element_get_vertex_reference_coords (CEL (&e), v, c);
  s.element_get_vertex_reference_coords (CEL (&e), 0, o);
  for (int k = 0; k < DIM; k++) {
    VP_CHECK (out[DIM + k] == c[k], "the corners of the reference element are mapped to the corners of the element");
    VP_CHECK (out[k] * 2 == c[k] + o[k], "points of the reference element are mapped affinely");
  }
  VP_CHECK (out[2 * DIM] == -5, "nothing is written behind the points");
  VP_CHECK (same (e, e0), "element unchanged");
  vp_witness ("points");
#endif
}
