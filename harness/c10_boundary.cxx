/* C10: boundary faces as elements of the face's own class, extrusion back into the tree, change of the face's coordinate system.
 * PART 0: boundary and extrude (case 0: level, case 1: face of the element)
 * PART 1: extrude then boundary (case 0: level, case 1: root face)
 * PART 2: transform (case 0: level, case 1: orientation, case 2: sign) */
#include "geom.hxx"
#include <t8_schemes/t8_default/t8_default_vertex/t8_dvertex.h>
#include <t8_schemes/t8_default/t8_default_line/t8_dline.h>
#include <t8_schemes/t8_default/t8_default_tri/t8_dtri.h>
#include <p4est.h>
#if SCH >= 9
#include <t8_schemes/t8_standalone/t8_standalone_elements.hxx>
typedef t8_standalone_element<T8_ECLASS_VERTEX> FV;
typedef t8_standalone_element<T8_ECLASS_LINE> FL;
typedef t8_standalone_element<T8_ECLASS_QUAD> FQ;
#define FLX(l) ((l).coords[0])
#define FQX(q) ((q).coords[0])
#define FQY(q) ((q).coords[1])
#else
typedef t8_dvertex_t FV;
typedef t8_dline_t FL;
typedef p4est_quadrant_t FQ;
#define FLX(l) ((l).x)
#define FQX(q) ((q).x)
#define FQY(q) ((q).y)
#endif
/* a face element of any class; kind: number of corners */
struct FE { union { FV v; FL l; FQ q; t8_dtri_t t; }; };
static inline int kind (int rf)
{
#if DIM == 1
  return 1;
#elif DIM == 2
  return 2;
#elif SCH == 4 || SCH == 11
  return 4;
#elif SCH == 5
  return 3;
#elif SCH == 6
  return rf < 3 ? 4 : 3;
#else
  return rf < 4 ? 3 : 4;
#endif
}
static inline int flevel (const FE &b, int k) { return k == 1 ? b.v.level : k == 2 ? b.l.level : k == 4 ? b.q.level : b.t.level; }
static inline bool fvalid (const FE &b, int k)
{
  if (k == 1) return true;
  if (k == 2) return FLX (b.l) >= 0 && FLX (b.l) < (1 << 30) && !(FLX (b.l) & ((1 << (30 - b.l.level)) - 1));
  if (k == 4) return FQX (b.q) >= 0 && FQX (b.q) < (1 << 30) && FQY (b.q) >= 0 && FQY (b.q) < (1 << 30) && !((FQX (b.q) | FQY (b.q)) & ((1 << (30 - b.q.level)) - 1));
  return (b.t.type == 0 || b.t.type == 1) && b.t.y >= 0 && b.t.y <= b.t.x && b.t.x < (1 << 29) && !((b.t.x | b.t.y) & ((1 << (29 - b.t.level)) - 1)) && (b.t.x != b.t.y || b.t.type == 0);
}
static inline bool fsame (const FE &a, const FE &b, int k)
{
  if (k == 1) return a.v.level == b.v.level;
  if (k == 2) return a.l.level == b.l.level && FLX (a.l) == FLX (b.l);
  if (k == 4) return a.q.level == b.q.level && FQX (a.q) == FQX (b.q) && FQY (a.q) == FQY (b.q);
  return a.t.level == b.t.level && a.t.x == b.t.x && a.t.y == b.t.y && a.t.type == b.t.type;
}
static inline void fjunk (FE &b, int k)
{
  const int l = vp_u64 () & 15;
  const int32_t x = (int32_t) vp_u64 (), y = (int32_t) vp_u64 ();
  if (k == 1) b.v.level = l;
  else if (k == 2) b.l.level = l, FLX (b.l) = x;
  else if (k == 4) {
#if SCH < 9
    b.q.pad8 = 0; b.q.pad16 = 0;
#endif
    b.q.level = l, FQX (b.q) = x, FQY (b.q) = y;
  }
  else b.t.level = l, b.t.x = x, b.t.y = y, b.t.type = vp_u64 () & 1;
}
static inline void fany (FE &b, int k, int l)
{
  fjunk (b, k);
  if (k == 1) b.v.level = l;
  else if (k == 2) b.l.level = l;
  else if (k == 4) b.q.level = l;
  else b.t.level = l;
  vp_assume (fvalid (b, k));
}
/* corner v of the face element in the face's coordinates of length 2^30 */
static inline void fcorner (const FE &b, int k, int v, ic &x, ic &y)
{
  x = y = 0;
  if (k == 2) x = FLX (b.l) + (v ? 1u << (30 - b.l.level) : 0);
  else if (k == 4) {
    const ic h = 1u << (30 - b.q.level);
    x = FQX (b.q) + (v & 1 ? h : 0);
    y = FQY (b.q) + (v & 2 ? h : 0);
  }
  else if (k == 3) {
    const ic h = 1u << (30 - b.t.level);
    x = 2u * b.t.x; y = 2u * b.t.y;
    if (v == 1) { if (b.t.type == 0) x += h; else y += h; }
    if (v == 2) x += h, y += h;
  }
}
/* corner v of the root, with every coordinate scaled to 0 or 2^30 */
static inline void rootv (int v, ic c[3])
{
  E r;
#if SCH == 7
  r.pyramid.type = 6; r.switch_shape_at_level = -1;
  r.pyramid.x = r.pyramid.y = r.pyramid.z = 0;
#elif SCH == 6
  r.tri.x = r.tri.y = r.tri.type = r.line.x = 0;
#elif SCH == 5
  r.x = r.y = r.z = r.type = 0;
#elif SCH == 3
  r.x = r.y = r.type = 0;
#elif SCH >= 9
  for (int i = 0; i < DIM; i++) r.coords[i] = 0;
#else
  r.x = 0;
#if DIM > 1
  r.y = 0;
#endif
#if DIM > 2
  r.z = 0;
#endif
#endif
  setlvl (r, 0);
  vertex (r, v, c);
  for (int i = 0; i < 3; i++) c[i] = c[i] ? 1u << 30 : 0;
}
/* scale a coordinate of an element's corner to a root of length 2^30 */
static inline ic up (ic x, int k)
{
#if SCH == 3
  return x << 1;
#elif SCH == 5 || SCH == 7
  return x << 9;
#elif SCH == 6
  return k < 2 ? x << 1 : x;
#elif SCH == 11
  return x << 9;
#else
  return x;
#endif
}
/* The root face's corners in the order of the face's own class give the coordinate system of the face:
 * first corner + x (second - first) + y (third - first) (quadrilateral) or y (third - second) (triangle). */
static inline bool covers (const E &e, int f, int rf, const FE &b)
{
  const int k = kind (rf);
  E root = e;
#if SCH == 7
  root.pyramid.type = 6;
#endif
  ic o[3], p[3], q[3];
  rootv (face_v (root, rf, 0), o);
  for (int i = 0; i < 3; i++) p[i] = q[i] = o[i];
  if (k > 1) rootv (face_v (root, rf, 1), p);
  if (k > 2) rootv (face_v (root, rf, 2), q);
  bool all = true;
  for (int v = 0; v < 4; v++) {
    if (v >= k) continue;
    ic x, y, c[3];
    fcorner (b, k, v, x, y);
    for (int i = 0; i < 3; i++) {
      c[i] = o[i];
      if (p[i] != o[i]) c[i] += p[i] > o[i] ? x : -x;
      const ic base = k == 3 ? p[i] : o[i];
      if (k > 2 && q[i] != base) c[i] += q[i] > base ? y : -y;
    }
    bool some = false;
    for (int m = 0; m < 4; m++) {
      if (m >= face_nv (e, f)) continue;
      ic d[3];
      vertex (e, face_v (e, f, m), d);
      some = some || (c[0] == up (d[0], 0) && c[1] == up (d[1], 1) && c[2] == up (d[2], 2));
    }
    all = all && some;
  }
  return all && face_nv (e, f) == k;
}
extern "C" void vp_harness (void)
{
  Sch &s = sch ();
#if PART == 0
  const int f = vp_case (1);
  int lo, hi; lvl_range (0, MAXL, lo, hi);
  E e, g;
  prim_at (e, lo, hi);
  vp_assume (f < nface (e));
  const int rf = root_face (e, f);
#ifdef RCASE
  vp_assume (rf == vp_case (RCASE));
#else
  vp_assume (rf >= 0);
#endif
  const int k = kind (rf);
  const E e0 = e;
  FE b;
  fjunk (b, k);
  s.element_get_boundary_face (CEL (&e), f, EL (&b), NULL);
  VP_CHECK (same (e, e0), "element unchanged");
  VP_CHECK (flevel (b, k) == LVL (e) && fvalid (b, k), "the boundary face is an element of the face's class at the same level");
  VP_CHECK (covers (e, f, rf, b), "the boundary face occupies the face of the element in the coordinates of the root face");
  junk (g);
  const FE b0 = b;
  const int h = s.element_extrude_face (CEL (&b), EL (&g), rf, NULL);
  VP_CHECK (fsame (b, b0, k), "face unchanged");
  VP_CHECK (same (g, e), "extruding the boundary face gives the element back");
  VP_CHECK (h == f, "extruding the boundary face gives the face number back");
  vp_witness ("boundary");
#elif PART == 1
  const int rf = vp_case (1), k = kind (rf);
  FE b, c;
  const int l = vp_case (0) < 0 ? (int) vp_in (0, MAXL) : vp_case (0);
  fany (b, k, l);
  E e;
  junk (e);
  const int f = s.element_extrude_face (CEL (&b), EL (&e), rf, NULL);
#if SCH == 7
  /* the level of the shape switch is checked by PART 0 (extrusion gives the whole element back) */
  vp_assume (e.pyramid.type >= 6 || inv (e));
#endif
  VP_CHECK (inv (e) && LVL (e) == l && f >= 0 && f < nface (e) && root_face (e, f) == rf, "extruding gives an element of the tree at the root face");
  VP_CHECK (covers (e, f, rf, b), "the extruded element's face is the given face");
  fjunk (c, k);
  s.element_get_boundary_face (CEL (&e), f, EL (&c), NULL);
  VP_CHECK (fsame (b, c, k), "the boundary face of the extruded element is the given face");
  vp_witness ("extrude");
#elif PART == 2
  const int o = vp_case (1), sg = vp_case (2);
  int lo, hi; lvl_range (0, MAXL, lo, hi);
  E e, t, u;
  prim_at (e, lo, hi);
  const E e0 = e;
  junk (t); junk (u);
  s.element_transform_face (CEL (&e), EL (&t), o, sg, 1);
  VP_CHECK (same (e, e0), "element unchanged");
  VP_CHECK (inv (t) && LVL (t) == LVL (e), "the image is an element of the face at the same level");
  s.element_transform_face (CEL (&t), EL (&u), o, sg, 0);
  VP_CHECK (same (u, e), "the transformation from the bigger face inverts the one from the smaller face");
  E a = e;
  s.element_transform_face (CEL (&a), EL (&a), o, sg, 1);
  VP_CHECK (same (a, t), "transformation in place");
  s.element_transform_face (CEL (&a), EL (&a), o, sg, 0);
  VP_CHECK (same (a, e), "inverse transformation in place");
#if SCH == 3
  const ic R = 1u << 29;
  const int n = 3, cyc[3] = { 0, 1, 2 };
#elif DIM == 2
#if SCH >= 9
  const ic R = 1u << MAXL;
#else
  const ic R = 1u << 30;
#endif
  const int n = 4, cyc[4] = { 0, 1, 3, 2 };
#else
  const ic R = 1u << 30;
  const int n = 2, cyc[2] = { 0, 1 };
#endif
  int i0 = 0;
  for (int i = 0; i < n; i++) if (cyc[i] == o) i0 = i;
  const int nx = cyc[(i0 + 1) % n], pv = cyc[(i0 + n - 1) % n];
  /* images of the root's corners 0, 1 and 2 */
  const int m0 = o, m1 = sg && DIM == 2 ? pv : nx, m2 = sg && DIM == 2 ? nx : pv;
  auto rc = [&] (int v, int d) -> ic {
#if SCH == 3
    return d == 0 ? (v ? R : 0) : (v == 2 ? R : 0);
#else
    return v >> d & 1 ? R : 0;
#endif
  };
  bool all = true;
  for (int v = 0; v < (1 << DIM); v++) {
    if (v >= nvert (e)) continue;
    ic c[3], im[2];
    vertex (e, v, c);
    for (int d = 0; d < DIM; d++) {
      const ic a0 = rc (m0, d), a1 = rc (m1, d), a2 = SCH == 1 || SCH == 9 ? 0 : rc (m2, d), base = SCH == 3 ? a1 : a0;
      im[d] = a0;
      if (a1 != a0) im[d] += a1 > a0 ? c[0] : -c[0];
      if (DIM == 2 && a2 != base) im[d] += a2 > base ? c[1] : -c[1];
    }
    bool some = false;
    for (int w = 0; w < (1 << DIM); w++) {
      if (w >= nvert (t)) continue;
      ic q[3];
      vertex (t, w, q);
      some = some || (q[0] == im[0] && (DIM == 1 || q[1] == im[1]));
    }
    all = all && some;
  }
  VP_CHECK (all, "the image of the smaller face's first corner is the corner that the orientation names");
  vp_witness ("transform");
#endif
}
