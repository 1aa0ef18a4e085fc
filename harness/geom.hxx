/* Geometry of the elements in integer coordinates, as the specification has it: vertices, faces, planes of the root. */
#pragma once
#include "schemes.hxx"
typedef uint32_t ic; /* all coordinates are at most 2^30 */
#if SCH == 0 || SCH == 8
#define MAXF 0
#elif SCH == 1 || SCH == 9
#define MAXF 2
#elif SCH == 3
#define MAXF 3
#elif SCH == 2 || SCH == 10 || SCH == 5
#define MAXF 4
#elif SCH == 6 || SCH == 7
#define MAXF 5
#else
#define MAXF 6
#endif
#define CUBE (SCH == 1 || SCH == 2 || SCH == 4 || SCH >= 9)
#if SCH == 3 || SCH == 6
static inline void tri_vertex (const t8_dtri_t &t, int v, ic c[3])
{
  const ic h = 1u << (29 - t.level);
  c[0] = t.x; c[1] = t.y; c[2] = 0;
  if (v == 1) c[t.type == 0 ? 0 : 1] += h;
  if (v == 2) c[0] += h, c[1] += h;
}
#endif
#if SCH == 5 || SCH == 7
static inline void tet_vertex (const t8_dtet_t &t, int v, ic c[3])
{
  const ic h = 1u << (21 - t.level);
  c[0] = t.x; c[1] = t.y; c[2] = t.z;
  const int i = t.type / 2, j = (i + ((t.type & 1) == 0 ? 2 : 1)) % 3;
  for (int k = 0; k < 3; k++) {
    if (v == 3 || (v >= 1 && k == i) || (v == 2 && k == j)) c[k] += h;
  }
}
#endif
static inline void vertex (const E &e, int v, ic c[3])
{
#if CUBE
#if SCH >= 9
  c[0] = e.coords[0]; c[1] = c[2] = 0;
#if DIM > 1
  c[1] = e.coords[1];
#endif
#if DIM > 2
  c[2] = e.coords[2];
#endif
  const ic h = 1u << (MAXL - e.level);
#else
  const ic h = 1u << (30 - e.level);
  c[0] = e.x; c[1] = c[2] = 0;
#if DIM > 1
  c[1] = e.y;
#endif
#if DIM > 2
  c[2] = e.z;
#endif
#endif
  for (int k = 0; k < DIM; k++) if (v >> k & 1) c[k] += h;
#elif SCH == 3
  tri_vertex (e, v, c);
#elif SCH == 5
  tet_vertex (e, v, c);
#elif SCH == 6
  tri_vertex (e.tri, v % 3, c);
  c[2] = e.line.x + (v / 3) * (1u << (30 - e.line.level));
#elif SCH == 7
  const t8_dtet_t &p = e.pyramid;
  if (p.type < 6) { tet_vertex (p, v, c); return; }
  const ic h = 1u << (21 - p.level);
  c[0] = p.x; c[1] = p.y; c[2] = p.z;
  if (v < 4) {
    if (v & 1) c[0] += h;
    if (v & 2) c[1] += h;
    if (p.type == 7) c[2] += h;
  }
  else if (p.type == 6) c[0] += h, c[1] += h, c[2] += h;
#endif
}
static inline int nvert (const E &e)
{
#if CUBE
  return 1 << DIM;
#elif SCH == 3
  return 3;
#elif SCH == 5
  return 4;
#elif SCH == 6
  return 6;
#elif SCH == 7
  return e.pyramid.type < 6 ? 4 : 5;
#else
  return 1;
#endif
}
static inline int nface (const E &e)
{
#if SCH == 7
  return e.pyramid.type < 6 ? 4 : 5;
#else
  return MAXF;
#endif
}
/* corners of face f of the element, and their number */
static inline int face_nv (const E &e, int f)
{
#if CUBE
  return 1 << (DIM - 1);
#elif SCH == 3
  return 2;
#elif SCH == 5
  return 3;
#elif SCH == 6
  return f < 3 ? 4 : 3;
#elif SCH == 7
  return e.pyramid.type >= 6 && f == 4 ? 4 : 3;
#else
  return 0;
#endif
}
static inline int face_v (const E &e, int f, int k)
{
#if CUBE
  /* insert the bit of the face into the corner number */
  const int d = f / 2, low = k & ((1 << d) - 1);
  return ((k >> d) << (d + 1)) | ((f & 1) << d) | low;
#elif SCH == 3 || SCH == 5
  return k < f ? k : k + 1;
#elif SCH == 6
  static const signed char t[5][4] = { { 1, 2, 4, 5 }, { 0, 2, 3, 5 }, { 0, 1, 3, 4 }, { 0, 1, 2, -1 }, { 3, 4, 5, -1 } };
  return t[f][k];
#elif SCH == 7
  static const signed char t[2][5][4] = { { { 0, 2, 4, -1 }, { 1, 3, 4, -1 }, { 0, 1, 4, -1 }, { 2, 3, 4, -1 }, { 0, 1, 2, 3 } },
                                          { { 2, 3, 4, -1 }, { 0, 1, 4, -1 }, { 1, 3, 4, -1 }, { 0, 2, 4, -1 }, { 0, 1, 2, 3 } } };
  if (e.pyramid.type < 6) return k < f ? k : k + 1;
  return t[e.pyramid.type - 6][f][k];
#else
  return -1;
#endif
}
/* does a point lie on the plane of root face P? */
static inline bool on_root_face (int P, const ic c[3])
{
#if CUBE
#if SCH >= 9
  const ic R = 1u << MAXL;
#else
  const ic R = 1u << 30;
#endif
  return c[P / 2] == (P & 1 ? R : 0);
#elif SCH == 3
  return P == 0 ? c[0] == 1u << 29 : P == 1 ? c[0] == c[1] : c[1] == 0;
#elif SCH == 5
  return P == 0 ? c[0] == 1u << 21 : P == 1 ? c[0] == c[2] : P == 2 ? c[1] == c[2] : c[1] == 0;
#elif SCH == 6
  return P == 0 ? c[0] == 1u << 29 : P == 1 ? c[0] == c[1] : P == 2 ? c[1] == 0 : P == 3 ? c[2] == 0 : c[2] == 1u << 30;
#elif SCH == 7
  return P == 0 ? c[0] == c[2] : P == 1 ? c[0] == 1u << 21 : P == 2 ? c[1] == c[2] : P == 3 ? c[1] == 1u << 21 : c[2] == 0;
#else
  return false;
#endif
}
/* the root face that contains face f of e, or -1 */
static inline int root_face (const E &e, int f)
{
  int r = -1;
  for (int P = 0; P < MAXF; P++) {
    bool on = true;
    for (int k = 0; k < 4; k++) {
      if (k >= face_nv (e, f)) continue;
      ic c[3];
      vertex (e, face_v (e, f, k), c);
      on = on && on_root_face (P, c);
    }
    if (on) r = P;
  }
  return r;
}
/* do the faces have the same corners? */
static inline bool same_face (const E &a, int f, const E &b, int g)
{
  if (face_nv (a, f) != face_nv (b, g)) return false;
  bool all = true;
  for (int k = 0; k < 4; k++) {
    if (k >= face_nv (a, f)) continue;
    ic c[3];
    vertex (a, face_v (a, f, k), c);
    bool some = false;
    for (int m = 0; m < 4; m++) {
      if (m >= face_nv (b, g)) continue;
      ic d[3];
      vertex (b, face_v (b, g, m), d);
      some = some || (c[0] == d[0] && c[1] == d[1] && c[2] == d[2]);
    }
    all = all && some;
  }
  return all;
}
/* does face f of the child c lie in face F of its parent p? every corner is then the middle of two corners of F */
static inline bool face_in (const E &c, int f, const E &p, int F)
{
  bool all = true;
  for (int k = 0; k < 4; k++) {
    if (k >= face_nv (c, f)) continue;
    ic v[3];
    vertex (c, face_v (c, f, k), v);
    bool some = false;
    for (int i = 0; i < 4; i++)
      for (int j = i; j < 4; j++) {
        if (i >= face_nv (p, F) || j >= face_nv (p, F)) continue;
        ic a[3], b[3];
        vertex (p, face_v (p, F, i), a);
        vertex (p, face_v (p, F, j), b);
        some = some || (v[0] * 2 == a[0] + b[0] && v[1] * 2 == a[1] + b[1] && v[2] * 2 == a[2] + b[2]);
      }
    all = all && some;
  }
  return all;
}
static inline int spec_parent_face (const E &c, int f, const E &p)
{
  int r = -1;
  for (int F = 0; F < MAXF; F++) if (F < nface (p) && face_in (c, f, p, F)) r = F;
  return r;
}
