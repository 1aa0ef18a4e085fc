/* Differential validation of p4est_model/p8est_model/sc_model against the installed libp4est/libsc. */
#include <p4est.h>
#include <p4est_bits.h>
#include <p8est.h>
#include <p8est_bits.h>
#include <sc_functions.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <random>
#define M(f) mod_##f
extern "C" {
#define DECLS(Q, P, DIMC) \
int M(P##_quadrant_is_equal)(const Q*,const Q*); int M(P##_quadrant_compare)(const void*,const void*); int M(P##_quadrant_ancestor_id)(const Q*,int); \
int M(P##_quadrant_child_id)(const Q*); int M(P##_quadrant_is_inside_root)(const Q*); void M(P##_quadrant_parent)(const Q*,Q*); void M(P##_quadrant_sibling)(const Q*,Q*,int); \
int M(P##_quadrant_is_parent)(const Q*,const Q*); void M(P##_quadrant_face_neighbor)(const Q*,int,Q*); void M(P##_quadrant_childrenpv)(const Q*,Q**); \
int M(P##_quadrant_is_familypv)(Q**); uint64_t M(P##_quadrant_linear_id)(const Q*,int); void M(P##_quadrant_set_morton)(Q*,int,uint64_t); void M(P##_quadrant_successor)(const Q*,Q*); \
void M(P##_quadrant_first_descendant)(const Q*,Q*,int); void M(P##_quadrant_last_descendant)(const Q*,Q*,int); void M(P##_quadrant_corner_descendant)(const Q*,Q*,int,int); \
void M(P##_nearest_common_ancestor)(const Q*,const Q*,Q*); int M(P##_quadrant_is_extended)(const Q*);
DECLS (p4est_quadrant_t, p4est, 4) DECLS (p8est_quadrant_t, p8est, 8)
extern const int M(p4est_face_corners)[4][2], M(p4est_face_dual)[4], M(p4est_corner_faces)[4][2], M(p8est_face_corners)[6][4], M(p8est_face_dual)[6], M(p8est_corner_faces)[8][3];
uint64_t M(sc_intpow64u)(uint64_t,int); int M(sc_intpow)(int,int);
}
static std::mt19937_64 R (7); static long bad = 0, n = 0;
#define CK(c) do { n++; if (!(c)) { bad++; if (bad < 20) printf ("MISMATCH line %d: %s\n", __LINE__, #c); } } while (0)
static int sgn (int x) { return (x > 0) - (x < 0); }
template <class Q> int32_t &zc (Q &q);
static bool eq (const p4est_quadrant_t &a, const p4est_quadrant_t &b) { return a.x == b.x && a.y == b.y && a.level == b.level; }
static bool eq (const p8est_quadrant_t &a, const p8est_quadrant_t &b) { return a.x == b.x && a.y == b.y && a.z == b.z && a.level == b.level; }
static void setz (p4est_quadrant_t &, int) {} static void setz (p8est_quadrant_t &q, int z) { q.z = z; }
static int rc (int l) { int64_t nb = 1LL << l; int64_t k; switch (R () % 4) { case 0: k = 0; break; case 1: k = nb - 1; break; case 2: k = nb / 2; break; default: k = R () % nb; } if (k >= nb) k = 0; return (int) (k << (30 - l)); }
template <class Q> void rnd (Q &q, int maxl) { memset (&q, 0, sizeof q); int l = R () % (maxl + 1); q.level = l; q.x = rc (l); q.y = rc (l); setz (q, rc (l)); }
#define TEST(Q, P, NC, NF, D, MAXL) do { for (long it = 0; it < 200000; it++) { Q a, b, r, s; rnd (a, MAXL); rnd (b, MAXL); if (R () % 3 == 0) { b = a; if (R () % 2 && b.level < MAXL) { P##_quadrant_childrenpv; Q c[NC], *cp[NC]; for (int i = 0; i < NC; i++) { c[i] = a; cp[i] = c + i; } P##_quadrant_childrenpv (&a, cp); b = c[R () % NC]; } } \
  int L = a.level; memset (&r, 0, sizeof r); s = r; \
  CK (P##_quadrant_is_equal (&a, &b) == M(P##_quadrant_is_equal)(&a, &b)); CK (sgn (P##_quadrant_compare (&a, &b)) == sgn (M(P##_quadrant_compare)(&a, &b))); \
  int lv = R () % (L + 1), ld = L + R () % (MAXL - L + 1), ll = R () % (MAXL + 1); \
  CK (P##_quadrant_ancestor_id (&a, lv) == M(P##_quadrant_ancestor_id)(&a, lv)); CK (P##_quadrant_child_id (&a) == M(P##_quadrant_child_id)(&a)); \
  CK (P##_quadrant_linear_id (&a, ll) == M(P##_quadrant_linear_id)(&a, ll)); \
  uint64_t id = P##_quadrant_linear_id (&a, L); P##_quadrant_set_morton (&r, L, id); M(P##_quadrant_set_morton)(&s, L, id); CK (eq (r, s)); \
  if (L > 0) { P##_quadrant_parent (&a, &r); M(P##_quadrant_parent)(&a, &s); CK (eq (r, s)); int k = R () % NC; P##_quadrant_sibling (&a, &r, k); M(P##_quadrant_sibling)(&a, &s, k); CK (eq (r, s)); CK (P##_quadrant_is_parent (&b, &a) == M(P##_quadrant_is_parent)(&b, &a)); \
    if (id + 1 < (1ULL << (D * L))) { P##_quadrant_successor (&a, &r); M(P##_quadrant_successor)(&a, &s); CK (eq (r, s)); } } \
  int f = R () % NF; P##_quadrant_face_neighbor (&a, f, &r); M(P##_quadrant_face_neighbor)(&a, f, &s); CK (eq (r, s)); CK (P##_quadrant_is_inside_root (&r) == M(P##_quadrant_is_inside_root)(&r)); CK (P##_quadrant_is_extended (&r) == M(P##_quadrant_is_extended)(&r)); \
  P##_quadrant_first_descendant (&a, &r, ld); M(P##_quadrant_first_descendant)(&a, &s, ld); CK (eq (r, s)); P##_quadrant_last_descendant (&a, &r, ld); M(P##_quadrant_last_descendant)(&a, &s, ld); CK (eq (r, s)); \
  int c = R () % NC; P##_quadrant_corner_descendant (&a, &r, c, ld); M(P##_quadrant_corner_descendant)(&a, &s, c, ld); CK (eq (r, s)); \
  P##_nearest_common_ancestor (&a, &b, &r); M(P##_nearest_common_ancestor)(&a, &b, &s); CK (eq (r, s)); \
  if (L < MAXL) { Q c1[NC], c2[NC], *p1[NC], *p2[NC]; memset (c1, 0, sizeof c1); memset (c2, 0, sizeof c2); for (int i = 0; i < NC; i++) p1[i] = c1 + i, p2[i] = c2 + i; P##_quadrant_childrenpv (&a, p1); M(P##_quadrant_childrenpv)(&a, p2); for (int i = 0; i < NC; i++) CK (eq (c1[i], c2[i])); \
    int w = R () % 4; if (w == 1) c1[R () % NC] = a; if (w == 2) c1[R () % NC] = b; if (w == 3) { int i = R () % NC, j = R () % NC; Q t = c1[i]; c1[i] = c1[j]; c1[j] = t; } CK (P##_quadrant_is_familypv (p1) == M(P##_quadrant_is_familypv)(p1)); } \
 } CK (!memcmp (P##_face_corners, M(P##_face_corners), sizeof M(P##_face_corners))); CK (!memcmp (P##_face_dual, M(P##_face_dual), sizeof M(P##_face_dual))); CK (!memcmp (P##_corner_faces, M(P##_corner_faces), sizeof M(P##_corner_faces))); } while (0)
int main () {
  TEST (p4est_quadrant_t, p4est, 4, 4, 2, 29); TEST (p8est_quadrant_t, p8est, 8, 6, 3, 18);
  for (int b = 0; b < 12; b++) for (int e = 0; e < 32; e++) { CK (sc_intpow64u (b, e) == M(sc_intpow64u)(b, e)); if (e < 9) CK (sc_intpow (b, e) == M(sc_intpow)(b, e)); }
  printf ("validate: %ld comparisons, %ld mismatches\n", n, bad); return bad != 0;
}
