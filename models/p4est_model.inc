/* Functional models of the p4est quadrant primitives that t8code links against (libp4est ships as a binary only, so its
 * code cannot be encoded).  Written against the documented contracts in p4est_bits.h; models/validate.py compares every
 * function with the installed libp4est on boundary and random quadrants, and all witnesses and counterexamples are
 * replayed against the installed library. */
#ifndef P4_TO_P8
#include <p4est.h>
#include <p4est_bits.h>
#include <p4est_connectivity.h>
#else
#include <p8est.h>
#include <p8est_bits.h>
#include <p8est_connectivity.h>
#endif

#ifndef P4_TO_P8
const int p4est_face_corners[4][2] = { { 0, 2 }, { 1, 3 }, { 0, 1 }, { 2, 3 } };
const int p4est_face_dual[4] = { 1, 0, 3, 2 };
const int p4est_corner_faces[4][2] = { { 0, 2 }, { 1, 2 }, { 0, 3 }, { 1, 3 } };
#else
const int p8est_face_corners[6][4] = { { 0, 2, 4, 6 }, { 1, 3, 5, 7 }, { 0, 1, 4, 5 }, { 2, 3, 6, 7 }, { 0, 1, 2, 3 }, { 4, 5, 6, 7 } };
const int p8est_face_dual[6] = { 1, 0, 3, 2, 5, 4 };
const int p8est_corner_faces[8][3]
  = { { 0, 2, 4 }, { 1, 2, 4 }, { 0, 3, 4 }, { 1, 3, 4 }, { 0, 2, 5 }, { 1, 2, 5 }, { 0, 3, 5 }, { 1, 3, 5 } };
#endif

int p4est_quadrant_is_equal (const p4est_quadrant_t *q1, const p4est_quadrant_t *q2)
{
  return q1->level == q2->level && q1->x == q2->x && q1->y == q2->y
#ifdef P4_TO_P8
         && q1->z == q2->z
#endif
    ;
}

int p4est_quadrant_compare (const void *v1, const void *v2)
{
  const p4est_quadrant_t *q1 = (const p4est_quadrant_t *) v1, *q2 = (const p4est_quadrant_t *) v2;
  uint32_t ex = (uint32_t) q1->x ^ (uint32_t) q2->x, ey = (uint32_t) q1->y ^ (uint32_t) q2->y, eo = ex | ey;
#ifdef P4_TO_P8
  uint32_t ez = (uint32_t) q1->z ^ (uint32_t) q2->z;
  eo |= ez;
#endif
  if (!eo) return (int) q1->level - (int) q2->level;
  int64_t a, b;
#ifdef P4_TO_P8
  if (!(ez < (ex | ey) && ez < ((ex | ey) ^ ez))) a = q1->z, b = q2->z;
  else
#endif
    if (!(ey < ex && ey < (ex ^ ey))) a = q1->y, b = q2->y;
  else a = q1->x, b = q2->x;
  return a == b ? 0 : ((uint64_t) (a + (a >= 0 ? 0 : ((int64_t) 1 << 32))) < (uint64_t) (b + (b >= 0 ? 0 : ((int64_t) 1 << 32))) ? -1 : 1);
}

int p4est_quadrant_ancestor_id (const p4est_quadrant_t *q, int level)
{
  if (level == 0) return 0;
  int id = 0;
  id |= ((q->x & P4EST_QUADRANT_LEN (level)) ? 1 : 0);
  id |= ((q->y & P4EST_QUADRANT_LEN (level)) ? 2 : 0);
#ifdef P4_TO_P8
  id |= ((q->z & P4EST_QUADRANT_LEN (level)) ? 4 : 0);
#endif
  return id;
}

int p4est_quadrant_child_id (const p4est_quadrant_t *q) { return p4est_quadrant_ancestor_id (q, (int) q->level); }

int p4est_quadrant_is_inside_root (const p4est_quadrant_t *q)
{
  return q->x >= 0 && q->x < P4EST_ROOT_LEN && q->y >= 0 && q->y < P4EST_ROOT_LEN
#ifdef P4_TO_P8
         && q->z >= 0 && q->z < P4EST_ROOT_LEN
#endif
    ;
}

void p4est_quadrant_parent (const p4est_quadrant_t *q, p4est_quadrant_t *r)
{
  r->x = q->x & ~P4EST_QUADRANT_LEN (q->level);
  r->y = q->y & ~P4EST_QUADRANT_LEN (q->level);
#ifdef P4_TO_P8
  r->z = q->z & ~P4EST_QUADRANT_LEN (q->level);
#endif
  r->level = (int8_t) (q->level - 1);
}

void p4est_quadrant_sibling (const p4est_quadrant_t *q, p4est_quadrant_t *r, int sibling_id)
{
  const int32_t shift = P4EST_QUADRANT_LEN (q->level);
  r->x = (sibling_id & 1) ? (q->x | shift) : (q->x & ~shift);
  r->y = (sibling_id & 2) ? (q->y | shift) : (q->y & ~shift);
#ifdef P4_TO_P8
  r->z = (sibling_id & 4) ? (q->z | shift) : (q->z & ~shift);
#endif
  r->level = q->level;
}

int p4est_quadrant_is_parent (const p4est_quadrant_t *q, const p4est_quadrant_t *r)
{
  const int32_t m = ~P4EST_QUADRANT_LEN (r->level);
  return q->level + 1 == r->level && q->x == (r->x & m) && q->y == (r->y & m)
#ifdef P4_TO_P8
         && q->z == (r->z & m)
#endif
    ;
}

void p4est_quadrant_face_neighbor (const p4est_quadrant_t *q, int face, p4est_quadrant_t *r)
{
  const int32_t qh = P4EST_QUADRANT_LEN (q->level);
  r->x = q->x + ((face == 0) ? -qh : (face == 1) ? qh : 0);
  r->y = q->y + ((face == 2) ? -qh : (face == 3) ? qh : 0);
#ifdef P4_TO_P8
  r->z = q->z + ((face == 4) ? -qh : (face == 5) ? qh : 0);
#endif
  r->level = q->level;
}

void p4est_quadrant_childrenpv (const p4est_quadrant_t *q, p4est_quadrant_t *c[])
{
  const int level = q->level + 1;
  const int32_t x = q->x, y = q->y, qh = P4EST_QUADRANT_LEN (level);
#ifdef P4_TO_P8
  const int32_t z = q->z;
#endif
  for (int i = 0; i < P4EST_CHILDREN; i++) {
    c[i]->x = x | ((i & 1) ? qh : 0);
    c[i]->y = y | ((i & 2) ? qh : 0);
#ifdef P4_TO_P8
    c[i]->z = z | ((i & 4) ? qh : 0);
#endif
    c[i]->level = (int8_t) level;
  }
}

int p4est_quadrant_is_familypv (p4est_quadrant_t *q[])
{
  const int level = q[0]->level;
  if (level == 0) return 0;
  const int32_t h = P4EST_QUADRANT_LEN (level);
  int ok = 1;
  for (int i = 0; i < P4EST_CHILDREN; i++) {
    ok &= q[i]->level == level && q[i]->x == q[0]->x + ((i & 1) ? h : 0) && q[i]->y == q[0]->y + ((i & 2) ? h : 0)
#ifdef P4_TO_P8
          && q[i]->z == q[0]->z + ((i & 4) ? h : 0)
#endif
      ;
  }
  return ok && p4est_quadrant_child_id (q[0]) == 0;
}

uint64_t p4est_quadrant_linear_id (const p4est_quadrant_t *q, int level)
{
  uint64_t id = 0, x = (uint64_t) (int64_t) (q->x >> (P4EST_MAXLEVEL - level)), y = (uint64_t) (int64_t) (q->y >> (P4EST_MAXLEVEL - level));
#ifdef P4_TO_P8
  uint64_t z = (uint64_t) (int64_t) (q->z >> (P4EST_MAXLEVEL - level));
#endif
  for (int i = 0; i < level + 2; ++i) {
    id |= (x & ((uint64_t) 1 << i)) << ((P4EST_DIM - 1) * i);
    id |= (y & ((uint64_t) 1 << i)) << ((P4EST_DIM - 1) * i + 1);
#ifdef P4_TO_P8
    id |= (z & ((uint64_t) 1 << i)) << ((P4EST_DIM - 1) * i + 2);
#endif
  }
  return id;
}

void p4est_quadrant_set_morton (p4est_quadrant_t *q, int level, uint64_t id)
{
  uint32_t x = 0, y = 0, z = 0;
  for (int i = 0; i < level + 2; ++i) {
    x |= (uint32_t) ((id & (1ULL << (P4EST_DIM * i))) >> ((P4EST_DIM - 1) * i));
    y |= (uint32_t) ((id & (1ULL << (P4EST_DIM * i + 1))) >> ((P4EST_DIM - 1) * i + 1));
#ifdef P4_TO_P8
    z |= (uint32_t) ((id & (1ULL << (P4EST_DIM * i + 2))) >> ((P4EST_DIM - 1) * i + 2));
#endif
  }
  q->level = (int8_t) level;
  q->x = (int32_t) (x << (P4EST_MAXLEVEL - level));
  q->y = (int32_t) (y << (P4EST_MAXLEVEL - level));
#ifdef P4_TO_P8
  q->z = (int32_t) (z << (P4EST_MAXLEVEL - level));
#endif
}

void p4est_quadrant_successor (const p4est_quadrant_t *q, p4est_quadrant_t *r)
{
  int level = q->level, cid;
  while ((cid = p4est_quadrant_ancestor_id (q, level)) == P4EST_CHILDREN - 1 && level > 1) level--;
  cid++;
  if (level < q->level) {
    const int32_t sh = P4EST_QUADRANT_LEN (level), la = P4EST_QUADRANT_LEN (level - 1);
    r->x = (q->x & ~(la - 1)) + ((cid & 1) ? sh : 0);
    r->y = (q->y & ~(la - 1)) + ((cid & 2) ? sh : 0);
#ifdef P4_TO_P8
    r->z = (q->z & ~(la - 1)) + ((cid & 4) ? sh : 0);
#endif
    r->level = q->level;
  }
  else p4est_quadrant_sibling (q, r, cid);
}

void p4est_quadrant_first_descendant (const p4est_quadrant_t *q, p4est_quadrant_t *fd, int level)
{
  fd->x = q->x; fd->y = q->y;
#ifdef P4_TO_P8
  fd->z = q->z;
#endif
  fd->level = (int8_t) level;
}

void p4est_quadrant_last_descendant (const p4est_quadrant_t *q, p4est_quadrant_t *ld, int level)
{
  const int32_t s = P4EST_QUADRANT_LEN (q->level) - P4EST_QUADRANT_LEN (level);
  ld->x = q->x + s; ld->y = q->y + s;
#ifdef P4_TO_P8
  ld->z = q->z + s;
#endif
  ld->level = (int8_t) level;
}

void p4est_quadrant_corner_descendant (const p4est_quadrant_t *q, p4est_quadrant_t *r, int c, int level)
{
  const int32_t s = P4EST_QUADRANT_LEN (q->level) - P4EST_QUADRANT_LEN (level);
  r->x = q->x + ((c & 1) ? s : 0);
  r->y = q->y + (((c >> 1) & 1) ? s : 0);
#ifdef P4_TO_P8
  r->z = q->z + ((c >> 2) ? s : 0);
#endif
  r->level = (int8_t) level;
}

void p4est_nearest_common_ancestor (const p4est_quadrant_t *q1, const p4est_quadrant_t *q2, p4est_quadrant_t *r)
{
  uint32_t ex = (uint32_t) (q1->x ^ q2->x) | (uint32_t) (q1->y ^ q2->y);
#ifdef P4_TO_P8
  ex |= (uint32_t) (q1->z ^ q2->z);
#endif
  int ml = 0;
  for (int i = 0; i < 32; i++) if (ex >> i) ml = i + 1;
  const int32_t m = ~(int32_t) (((uint32_t) 1 << ml) - 1);
  r->x = q1->x & m; r->y = q1->y & m;
#ifdef P4_TO_P8
  r->z = q1->z & m;
#endif
  int l = P4EST_MAXLEVEL - ml, lm = q1->level < q2->level ? q1->level : q2->level;
  r->level = (int8_t) (l < lm ? l : lm);
}

int p4est_quadrant_is_extended (const p4est_quadrant_t *q)
{
  const int32_t h = P4EST_QUADRANT_LEN (q->level) - 1;
  return q->level >= 0 && q->level <= P4EST_QMAXLEVEL && !(q->x & h) && !(q->y & h)
#ifdef P4_TO_P8
         && !(q->z & h)
#endif
    ;
}
