/* Scheme selection (-DSCH=n), symbolic elements and the reachability invariant of each element class.
 * The invariant is proved inductive (exactly the refinement tree) by property C01; every other scheme property
 * quantifies over all elements that satisfy it. */
#pragma once
#include "vp.h"
#include <new>
#include <t8.h>
#include <t8_eclass/t8_eclass.h>
#include <t8_element/t8_element.h>
#if SCH == 0
#include <t8_schemes/t8_default/t8_default_vertex/t8_default_vertex.hxx>
#elif SCH == 1
#include <t8_schemes/t8_default/t8_default_line/t8_default_line.hxx>
#include <t8_schemes/t8_default/t8_default_line/t8_dline.h>
#elif SCH == 2
#include <t8_schemes/t8_default/t8_default_quad/t8_default_quad.hxx>
#elif SCH == 3
#include <t8_schemes/t8_default/t8_default_tri/t8_default_tri.hxx>
#include <t8_schemes/t8_default/t8_default_tri/t8_dtri.h>
#elif SCH == 4
#include <t8_schemes/t8_default/t8_default_hex/t8_default_hex.hxx>
#elif SCH == 5
#include <t8_schemes/t8_default/t8_default_tet/t8_default_tet.hxx>
#include <t8_schemes/t8_default/t8_default_tet/t8_dtet.h>
#elif SCH == 6
#include <t8_schemes/t8_default/t8_default_prism/t8_default_prism.hxx>
#include <t8_schemes/t8_default/t8_default_prism/t8_dprism.h>
#elif SCH == 7
#include <t8_schemes/t8_default/t8_default_pyramid/t8_default_pyramid.hxx>
#include <t8_schemes/t8_default/t8_default_pyramid/t8_dpyramid.h>
#else
#include <t8_schemes/t8_standalone/t8_standalone.hxx>
#include <t8_schemes/t8_standalone/t8_standalone_implementation.hxx>
#endif

typedef t8_element_t *EP;
static inline t8_element_t *EL (void *p) { return (t8_element_t *) p; }
static inline const t8_element_t *CEL (const void *p) { return (const t8_element_t *) p; }

/* level chosen by the driver (vp_case(0)) or symbolic if the case is -1 */
#ifndef FIXLEVEL
#define FIXLEVEL 0
#endif

#if SCH == 0
typedef t8_default_scheme_vertex Sch;
typedef t8_dvertex_t E;
#define ECLASS T8_ECLASS_VERTEX
#define DIM 0
#define MAXL 254
#define NCH 1
#define LVL(e) ((e).level)
static inline void setlvl (E &e, int l) { e.level = l; }
static inline bool inv (const E &e) { return e.level <= MAXL; }
static inline void anyf (E &e) { e.level = (uint8_t) vp_u64 (); }
static inline bool same (const E &a, const E &b) { return a.level == b.level; }
#elif SCH == 1
typedef t8_default_scheme_line Sch;
typedef t8_dline_t E;
#define ECLASS T8_ECLASS_LINE
#define DIM 1
#define MAXL 30
#define ROOTBITS 30
#define NCH 2
#define LVL(e) ((e).level)
static inline void setlvl (E &e, int l) { e.level = l; }
static inline bool inv (const E &e) { return e.level >= 0 && e.level <= MAXL && e.x >= 0 && e.x < (1 << 30) && !(e.x & ((1 << (30 - e.level)) - 1)); }
static inline void anyf (E &e) { e.x = (int32_t) vp_u64 (); }
static inline bool same (const E &a, const E &b) { return a.level == b.level && a.x == b.x; }
#elif SCH == 2
typedef t8_default_scheme_quad Sch;
typedef p4est_quadrant_t E;
#define ECLASS T8_ECLASS_QUAD
#define DIM 2
#define MAXL 29
#define ROOTBITS 30
#define NCH 4
#define LVL(e) ((e).level)
static inline void setlvl (E &e, int l) { e.level = l; }
static inline bool inv (const E &e)
{
  if (e.level < 0 || e.level > MAXL) return false;
  int m = (1 << (30 - e.level)) - 1;
  return e.x >= 0 && e.x < (1 << 30) && e.y >= 0 && e.y < (1 << 30) && !((e.x | e.y) & m);
}
static inline void anyf (E &e) { e.x = (int32_t) vp_u64 (); e.y = (int32_t) vp_u64 (); e.pad8 = 2; e.pad16 = 0; }
static inline bool same (const E &a, const E &b) { return a.level == b.level && a.x == b.x && a.y == b.y; }
#elif SCH == 3
typedef t8_default_scheme_tri Sch;
typedef t8_dtri_t E;
#define ECLASS T8_ECLASS_TRIANGLE
#define DIM 2
#define MAXL 29
#define ROOTBITS 29
#define NCH 4
#define LVL(e) ((e).level)
static inline void setlvl (E &e, int l) { e.level = l; }
static inline bool inv (const E &e)
{
  if (e.level < 0 || e.level > MAXL) return false;
  int m = (1 << (29 - e.level)) - 1;
  return (e.type == 0 || e.type == 1) && e.y >= 0 && e.y <= e.x && e.x < (1 << 29) && !((e.x | e.y) & m) && (e.x != e.y || e.type == 0);
}
static inline void anyf (E &e) { e.x = (int32_t) vp_u64 (); e.y = (int32_t) vp_u64 (); e.type = vp_u64 () & 1; }
static inline bool same (const E &a, const E &b) { return a.level == b.level && a.x == b.x && a.y == b.y && a.type == b.type; }
#elif SCH == 4
typedef t8_default_scheme_hex Sch;
typedef p8est_quadrant_t E;
#define ECLASS T8_ECLASS_HEX
#define DIM 3
#define MAXL 18
#define ROOTBITS 30
#define NCH 8
#define LVL(e) ((e).level)
static inline void setlvl (E &e, int l) { e.level = l; }
static inline bool inv (const E &e)
{
  if (e.level < 0 || e.level > MAXL) return false;
  int m = (1 << (30 - e.level)) - 1;
  return e.x >= 0 && e.x < (1 << 30) && e.y >= 0 && e.y < (1 << 30) && e.z >= 0 && e.z < (1 << 30) && !((e.x | e.y | e.z) & m);
}
static inline void anyf (E &e) { e.x = (int32_t) vp_u64 (); e.y = (int32_t) vp_u64 (); e.z = (int32_t) vp_u64 (); e.pad8 = 0; e.pad16 = 0; }
static inline bool same (const E &a, const E &b) { return a.level == b.level && a.x == b.x && a.y == b.y && a.z == b.z; }
#elif SCH == 5 || SCH == 7
/* order of the local coordinates inside a tet of a type: c[0] >= c[1] >= c[2] */
static inline bool tet_ge (int type, int a, int b) /* does local coordinate a >= local coordinate b hold in that type? */
{
  /* position of x,y,z in the descending order of each type */
  static const signed char pos[6][3] = { { 0, 2, 1 }, { 0, 1, 2 }, { 1, 0, 2 }, { 2, 0, 1 }, { 2, 1, 0 }, { 1, 2, 0 } };
  return pos[type][a] < pos[type][b];
}
#if SCH == 5
typedef t8_default_scheme_tet Sch;
typedef t8_dtet_t E;
#define ECLASS T8_ECLASS_TET
#define DIM 3
#define MAXL 21
#define ROOTBITS 21
#define NCH 8
#define LVL(e) ((e).level)
static inline void setlvl (E &e, int l) { e.level = l; }
static inline bool inv (const E &e)
{
  if (e.level < 0 || e.level > MAXL) return false;
  int m = (1 << (21 - e.level)) - 1;
  if (e.type < 0 || e.type > 5) return false;
  if (!(e.x >= e.z && e.z >= e.y && e.y >= 0 && e.x < (1 << 21)) || ((e.x | e.y | e.z) & m)) return false;
  if (e.x == e.z && !tet_ge (e.type, 0, 2)) return false;
  if (e.z == e.y && !tet_ge (e.type, 2, 1)) return false;
  return true;
}
static inline void anyf (E &e) { e.x = (int32_t) vp_u64 (); e.y = (int32_t) vp_u64 (); e.z = (int32_t) vp_u64 (); e.type = (int8_t) (vp_u64 () & 7); }
static inline bool same (const E &a, const E &b) { return a.level == b.level && a.x == b.x && a.y == b.y && a.z == b.z && a.type == b.type; }
#else
typedef t8_default_scheme_pyramid Sch;
typedef t8_dpyramid_t E;
#define ECLASS T8_ECLASS_PYRAMID
#define DIM 3
#define MAXL 21
#define ROOTBITS 21
#define NCH 10
#define LVL(e) ((e).pyramid.level)
static inline void setlvl (E &e, int l) { e.pyramid.level = l; }
/* geometric containment of the element's interior in the pieces of the level-i cube that contains it */
static inline bool inv (const E &e)
{
  const t8_dtet_t &p = e.pyramid;
  const int l = p.level;
  if (l < 0 || l > MAXL) return false;
  if (p.type < 0 || p.type > 7) return false;
  const int m = (1 << (21 - l)) - 1;
  if (p.x < 0 || p.y < 0 || p.z < 0 || p.x >= (1 << 21) || p.y >= (1 << 21) || p.z >= (1 << 21) || ((p.x | p.y | p.z) & m)) return false;
  const bool tet = p.type < 6;
  const int sw = e.switch_shape_at_level;
  if (tet ? !(sw >= 1 && sw <= l) : sw != -1) return false;
  if (l == 0) return p.type == 6;
  bool ok = true;
  for (int i = 0; i <= 20; i++) {
    if (i >= l) continue;
    const int mk = (1 << (21 - i)) - 1;
    const int a = p.x & mk, b = p.y & mk, c = p.z & mk;
    /* g(u,v): every interior point of the element has local coordinate u >= v */
    bool xz, zx, yz, zy;
    if (p.type == 6) xz = a >= c, yz = b >= c, zx = c > a, zy = c > b;
    else if (p.type == 7) xz = a > c, yz = b > c, zx = c >= a, zy = c >= b;
    else {
      xz = a > c || (a == c && tet_ge (p.type, 0, 2));
      yz = b > c || (b == c && tet_ge (p.type, 1, 2));
      zx = !xz; zy = !yz;
    }
    const bool in6 = xz && yz, in7 = zx && zy;
    if (!tet || i < sw) ok &= (i == 0) ? in6 : (in6 || in7);
    if (tet && i == sw) ok &= (xz && zy) || (yz && zx);
  }
  if (tet && sw == l) ok &= (p.type == 0 || p.type == 3);
  return ok;
}
static inline void anyf (E &e)
{
  e.pyramid.x = (int32_t) vp_u64 (); e.pyramid.y = (int32_t) vp_u64 (); e.pyramid.z = (int32_t) vp_u64 (); e.pyramid.type = (int8_t) (vp_u64 () & 7);
  e.switch_shape_at_level = (int8_t) vp_u64 ();
}
/* the switch level is a pure function of the rest; it is undefined for pyramid shapes */
static inline bool same (const E &a, const E &b)
{
  return a.pyramid.level == b.pyramid.level && a.pyramid.x == b.pyramid.x && a.pyramid.y == b.pyramid.y && a.pyramid.z == b.pyramid.z && a.pyramid.type == b.pyramid.type
         && (a.pyramid.type >= 6 || a.switch_shape_at_level == b.switch_shape_at_level);
}
#endif
#elif SCH == 6
typedef t8_default_scheme_prism Sch;
typedef t8_dprism_t E;
#define ECLASS T8_ECLASS_PRISM
#define DIM 3
#define MAXL 21
#define NCH 8
#define LVL(e) ((e).line.level)
static inline void setlvl (E &e, int l) { e.line.level = l; e.tri.level = l; }
static inline bool inv (const E &e)
{
  const int l = e.line.level;
  if (l < 0 || l > MAXL || e.tri.level != l) return false;
  if (e.line.x < 0 || e.line.x >= (1 << 30) || (e.line.x & ((1 << (30 - l)) - 1))) return false;
  const t8_dtri_t &t = e.tri;
  return (t.type == 0 || t.type == 1) && t.y >= 0 && t.y <= t.x && t.x < (1 << 29) && !((t.x | t.y) & ((1 << (29 - l)) - 1)) && (t.x != t.y || t.type == 0);
}
static inline void anyf (E &e) { e.line.x = (int32_t) vp_u64 (); e.tri.x = (int32_t) vp_u64 (); e.tri.y = (int32_t) vp_u64 (); e.tri.type = vp_u64 () & 1; }
static inline bool same (const E &a, const E &b)
{
  return a.line.level == b.line.level && a.line.x == b.line.x && a.tri.level == b.tri.level && a.tri.x == b.tri.x && a.tri.y == b.tri.y && a.tri.type == b.tri.type;
}
#else /* standalone hypercubes */
#if SCH == 8
#define ECLASS T8_ECLASS_VERTEX
#define DIM 0
#define MAXL 254
#elif SCH == 9
#define ECLASS T8_ECLASS_LINE
#define DIM 1
#define MAXL 30
#elif SCH == 10
#define ECLASS T8_ECLASS_QUAD
#define DIM 2
#define MAXL 30
#elif SCH == 11
#define ECLASS T8_ECLASS_HEX
#define DIM 3
#define MAXL 21
#endif
#define ROOTBITS MAXL
#define NCH (1 << DIM)
typedef t8_standalone_scheme<ECLASS> Sch;
typedef t8_standalone_element<ECLASS> E;
#define LVL(e) ((e).level)
static inline void setlvl (E &e, int l) { e.level = l; }
static inline bool inv (const E &e)
{
  if (e.level > MAXL) return false;
#if DIM > 0
  for (int i = 0; i < DIM; i++) if (e.coords[i] < 0 || e.coords[i] >= (1 << MAXL) || (e.coords[i] & ((1 << (MAXL - e.level)) - 1))) return false;
#endif
  return true;
}
static inline void anyf (E &e)
{
#if DIM > 0
  for (int i = 0; i < DIM; i++) e.coords[i] = (int32_t) vp_u64 ();
#else
  e.level = (uint8_t) vp_u64 ();
#endif
}
static inline bool same (const E &a, const E &b)
{
#if DIM > 0
  for (int i = 0; i < DIM; i++) if (a.coords[i] != b.coords[i]) return false;
#endif
  return a.level == b.level;
}
#endif

/* an arbitrary element of the refinement tree at a level in [lo,hi]; prim_at: the element whose type the driver fixes per query (pyramids) */
static inline void any_at (E &e, int lo, int hi);
static inline void prim_at (E &e, int lo, int hi)
{
#if defined(TCASE) && SCH == 7
  int l = lo == hi ? lo : (int) vp_in (lo, hi);
  anyf (e);
  e.pyramid.type = (int8_t) vp_case (TCASE);
#ifdef SWCASE
  e.switch_shape_at_level = (int8_t) vp_case (SWCASE);
#endif
#ifdef WCASE
  /* deep levels: the path down to level l - WINDOW follows a fixed pattern, the last WINDOW levels are symbolic */
  static const int pat[6][3] = { { 0, 0, 0 }, { 0, 0, 0 }, { 0x1fffff, 0x1fffff, 0 }, { 0x1fffff, 0x1fffff, 0x1fffff }, { 0x165b2d, 0x165b2d, 0x0b36d6 }, { 0x1cb2d6, 0x15b4cb, 0x0a6db3 } };
  const int w = vp_case (WCASE);
  if (w > 0 && l > WINDOW) {
    const int lowm = (1 << (21 - (l - WINDOW))) - 1;
    e.pyramid.x = (pat[w][0] & ~lowm) | (e.pyramid.x & lowm);
    e.pyramid.y = (pat[w][1] & ~lowm) | (e.pyramid.y & lowm);
    e.pyramid.z = (pat[w][2] & ~lowm) | (e.pyramid.z & lowm);
  }
#endif
  setlvl (e, l);
  vp_assume (inv (e));
#elif (defined(TCASE) && SCH == 5) || (defined(WCASE) && (SCH == 3 || SCH == 5 || SCH == 6))
  int l = lo == hi ? lo : (int) vp_in (lo, hi);
  anyf (e);
#ifdef TCASE
  e.type = (int8_t) vp_case (TCASE);
#endif
#ifdef WCASE
  const int w = vp_case (WCASE);
  if (w > 0 && l > WINDOW) {
#if SCH == 5
    static const int pat[6][3] = { { 0, 0, 0 }, { 0, 0, 0 }, { 0x1fffff, 0, 0x1fffff }, { 0x1fffff, 0x1fffff, 0x1fffff }, { 0x165b2d, 0x0a36d6, 0x0b5a96 }, { 0x1cb2d6, 0x0a6db3, 0x15b4cb } };
    const int lowm = (1 << (21 - (l - WINDOW))) - 1;
    e.x = (pat[w][0] & ~lowm) | (e.x & lowm);
    e.y = (pat[w][1] & ~lowm) | (e.y & lowm);
    e.z = (pat[w][2] & ~lowm) | (e.z & lowm);
#else
    static const int pat[6][3] = { { 0, 0, 0 }, { 0, 0, 0 }, { 0x1fffffff, 0, 0x3fffffff }, { 0x1fffffff, 0x1fffffff, 0x3fffffff }, { 0x165b2d5a, 0x0b36d6a6, 0x2a5a96d3 }, { 0x1cb2d6d3, 0x15b4cb96, 0x0a6db35a } };
    const int lowm = (1 << (29 - (l - WINDOW))) - 1;
#if SCH == 6
    e.tri.x = (pat[w][0] & ~lowm) | (e.tri.x & lowm);
    e.tri.y = (pat[w][1] & ~lowm) | (e.tri.y & lowm);
    const int lowz = (1 << (30 - (l - WINDOW))) - 1;
    e.line.x = (pat[w][2] & ~lowz) | (e.line.x & lowz);
#else
    e.x = (pat[w][0] & ~lowm) | (e.x & lowm);
    e.y = (pat[w][1] & ~lowm) | (e.y & lowm);
#endif
#endif
  }
#endif
  setlvl (e, l);
  vp_assume (inv (e));
#else
  any_at (e, lo, hi);
#endif
}
static inline void any_at (E &e, int lo, int hi)
{
  int l = lo == hi ? lo : (int) vp_in (lo, hi);
  anyf (e);
  setlvl (e, l);
  vp_assume (inv (e));
}
/* a second element whose type and switch level the driver fixes as well (cases T2CASE and T2CASE + 1, pyramids) */
static inline void sec_at (E &e, int l)
{
#if defined(T2CASE) && SCH == 7
  anyf (e);
  e.pyramid.type = (int8_t) vp_case (T2CASE);
  e.switch_shape_at_level = (int8_t) vp_case (T2CASE + 1);
  setlvl (e, l);
  vp_assume (inv (e));
#else
  any_at (e, l, l);
#endif
}
/* arbitrary bytes in the output element: results must not depend on them */
static inline void junk (E &e)
{
  anyf (e);
#if SCH == 5
  e.type &= 3;
#elif SCH == 7
  e.pyramid.type &= 7;
#endif
  setlvl (e, (int) (vp_u64 () & 15));
}

static char sch_buf[sizeof (Sch)] __attribute__ ((aligned (16)));
static inline Sch &sch () { return *new (sch_buf) Sch (); }

/* the number of children of an element, as the specification has it */
static inline int spec_nch (const E &e)
{
#if SCH == 7
  return e.pyramid.type >= 6 ? 10 : 8;
#else
  return NCH;
#endif
}
/* levels handled by a query: case 0 is the level (or -1: symbolic over [lo,hi]) */
static inline void lvl_range (int lo, int hi, int &a, int &b)
{
  int k = vp_case (0);
  if (k < 0) a = lo, b = hi; else a = b = k;
}
