/* C03 order and equality, C04 successor, C05 descendants, C06 ancestors, C07 families. case 0/1: levels */
#include "schemes.hxx"
#define ID(x, L) s.element_get_linear_id (CEL (&(x)), L)
#define CNT(x, L) ((uint64_t) s.element_count_leaves (CEL (&(x)), L))
static inline int sgn (int v) { return v < 0 ? -1 : v > 0; }
extern "C" void vp_harness (void)
{
  Sch &s = sch ();
  E e, c, p, q, a, b;
#if PART == 0
  /* the order is the order of the ids at the finer level, ancestors before descendants */
  const int la = vp_case (0), lb = vp_case (1), m = la > lb ? la : lb;
  prim_at (a, la, la);
  any_at (b, lb, lb);
  const uint64_t ia = ID (a, m), ib = ID (b, m);
  const int want = ia < ib ? -1 : ia > ib ? 1 : sgn (la - lb);
  const int r = s.element_compare (CEL (&a), CEL (&b));
  VP_CHECK (sgn (r) == want, "compare orders by linear id, then ancestors first");
  VP_CHECK ((r == 0) == same (a, b), "compare is zero exactly for equal elements");
  vp_witness ("compare");
#elif PART == 1
  any_at (a, 0, MAXL);
  any_at (b, 0, MAXL);
  VP_CHECK ((s.element_is_equal (CEL (&a), CEL (&b)) != 0) == same (a, b), "equality holds exactly for equal elements");
  vp_witness ("equal");
  b = a;
  VP_CHECK (s.element_is_equal (CEL (&a), CEL (&b)) != 0, "equality is reflexive");
#elif PART == 3
  /* the successor has the next id */
  const int l = vp_case (0);
  prim_at (e, l, l);
  const uint64_t id = ID (e, l);
  vp_assume (id + 1 < (uint64_t) s.count_leaves_from_root (l));
  junk (c);
  s.element_construct_successor (CEL (&e), EL (&c));
  VP_CHECK (LVL (c) == l && ID (c, l) == id + 1, "successor has the next linear id");
  VP_CHECK (inv (c), "successor is an element of the tree");
#ifdef INPLACE
  s.element_construct_successor (CEL (&e), EL (&e));
  VP_CHECK (same (c, e), "successor in place");
#endif
  vp_witness ("succ id");
#elif PART == 4
  /* first and last descendants, by induction over the children */
  const int l = vp_case (0), L = vp_case (1);
  prim_at (e, l, l);
  const E e0 = e;
  E f, g, fc, gc;
  junk (f); junk (g); junk (fc); junk (gc); junk (c);
  s.element_get_first_descendant (CEL (&e), EL (&f), L);
  s.element_get_last_descendant (CEL (&e), EL (&g), L);
  VP_CHECK (same (e, e0), "element unchanged");
  if (l == L) {
    VP_CHECK (same (f, e) && same (g, e), "descendants at the own level are the element");
  }
  else {
    s.element_get_child (CEL (&e), 0, EL (&c));
    s.element_get_first_descendant (CEL (&c), EL (&fc), L);
    VP_CHECK (same (f, fc), "first descendant is the first descendant of the first child");
    s.element_get_child (CEL (&e), spec_nch (e) - 1, EL (&c));
    s.element_get_last_descendant (CEL (&c), EL (&gc), L);
    VP_CHECK (same (g, gc), "last descendant is the last descendant of the last child");
  }
  VP_CHECK (LVL (f) == L && inv (f) && LVL (g) == L && inv (g), "descendants are elements of the level");
  vp_witness ("desc");
#elif PART == 5
  /* ancestor ids */
  const int l = vp_case (0), L = vp_case (1);
  prim_at (e, l, l);
  if (l == L) {
    VP_CHECK (s.element_get_ancestor_id (CEL (&e), L) == s.element_get_child_id (CEL (&e)), "ancestor id at the own level is the child id");
  }
  else {
    junk (p);
    s.element_get_parent (CEL (&e), EL (&p));
    VP_CHECK (s.element_get_ancestor_id (CEL (&e), L) == s.element_get_ancestor_id (CEL (&p), L), "ancestor id is the one of the parent");
  }
  vp_witness ("ancestor id");
#elif PART == 6
  /* ancestor test */
  const int la = vp_case (0), lb = vp_case (1);
  any_at (b, la, la);
  prim_at (a, lb, lb); /* a: candidate descendant */
  const bool r = s.element_is_ancestor (CEL (&b), CEL (&a));
  if (la > lb) VP_CHECK (!r, "a finer element is no ancestor");
  else if (la == lb) VP_CHECK (r == same (a, b), "at the same level only the element itself");
  else {
    junk (p);
    s.element_get_parent (CEL (&a), EL (&p));
    VP_CHECK (r == s.element_is_ancestor (CEL (&b), CEL (&p)), "ancestor exactly if ancestor of the parent");
  }
  vp_witness ("is ancestor");
#elif PART == 7
  /* nearest common ancestor */
  const int la = vp_case (0), lb = vp_case (1);
  prim_at (a, la, la);
  sec_at (b, lb);
  E n, m, pa, pb;
  junk (n); junk (m); junk (pa); junk (pb);
  const E a0 = a, b0 = b;
  s.element_get_nca (CEL (&a), CEL (&b), EL (&n));
  VP_CHECK (same (a, a0) && same (b, b0), "elements unchanged");
  VP_CHECK (inv (n) && LVL (n) <= (la < lb ? la : lb), "nearest common ancestor is an element of the tree, no finer than both");
#if SCH == 7
  /* climb from both elements until they meet */
  pa = a; pb = b;
  for (int i = la; i > lb; i--) { s.element_get_parent (CEL (&pa), EL (&m)); pa = m; }
  for (int i = lb; i > la; i--) { s.element_get_parent (CEL (&pb), EL (&m)); pb = m; }
  bool found = same (pa, pb);
  E want = pa;
  for (int i = la < lb ? la : lb; i > 0; i--) {
    s.element_get_parent (CEL (&pa), EL (&m)); pa = m;
    s.element_get_parent (CEL (&pb), EL (&m)); pb = m;
    if (!found) { found = same (pa, pb); want = pa; }
  }
  VP_CHECK (found && same (n, want), "nearest common ancestor is the first element met climbing from both");
  vp_witness ("nca");
#else
  if (la == lb && same (a, b)) {
    VP_CHECK (same (n, a), "nearest common ancestor of an element and itself");
    vp_witness ("opt: equal");
  }
  else if (la == lb) {
    if (la > 0) {
      s.element_get_parent (CEL (&a), EL (&pa));
      s.element_get_parent (CEL (&b), EL (&pb));
      s.element_get_nca (CEL (&pa), CEL (&pb), EL (&m));
      VP_CHECK (same (n, m), "nearest common ancestor of different elements is the one of their parents");
      vp_witness ("opt: parents");
    }
  }
  else if (la > lb) {
    s.element_get_parent (CEL (&a), EL (&pa));
    s.element_get_nca (CEL (&pa), CEL (&b), EL (&m));
    VP_CHECK (same (n, m), "nearest common ancestor with a finer element is the one with its parent");
    vp_witness ("opt: left finer");
  }
  else {
    s.element_get_parent (CEL (&b), EL (&pb));
    s.element_get_nca (CEL (&a), CEL (&pb), EL (&m));
    VP_CHECK (same (n, m), "nearest common ancestor with a finer element is the one with its parent");
    vp_witness ("opt: right finer");
  }
#endif
#elif PART == 8 || PART == 9
  /* families */
#if SCH == 7
  const int n = vp_case (1); /* number of elements the parent of the first element would have */
#else
  const int n = NCH;
#endif
  E f[NCH];
  EP fp[NCH];
#if PART == 8
  int lo, hi; lvl_range (0, MAXL, lo, hi);
  for (int i = 0; i < n; i++) { any_at (f[i], lo, hi); fp[i] = EL (&f[i]); }
#else
  /* a family with one member replaced by any element */
  int lo, hi; lvl_range (0, MAXL - 1, lo, hi);
  prim_at (e, lo, hi);
  vp_assume (spec_nch (e) == n);
  for (int i = 0; i < n; i++) { s.element_get_child (CEL (&e), i, EL (&f[i])); fp[i] = EL (&f[i]); }
  const int j = vp_case (2);
  if (j >= 0) any_at (f[j], 0, MAXL);
#endif
  bool want = LVL (f[0]) > 0;
  if (want) {
    s.element_get_parent (CEL (&f[0]), EL (&p));
    want = spec_nch (p) == n;
    for (int i = 0; i < n; i++) {
      if (i >= spec_nch (p)) continue;
      s.element_get_child (CEL (&p), i, EL (&c));
      want = want && same (c, f[i]);
    }
  }
#if SCH == 7
  /* the caller passes as many elements as the parent of the first one has children */
  vp_assume (LVL (f[0]) == 0 || spec_nch (p) == n);
#endif
  VP_CHECK ((s.elements_are_family (fp) != 0) == want, "elements are a family exactly if they are all the children of one element in order");
  vp_witness ("family");
  if (want) vp_witness ("opt: is family");
#endif
}
