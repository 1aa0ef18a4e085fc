/* C08 face neighbours and root boundary, C09 face hierarchy, C11 coordinates, C12 corner and face tables.
 * case 0: level, case 1: face */
#include "geom.hxx"
extern "C" void vp_harness (void)
{
  Sch &s = sch ();
  E e, n, b;
#if PART == 0
  const int f = vp_case (1);
  int lo, hi; lvl_range (0, MAXL, lo, hi);
  prim_at (e, lo, hi);
  vp_assume (f < nface (e));
  const E e0 = e;
  junk (n); junk (b);
  int nf = -7, bf = -7;
  const int r = s.element_get_face_neighbor_inside (CEL (&e), EL (&n), f, &nf);
  VP_CHECK (same (e, e0), "element unchanged");
  const int rf = root_face (e, f);
  VP_CHECK ((r != 0) == (rf < 0), "a face has a neighbour in the tree exactly if it is not in the tree boundary");
  VP_CHECK ((s.element_is_root_boundary (CEL (&e), f) != 0) == (rf >= 0), "root boundary test");
  if (rf >= 0) {
    VP_CHECK (s.element_get_tree_face (CEL (&e), f) == rf, "tree face of a boundary face");
    vp_witness ("opt: boundary");
  }
  else {
    vp_witness ("opt: inside");
    VP_CHECK (inv (n) && LVL (n) == LVL (e), "neighbour is an element of the tree at the same level");
    VP_CHECK (!same (n, e), "neighbour differs from the element");
    VP_CHECK (nf >= 0 && nf < nface (n) && same_face (e, f, n, nf), "neighbours share exactly the corners of the face");
#ifdef INVOL
    const int r2 = s.element_get_face_neighbor_inside (CEL (&n), EL (&b), nf, &bf);
    VP_CHECK (r2 && same (b, e) && bf == f, "the neighbour of the neighbour is the element");
#endif
  }
#elif PART == 1
  /* children at a face and their faces */
  const int f = vp_case (1);
  int lo, hi; lvl_range (0, MAXL - 1, lo, hi);
  prim_at (e, lo, hi);
  vp_assume (f < nface (e));
  const E e0 = e;
  enum { N = 1 << (DIM - 1) };
  VP_CHECK (s.element_get_num_face_children (CEL (&e), f) == N, "number of children at a face");
  E ch[N], c;
  EP cp[N];
  int ix[N];
  for (int i = 0; i < N; i++) { junk (ch[i]); cp[i] = EL (&ch[i]); ix[i] = -9; }
  s.element_get_children_at_face (CEL (&e), f, cp, N, ix);
  VP_CHECK (same (e, e0), "element unchanged");
  for (int i = 0; i < N; i++) {
    VP_CHECK (ix[i] >= 0 && ix[i] < spec_nch (e) && (i == 0 || ix[i - 1] < ix[i]), "indices of the children at a face ascend");
    s.element_get_child (CEL (&e), ix[i], EL (&c));
    VP_CHECK (same (c, ch[i]), "children at a face are the children with the reported indices");
    const int g = s.element_face_get_child_face (CEL (&e), f, i);
    VP_CHECK (g >= 0 && g < nface (c) && face_in (c, g, e, f), "the reported face of the child lies in the face");
  }
  vp_witness ("children at face");
  /* input stored in the first output, indices not requested */
  E al[N];
  al[0] = e;
  for (int i = 0; i < N; i++) cp[i] = EL (&al[i]);
  s.element_get_children_at_face (CEL (&al[0]), f, cp, N, NULL);
  for (int i = 0; i < N; i++) VP_CHECK (same (al[i], ch[i]), "children at a face with the input as first output");
  al[0] = e;
  int iy[N];
  s.element_get_children_at_face (CEL (&al[0]), f, cp, N, iy);
  for (int i = 0; i < N; i++) VP_CHECK (same (al[i], ch[i]) && iy[i] == ix[i], "children at a face and indices with the input as first output");
#elif PART == 2
  const int f = vp_case (1);
  int lo, hi; lvl_range (0, MAXL, lo, hi);
  prim_at (e, lo, hi);
  vp_assume (f < nface (e));
  const int g = s.element_face_get_parent_face (CEL (&e), f);
  if (LVL (e) == 0) VP_CHECK (g == f, "parent face at the root is the face");
  else {
    E p;
    s.element_get_parent (CEL (&e), EL (&p));
#ifdef PTCASE
    /* the driver also splits on the type of the parent */
    vp_assume (p.pyramid.type == vp_case (PTCASE));
    p.pyramid.type = (int8_t) vp_case (PTCASE);
#endif
    VP_CHECK (g == spec_parent_face (e, f, p), "parent face is the face of the parent that contains the face, or -1");
    vp_witness ("opt: has parent");
  }
  vp_witness ("parent face");
#elif PART == 3
  /* case 2: ancestor level */
  const int l = vp_case (0), f = vp_case (1), L = vp_case (2);
  prim_at (e, l, l);
  vp_assume (f < nface (e));
  const int g = s.element_face_get_ancestor_face (CEL (&e), L, f);
  if (l == L) VP_CHECK (g == f, "ancestor face at the own level is the face");
  else {
    E p;
    s.element_get_parent (CEL (&e), EL (&p));
    const int pf = s.element_face_get_parent_face (CEL (&e), f);
    VP_CHECK (g == (pf < 0 ? -1 : s.element_face_get_ancestor_face (CEL (&p), L, pf)), "ancestor face is the ancestor face of the parent face");
  }
  vp_witness ("ancestor face");
#elif PART == 4
  /* first and last descendant at a face, case 2: descendant level */
  const int l = vp_case (0), f = vp_case (1), L = vp_case (2);
  prim_at (e, l, l);
  vp_assume (f < nface (e));
  const E e0 = e;
  E fd, ld, gd, hd, c;
  junk (fd); junk (ld); junk (gd); junk (hd);
  s.element_get_first_descendant_face (CEL (&e), f, EL (&fd), L);
  s.element_get_last_descendant_face (CEL (&e), f, EL (&ld), L);
  VP_CHECK (same (e, e0), "element unchanged");
  if (l == L) VP_CHECK (same (fd, e) && same (ld, e), "descendants at the own level are the element");
  else {
    enum { N = 1 << (DIM - 1) };
    E ch[N];
    EP cp[N];
    int ix[N];
    for (int i = 0; i < N; i++) cp[i] = EL (&ch[i]);
    s.element_get_children_at_face (CEL (&e), f, cp, N, ix);
    int g = s.element_face_get_child_face (CEL (&e), f, 0);
    s.element_get_first_descendant_face (CEL (&ch[0]), g, EL (&gd), L);
    VP_CHECK (same (fd, gd), "first descendant at a face is the one of the first child at the face");
    g = s.element_face_get_child_face (CEL (&e), f, N - 1);
    s.element_get_last_descendant_face (CEL (&ch[N - 1]), g, EL (&hd), L);
    VP_CHECK (same (ld, hd), "last descendant at a face is the one of the last child at the face");
  }
  vp_witness ("face descendants");
#endif
}
