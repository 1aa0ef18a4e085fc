/* C01: parent / child / child id / children / siblings form exactly the refinement tree. */
#include "schemes.hxx"
extern "C" void vp_harness (void)
{
  Sch &s = sch ();
  E e, c, p, q;
#if PART == 0
  /* downward: every child of every element is a tree element whose parent and child id lead back */
  int lo, hi; lvl_range (0, MAXL - 1, lo, hi);
  prim_at (e, lo, hi);
  const E e0 = e;
  const int l = LVL (e);
  junk (c); junk (p);
  VP_CHECK (s.element_get_level (CEL (&e)) == l, "level reported");
  VP_CHECK (s.element_is_refinable (CEL (&e)) == (l < MAXL), "refinable iff below maximum level");
  const int n = s.element_get_num_children (CEL (&e));
  VP_CHECK (n == spec_nch (e), "number of children");
  VP_CHECK (n <= s.get_max_num_children (), "at most the maximum number of children");
  const int k = vp_case (1);
  if (k < 0 || k >= n) { vp_witness ("opt: no such child"); return; }
  s.element_get_child (CEL (&e), k, EL (&c));
  VP_CHECK (same (e, e0), "child construction leaves the element unchanged");
  VP_CHECK (LVL (c) == l + 1, "child is one level finer");
  VP_CHECK (inv (c), "child is an element of the tree");
  VP_CHECK (s.element_get_child_id (CEL (&c)) == k, "child id of the k-th child is k");
  s.element_get_parent (CEL (&c), EL (&p));
  VP_CHECK (same (p, e), "parent of the child is the element");
  VP_CHECK (s.element_get_num_siblings (CEL (&c)) == n, "number of siblings equals the parent's number of children");
  /* in-place variants */
  q = e;
  s.element_get_child (CEL (&q), k, EL (&q));
  VP_CHECK (same (q, c), "in-place child");
  s.element_get_parent (CEL (&q), EL (&q));
  VP_CHECK (same (q, e), "in-place parent");
  E d; junk (d);
  s.element_copy (CEL (&c), EL (&d));
  VP_CHECK (same (d, c), "copy is identical");
  vp_witness ("child");
#elif PART == 1
  /* upward: every element below the root is the child of its parent given by its child id */
  int lo, hi; lvl_range (1, MAXL, lo, hi);
  prim_at (e, lo, hi);
  const E e0 = e;
  junk (p); junk (c);
  const int k = s.element_get_child_id (CEL (&e));
  s.element_get_parent (CEL (&e), EL (&p));
  VP_CHECK (same (e, e0), "parent construction leaves the element unchanged");
  VP_CHECK (inv (p) && LVL (p) == LVL (e) - 1, "parent is a tree element one level coarser");
  VP_CHECK (k >= 0 && k < s.element_get_num_children (CEL (&p)), "child id in range");
  vp_assume (k >= 0 && k < NCH);
  s.element_get_child (CEL (&p), k, EL (&c));
  VP_CHECK (same (c, e), "element is the child of its parent with its child id");
  vp_witness ("up");
#elif PART == 2
  /* the children array agrees with the single-child function, also when the element is its own first slot */
  int lo, hi; lvl_range (0, MAXL - 1, lo, hi);
  prim_at (e, lo, hi);
  const int n = NCASE;
  vp_assume (spec_nch (e) == n);
  E ch[NCH];
  EP cp[NCH];
  for (int i = 0; i < n; i++) { junk (ch[i]); cp[i] = EL (&ch[i]); }
  const int alias = vp_case (1);
  E w = e;
  if (alias) cp[0] = EL (&w);
  s.element_get_children (CEL (&w), n, cp);
  for (int i = 0; i < n; i++) {
    junk (c);
    s.element_get_child (CEL (&e), i, EL (&c));
    VP_CHECK (same (*(E *) cp[i], c), "children array holds child i at position i");
  }
  vp_witness ("children");
#elif PART == 4
  /* siblings, where the class implements them */
  int lo, hi; lvl_range (1, MAXL, lo, hi);
  prim_at (e, lo, hi);
  const int j = vp_case (1);
  junk (c); junk (p); junk (q);
  s.element_get_parent (CEL (&e), EL (&p));
  s.element_get_child (CEL (&p), j, EL (&q));
  s.element_get_sibling (CEL (&e), j, EL (&c));
  VP_CHECK (same (c, q), "sibling j is child j of the parent");
  vp_witness ("sibling");
#elif PART == 3
  /* root */
  junk (e);
  s.set_to_root (EL (&e));
  VP_CHECK (LVL (e) == 0 && inv (e), "root is the tree element at level 0");
  any_at (c, 0, 0);
  VP_CHECK (same (c, e), "the only level-0 element is the root");
  VP_CHECK (s.get_maxlevel () == MAXL, "maximum level");
  VP_CHECK (s.get_element_size () == sizeof (E), "element size");
  vp_witness ("root");
#endif
}
