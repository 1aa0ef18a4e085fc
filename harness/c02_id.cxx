/* C02: linear ids number the uniform refinements; leaf counts are consistent.
 * case 0: level l of the element, case 1: level L of the numbering */
#include "schemes.hxx"
#define ID(x, L) s.element_get_linear_id (CEL (&(x)), L)
#define CNT(x, L) ((uint64_t) s.element_count_leaves (CEL (&(x)), L))
extern "C" void vp_harness (void)
{
  Sch &s = sch ();
  E e, c, p, q;
  const int l = vp_case (0);
#if PART == 0
  /* finer level: ids of the children at L tile the leaves of the element in order, starting at its own id */
  const int L = vp_case (1);
  prim_at (c, l + 1, l + 1);
  junk (p); junk (q);
  s.element_get_parent (CEL (&c), EL (&p));
  const int k = s.element_get_child_id (CEL (&c));
  uint64_t off = 0;
  for (int j = 0; j < NCH - 1; j++) {
    if (j >= k) continue;
    s.element_get_child (CEL (&p), j, EL (&q));
    off += CNT (q, L);
  }
  VP_CHECK (ID (c, L) == ID (p, L) + off, "id of a child follows the leaves of the children before it");
  vp_witness ("child id");
#elif PART == 5
  /* uniform classes: id of an element below its parent = id of the parent + child id * leaves per child */
  const int L = vp_case (1);
  prim_at (c, l + 1, l + 1);
  junk (p);
  s.element_get_parent (CEL (&c), EL (&p));
  VP_CHECK (ID (c, L) == ID (p, L) + (uint64_t) s.element_get_child_id (CEL (&c)) * CNT (c, L), "id of a child follows the leaves of the children before it");
  vp_witness ("child id");
#elif PART == 1
  /* set/get are inverse at the own level, ids stay below the leaf count of the root */
  prim_at (e, l, l);
  const E e0 = e;
  const uint64_t id = ID (e, l);
  VP_CHECK (same (e, e0), "element unchanged");
  VP_CHECK (id < (uint64_t) s.count_leaves_from_root (l), "id below the number of elements of the uniform refinement");
  junk (c);
  s.element_set_linear_id (EL (&c), l, id);
  VP_CHECK (same (c, e), "the element with the id of an element is that element");
  vp_witness ("roundtrip");
#elif PART == 2
  /* leaf counts: one at the element's own level, zero at coarser levels, otherwise the sum over the children */
  const int L = l;
  any_at (e, 0, MAXL);
  const int le = LVL (e);
  junk (c);
  if (le > L) { VP_CHECK (CNT (e, L) == 0, "no leaves at coarser level"); }
  else if (le == L) { VP_CHECK (CNT (e, L) == 1, "one leaf at the own level"); }
  else {
    uint64_t sum = 0;
    for (int j = 0; j < NCH; j++) {
      if (j >= spec_nch (e)) continue;
      s.element_get_child (CEL (&e), j, EL (&c));
      sum += CNT (c, L);
    }
    VP_CHECK (CNT (e, L) == sum, "leaf count is the sum over the children");
  }
  s.set_to_root (EL (&q));
  VP_CHECK (CNT (q, L) == (uint64_t) s.count_leaves_from_root (L), "leaf count of the root");
  VP_CHECK (ID (q, L) == 0, "the root starts the numbering");
  vp_witness ("leaf count");
#elif PART == 3
  /* at a coarser level the id is the one of the ancestor */
  const int L = vp_case (1);
  prim_at (e, l, l);
  junk (p);
  s.element_get_parent (CEL (&e), EL (&p));
  VP_CHECK (ID (e, L) == ID (p, L), "id at a coarser level is the id of the ancestor there");
  vp_witness ("coarser");
#elif PART == 4
  /* every id below the count is taken */
  uint64_t id = vp_u64 ();
  const uint64_t N = (uint64_t) s.count_leaves_from_root (l);
#ifdef IDW /* deep levels: windows of ids around fixed bases */
  const int w = vp_case (1);
  id = (id & 255) + (w == 0 ? 0 : w == 1 ? N - 256 : w == 2 ? N / 2 : w == 3 ? N / 3 : N / 7 * 5);
#endif
  vp_assume (id < N);
  junk (c);
  s.element_set_linear_id (EL (&c), l, id);
  VP_CHECK (LVL (c) == l && inv (c), "every id yields an element of the uniform refinement");
  VP_CHECK (ID (c, l) == id, "the element built from an id has that id");
  vp_witness ("surjective");
#endif
}
