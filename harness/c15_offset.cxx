/* C15: tree partition tables of a coarse mesh.  case 0: number of ranks P, further cases: ranks; the table entries are symbolic.
 * A partition gives rank p the trees [first_p, last_p]; entry p is first_p, or -first_p - 1 if that tree is also on a smaller rank. */
#include <t8_cmesh/t8_cmesh_internal/t8_cmesh_offset.h>
#include "vp.h"
typedef t8_gloidx_t G;
/* trees are numbered below 2^BITS */
static inline G tree () { return (G) (vp_u64 () & (((uint64_t) 1 << BITS) - 1)); }
#define P (vp_case (0))
struct Part { G first[8], last[8]; bool shared[8]; G off[9]; G N; };
/* any consistent partition of N trees: the trees of the ranks are consecutive intervals, neighbours may share one tree */
static void any (Part &q, G N)
{
  q.N = N;
  G done = 0; /* trees [0, done) are covered */
  for (int p = 0; p < P; p++) {
    const G end = tree (); /* one past the last tree of p */
    vp_assume (end >= done && end <= N);
    const bool sh = vp_u64 () & 1;
    vp_assume (!sh || done > 0);
    q.first[p] = sh ? done - 1 : done;
    q.last[p] = end - 1;
    q.shared[p] = sh;
    q.off[p] = sh ? -q.first[p] - 1 : q.first[p];
    done = end;
  }
  vp_assume (done == N);
  q.off[P] = N;
}
static bool has (const Part &q, int p, G t) { return q.first[p] <= t && t <= q.last[p]; }
static bool empty (const Part &q, int p) { return q.first[p] > q.last[p]; }
static int first_owner (const Part &q, G t)
{
  int r = -1;
  for (int p = P - 1; p >= 0; p--) if (has (q, p, t)) r = p;
  return r;
}
/* repartitioning: a rank that already has the tree keeps it, otherwise its smallest owner sends it */
static bool sends (const Part &a, const Part &b, int p, int q, G t)
{
  if (!has (b, q, t) || !has (a, p, t)) return false;
  return has (a, q, t) ? p == q : p == first_owner (a, t);
}
extern "C" void vp_harness (void)
{
  const G N = tree ();
  vp_assume (N >= 1);
  Part a;
  any (a, N);
#if PART == 0
  const int p = vp_case (1);
  const G t = tree ();
  vp_assume (t >= 0 && t < N);
  VP_CHECK (t8_offset_first_tree_to_entry (a.first[p], a.shared[p]) == a.off[p], "entry of a rank");
  VP_CHECK (t8_offset_first (p, a.off) == a.first[p], "first tree");
  VP_CHECK (t8_offset_last (p, a.off) == a.last[p], "last tree");
  VP_CHECK (t8_offset_num_trees (p, a.off) == a.last[p] - a.first[p] + 1, "number of trees");
  VP_CHECK ((t8_offset_empty (p, a.off) != 0) == empty (a, p), "empty rank");
  VP_CHECK ((t8_offset_in_range (t, p, a.off) != 0) == has (a, p, t), "tree in range");
  int nx = P;
  for (int r = P - 1; r > p; r--) if (!empty (a, r)) nx = r;
  VP_CHECK (t8_offset_next_nonempty_rank (p, P, a.off) == nx, "next nonempty rank");
  vp_witness ("table");
#elif PART == 1
  const G t = tree ();
  vp_assume (t >= 0 && t < N);
  int lo = -1, hi = -1, n = 0, own[8];
  for (int p = 0; p < P; p++) if (has (a, p, t)) { if (lo < 0) lo = p; hi = p; own[n++] = p; }
#if SUB == 0
  const int o = t8_offset_any_owner_of_tree (P, t, a.off);
  VP_CHECK (o >= 0 && o < P && has (a, o, t), "any owner");
#elif SUB == 1
  const int o2 = t8_offset_any_owner_of_tree_ext (P, vp_case (1), t, a.off);
  VP_CHECK (o2 >= 0 && o2 < P && has (a, o2, t), "any owner from a starting rank");
#elif SUB == 2
  const int k = vp_case (1);
  vp_assume (has (a, k, t));
  int nx = -1, pv = -1;
  for (int p = P - 1; p > k; p--) if (has (a, p, t)) nx = p;
  for (int p = 0; p < k; p++) if (has (a, p, t)) pv = p;
  VP_CHECK (t8_offset_next_owner_of_tree (P, t, a.off, k) == nx, "next owner");
  VP_CHECK (t8_offset_prev_owner_of_tree (P, t, a.off, k) == pv, "previous owner");
  int so = k;
  VP_CHECK (t8_offset_first_owner_of_tree (P, t, a.off, &so) == lo, "first owner from a known owner");
  so = k;
  VP_CHECK (t8_offset_last_owner_of_tree (P, t, a.off, &so) == hi, "last owner from a known owner");
#elif SUB == 3
  int so = -1;
  VP_CHECK (t8_offset_first_owner_of_tree (P, t, a.off, &so) == lo, "first owner");
  VP_CHECK (so >= 0 && so < P && has (a, so, t), "some owner is set to an owner");
#elif SUB == 4
  int so = -1;
  VP_CHECK (t8_offset_last_owner_of_tree (P, t, a.off, &so) == hi, "last owner");
  VP_CHECK (so >= 0 && so < P && has (a, so, t), "some owner is set to an owner");
#else
  sc_array_t arr;
  sc_array_init (&arr, sizeof (int));
  t8_offset_all_owners_of_tree (P, t, a.off, &arr);
  bool ok = (int) arr.elem_count == n;
  for (int i = 0; i < P; i++) if (i < n && i < (int) arr.elem_count) ok = ok && ((int *) arr.array)[i] == own[i];
  VP_CHECK (ok, "all owners in order");
#endif
  vp_witness ("owners");
#elif PART == 2
  Part b;
  any (b, N);
  const int p = vp_case (1), q = vp_case (2);
  const G t = tree ();
  vp_assume (t >= 0 && t < N);
  VP_CHECK ((t8_offset_sendstree (p, q, t, a.off, b.off) != 0) == sends (a, b, p, q, t), "a tree is sent to its new owner by exactly its designated sender");
  vp_witness ("sendstree");
#elif PART == 3
  Part b;
  any (b, N);
  const int p = vp_case (1), q = vp_case (2);
  /* the trees p sends to q lie in the common interval; at most its two ends and the old first tree of q are left out */
  const G lo = a.first[p] > b.first[q] ? a.first[p] : b.first[q], hi = a.last[p] < b.last[q] ? a.last[p] : b.last[q];
  bool some = false;
  for (int d = 0; d < 4; d++) if (lo + d <= hi) some = some || sends (a, b, p, q, lo + d);
  VP_CHECK ((t8_offset_sendsto (p, q, a.off, b.off) != 0) == some, "a rank sends to another exactly if it sends it a tree");
  vp_witness ("sendsto");
#elif PART == 5
  Part b;
  any (b, N);
  const int q = vp_case (1);
  const int s = (int) vp_in (0, P - 1), e = (int) vp_in (0, P - 1);
  int n = 0;
  for (int r = 0; r < P; r++) if (s <= r && r <= e && t8_offset_sendsto (r, q, a.off, b.off)) n++;
  VP_CHECK (t8_offset_range_send (s, e, q, a.off, b.off) == n, "number of senders in a range");
  vp_witness ("range");
#elif PART == 4
  Part b;
  any (b, N);
  const int p = vp_case (1);
  bool some = false;
  for (int q = 0; q < P; q++) {
    const G lo = a.first[p] > b.first[q] ? a.first[p] : b.first[q], hi = a.last[p] < b.last[q] ? a.last[p] : b.last[q];
    for (int d = 0; d < 4; d++) if (lo + d <= hi) some = some || sends (a, b, p, q, lo + d);
  }
  VP_CHECK ((t8_offset_nosend (p, P, a.off, b.off) != 0) == !some, "a rank sends nothing exactly if no tree is sent by it");
  vp_witness ("nosend");
#endif
}
