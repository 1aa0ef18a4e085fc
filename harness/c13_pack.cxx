/* C13: packing elements for a message and unpacking them.  case 0: level of the first element, case 1: bytes before the elements in the buffer */
#include "schemes.hxx"
#include <sc_mpi.h>
extern "C" void vp_harness (void)
{
  Sch &s = sch ();
  enum { N = 2 };
  E e[N], g[N];
  EP ep[N], gp[N];
  int lo, hi; lvl_range (0, MAXL, lo, hi);
  for (int i = 0; i < N; i++) {
    if (i == 0) prim_at (e[i], lo, hi); else any_at (e[i], 0, MAXL);
    junk (g[i]);
    ep[i] = EL (&e[i]); gp[i] = EL (&g[i]);
  }
  const E e0 = e[0], e1 = e[1];
  const int skip = vp_case (1);
  int size = -1, one = -1;
  s.element_MPI_Pack_size (N, sc_MPI_COMM_SELF, &size);
  s.element_MPI_Pack_size (1, sc_MPI_COMM_SELF, &one);
  VP_CHECK (size > 0 && size <= 100 && one > 0, "a packing size is reported");
  vp_assume (size > 0 && size <= 100);
  char buf[128];
  for (int i = 0; i < 128; i++) buf[i] = 42;
  int pos = skip, rpos = skip, rpos1 = skip;
  s.element_MPI_Pack (ep, N, buf, skip + size, &pos, sc_MPI_COMM_SELF);
  VP_CHECK (pos > skip && pos <= skip + size, "packing stays within the reported size");
  VP_CHECK (same (e[0], e0) && same (e[1], e1), "elements unchanged");
  for (int i = 0; i < 128; i++) if (i < skip || i >= skip + size) VP_CHECK (buf[i] == 42, "packing writes nothing else");
  s.element_MPI_Unpack (buf, skip + size, &rpos, gp, N, sc_MPI_COMM_SELF);
  VP_CHECK (rpos == pos, "unpacking consumes what packing produced");
  VP_CHECK (same (g[0], e[0]) && same (g[1], e[1]), "unpacked elements are the packed ones");
  /* one at a time */
  E h[N];
  for (int i = 0; i < N; i++) {
    junk (h[i]);
    EP hp = EL (&h[i]);
    s.element_MPI_Unpack (buf, skip + size, &rpos1, &hp, 1, sc_MPI_COMM_SELF);
    VP_CHECK (same (h[i], e[i]), "elements can be unpacked one by one");
  }
  VP_CHECK (rpos1 == pos, "unpacking one by one consumes the same");
  int p1 = 0;
  s.element_MPI_Pack (ep + 1, 1, buf, one, &p1, sc_MPI_COMM_SELF);
  VP_CHECK (p1 <= one, "packing one element stays within the reported size");
  vp_witness ("packed");
}
