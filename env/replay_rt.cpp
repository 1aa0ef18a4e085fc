// Native runtime of the harness intrinsics: replays a solver assignment against the real code.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <vector>
#include <string>
#include <unistd.h>
#include <mpi.h>
static std::vector<uint64_t> vals; static size_t pos = 0; static std::vector<long> cases; static int witnessed = 0, failed = 0;
extern "C" {
void vp_harness (void);
uint64_t vp_u64 (void) { if (pos < vals.size ()) return vals[pos++]; pos++; return 0; }
double vp_double (void) { uint64_t u = vp_u64 (); double d; memcpy (&d, &u, 8); return d; }
void vp_assume (int c) { if (!c) { printf ("REPLAY assume-false after %zu values\n", pos); fflush (stdout); _exit (failed ? 10 : 77); } }
void vp_assert (int c, const char *l) { if (!c) { printf ("REPLAY assert-failed: %s\n", l); fflush (stdout); failed = 1; } }
void vp_witness (const char *l) { printf ("REPLAY witness: %s\n", l); witnessed = 1; }
int vp_case (int k) { return (int) cases.at (k); }
int vp_same_object (const void *, const void *) { return 1; }
#define LOGF(n) __attribute__((weak)) void n (const char *, ...) {}
LOGF (t8_debugf) LOGF (t8_infof) LOGF (t8_productionf) LOGF (t8_errorf) LOGF (t8_global_errorf) LOGF (t8_global_essentialf) LOGF (t8_global_productionf) LOGF (t8_global_infof)
__attribute__((weak)) void t8_logf (int, int, const char *, ...) {}
__attribute__((weak)) void t8_log_indent_push (void) {}
__attribute__((weak)) void t8_log_indent_pop (void) {}
__attribute__((weak)) int t8_get_package_id (void) { return -1; }
__attribute__((weak)) int sc_get_package_id (void) { return -1; }
}
#include <unistd.h>
int main (int argc, char **argv) {
  FILE *f = fopen (argv[1], "r");
  if (!f) return 3;
  char k; unsigned long long v; bool mpi = getenv ("VP_REPLAY_MPI") != nullptr;
  while (fscanf (f, " %c %llu", &k, &v) == 2) { if (k == 'c') cases.push_back ((long) v); else vals.push_back (v); }
  fclose (f);
  if (mpi) MPI_Init (&argc, &argv);
  vp_harness ();
  printf ("REPLAY end consumed=%zu of %zu\n", pos, vals.size ()); fflush (stdout);
  if (mpi) MPI_Finalize ();
  if (failed) return 10;
  return witnessed ? 0 : 78;
}
