/* Model of the single-process MPI services: datatypes, packing, trivial communicators.  The native replay uses the real MPI. */
#include <mpi.h>
#include <stddef.h>
#include <string.h>
__attribute__ ((nomerge)) void vp_assert (int c, const char *l);
struct ompi_predefined_datatype_t { int size; };
struct ompi_predefined_communicator_t { int id; };
struct ompi_predefined_op_t { int id; };
#define T(n, s) struct ompi_predefined_datatype_t ompi_mpi_##n = { s };
T (int, 4) T (int8_t, 1) T (int16_t, 2) T (int32_t, 4) T (int64_t, 8) T (uint8_t, 1) T (uint16_t, 2) T (uint32_t, 4) T (uint64_t, 8) T (char, 1) T (signed_char, 1) T (unsigned_char, 1)
T (short, 2) T (long, 8) T (unsigned, 4) T (unsigned_long, 8) T (long_long_int, 8) T (unsigned_long_long, 8) T (float, 4) T (double, 8) T (byte, 1)
struct ompi_predefined_communicator_t ompi_mpi_comm_world = { 0 }, ompi_mpi_comm_self = { 1 }, ompi_mpi_comm_null = { 2 };
struct ompi_predefined_op_t ompi_mpi_op_sum = { 1 }, ompi_mpi_op_max = { 2 }, ompi_mpi_op_min = { 3 };
#define SIZE(t) (((struct ompi_predefined_datatype_t *) (t))->size)
int MPI_Pack_size (int n, MPI_Datatype t, MPI_Comm comm, int *size) { *size = n * SIZE (t); return 0; }
int MPI_Pack (const void *in, int n, MPI_Datatype t, void *out, int outsize, int *pos, MPI_Comm comm)
{
  const int b = n * SIZE (t);
  vp_assert (*pos >= 0 && *pos + b <= outsize, "packed data fit the announced buffer size");
  for (int i = 0; i < b; i++) ((char *) out)[*pos + i] = ((const char *) in)[i];
  *pos += b;
  return 0;
}
int MPI_Unpack (const void *in, int insize, int *pos, void *out, int n, MPI_Datatype t, MPI_Comm comm)
{
  const int b = n * SIZE (t);
  vp_assert (*pos >= 0 && *pos + b <= insize, "unpacked data lie in the buffer");
  for (int i = 0; i < b; i++) ((char *) out)[i] = ((const char *) in)[*pos + i];
  *pos += b;
  return 0;
}
int MPI_Comm_rank (MPI_Comm c, int *r) { *r = 0; return 0; }
int MPI_Comm_size (MPI_Comm c, int *s) { *s = 1; return 0; }
