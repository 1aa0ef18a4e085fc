#include <mpi.h>
#include <sc.h>
#ifdef __cplusplus
extern "C" {
#endif
#define sc_MPI_PACKED MPI_PACKED
#define sc_MPI_INT8_T MPI_INT8_T
#define sc_MPI_Pack MPI_Pack
#define sc_MPI_Unpack MPI_Unpack
#define sc_MPI_Pack_size MPI_Pack_size
int sc_get_package_id(void);
int sc_mpi_comm_get_and_attach(sc_MPI_Comm);
#ifdef __cplusplus
}
#endif
