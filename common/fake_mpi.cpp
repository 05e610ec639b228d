// Stand-ins, so that a subprogram which asks for its rank needs no MPI runtime.
#include <mpi.h>
extern "C" {
int MPI_Init(int*, char***) { return MPI_SUCCESS; }
int MPI_Init_thread(int*, char***, int, int* provided) { *provided = MPI_THREAD_SINGLE; return MPI_SUCCESS; }
int MPI_Finalize() { return MPI_SUCCESS; }
int MPI_Comm_rank(MPI_Comm, int* r) { *r = 0; return MPI_SUCCESS; }
int MPI_Comm_size(MPI_Comm, int* n) { *n = 1; return MPI_SUCCESS; }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* d) { *d = c; return MPI_SUCCESS; }
int MPI_Comm_free(MPI_Comm* c) { *c = MPI_COMM_NULL; return MPI_SUCCESS; }
int MPI_Barrier(MPI_Comm) { return MPI_SUCCESS; }
}
