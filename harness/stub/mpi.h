// The part of the MPI interface that Schnek uses, as an assumed contract on the dependency: the harness defines the functions.
#ifndef VC_MPI_H_
#define VC_MPI_H_
typedef int MPI_Comm; typedef int MPI_Datatype; typedef int MPI_Op; typedef int MPI_Info;
struct MPI_Status { int MPI_SOURCE, MPI_TAG, MPI_ERROR; };
enum { MPI_SUCCESS = 0, MPI_COMM_WORLD = 91, MPI_COMM_NULL = 0, MPI_INFO_NULL = 0 };
enum { MPI_CHAR = 101, MPI_SHORT, MPI_INT, MPI_LONG, MPI_UNSIGNED_CHAR, MPI_UNSIGNED_SHORT, MPI_UNSIGNED, MPI_UNSIGNED_LONG, MPI_FLOAT, MPI_DOUBLE, MPI_LONG_DOUBLE };
enum { MPI_SUM = 201, MPI_MAX, MPI_MIN, MPI_PROD };
extern "C" {
int MPI_Comm_size(MPI_Comm, int *); int MPI_Comm_rank(MPI_Comm, int *); int MPI_Comm_free(MPI_Comm *);
int MPI_Cart_create(MPI_Comm, int, const int *, const int *, int, MPI_Comm *); int MPI_Cart_coords(MPI_Comm, int, int, int *); int MPI_Cart_shift(MPI_Comm, int, int, int *, int *);
int MPI_Sendrecv(const void *, int, MPI_Datatype, int, int, void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *);
int MPI_Allreduce(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
}
#endif
