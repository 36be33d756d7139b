// The part of the MPI interface that the HDF5 streams use, as an assumed contract on the dependency: the harness defines the functions.
#ifndef VC_HDF_MPI_H_
#define VC_HDF_MPI_H_
typedef int MPI_Comm; typedef int MPI_Group; typedef int MPI_Info; typedef int MPI_Datatype; typedef int MPI_Op;
enum { MPI_SUCCESS = 0, MPI_COMM_WORLD = 91, MPI_COMM_NULL = 0, MPI_INFO_NULL = 0, MPI_INT = 103, MPI_SUM = 201, MPI_MAX, MPI_MIN };
extern "C" {
int MPI_Comm_size(MPI_Comm, int *); int MPI_Comm_rank(MPI_Comm, int *); int MPI_Comm_group(MPI_Comm, MPI_Group *); int MPI_Group_incl(MPI_Group, int, const int *, MPI_Group *); int MPI_Comm_create(MPI_Comm, MPI_Group, MPI_Comm *);
int MPI_Group_free(MPI_Group *); int MPI_Allreduce(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Allgather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm); int MPI_Info_create(MPI_Info *); int MPI_Info_set(MPI_Info, const char *, const char *); int MPI_Info_free(MPI_Info *);
}
#endif
