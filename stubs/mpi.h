// Offline stand-in for MPI: the ranks are cooperative threads of one process (harness/ranks.cpp).
#ifndef V_MPI_H
#define V_MPI_H
#include <climits>
#include <cstddef>
#include <cstdint>
typedef struct VType *MPI_Datatype;
typedef struct VRequest *MPI_Request;
typedef long MPI_Aint;
typedef int MPI_Comm;
typedef struct MPI_Status { int MPI_SOURCE, MPI_TAG, MPI_ERROR; } MPI_Status;
extern "C" {
extern struct VType v_mpi_double, v_mpi_int, v_mpi_unsigned, v_mpi_ulong, v_mpi_ushort, v_mpi_byte;
int MPI_Send(const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Ssend(const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Isend(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Recv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *);
int MPI_Irecv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Sendrecv(const void *, int, MPI_Datatype, int, int, void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *);
int MPI_Wait(MPI_Request *, MPI_Status *);
int MPI_Waitall(int, MPI_Request *, MPI_Status *);
int MPI_Barrier(MPI_Comm);
int MPI_Comm_rank(MPI_Comm, int *);
int MPI_Comm_size(MPI_Comm, int *);
int MPI_Get_address(const void *, MPI_Aint *);
int MPI_Type_create_struct(int, const int *, const MPI_Aint *, const MPI_Datatype *, MPI_Datatype *);
int MPI_Type_commit(MPI_Datatype *);
int MPI_Type_free(MPI_Datatype *);
}
#define MPI_DOUBLE (&v_mpi_double)
#define MPI_INT (&v_mpi_int)
#define MPI_UNSIGNED (&v_mpi_unsigned)
#define MPI_UNSIGNED_LONG (&v_mpi_ulong)
#define MPI_UNSIGNED_SHORT (&v_mpi_ushort)
#define MPI_DATATYPE_NULL ((MPI_Datatype) 0)
#define MPI_REQUEST_NULL ((MPI_Request) 0)
#define MPI_STATUS_IGNORE ((MPI_Status *) 0)
#define MPI_STATUSES_IGNORE ((MPI_Status *) 0)
#define MPI_BOTTOM ((void *) 0)
#define MPI_COMM_WORLD 1
#define MPI_PROC_NULL (-2)
#define MPI_SUCCESS 0
#endif
