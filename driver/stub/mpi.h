// minimal stand-in for <mpi.h>: only declarations, so that dispatch/mpi can be analysed without an MPI installation
#pragma once
struct verif_mpi_request_t;
typedef verif_mpi_request_t* MPI_Request;
struct MPI_Status
{
    int MPI_SOURCE;
    int MPI_TAG;
    int MPI_ERROR;
    int count;
};
#define MPI_STATUS_IGNORE ((MPI_Status*) 0)
#define MPI_STATUSES_IGNORE ((MPI_Status*) 0)
#define MPI_UNDEFINED (-32766)
#define MPI_REQUEST_NULL ((MPI_Request) 0)
#define MPI_SUCCESS 0
extern "C"
{
    int MPI_Testsome(int incount, MPI_Request* reqs, int* outcount, int* indices, MPI_Status* statuses);
    int MPI_Testany(int incount, MPI_Request* reqs, int* index, int* flag, MPI_Status* status);
    int MPI_Test(MPI_Request* req, int* flag, MPI_Status* status);
    int MPI_Testall(int incount, MPI_Request* reqs, int* flag, MPI_Status* statuses);
}
