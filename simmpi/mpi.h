/* Message passing for exploration: ranks are processes run one at a time under a scheduler (sim.cpp).
   Every name is renamed so that a real MPI library pulled in by another library cannot be called by accident. */
#ifndef SIM_MPI_H
#define SIM_MPI_H
#ifdef __cplusplus
extern "C" {
#endif
typedef int MPI_Comm; typedef int MPI_Datatype; typedef int MPI_Op; typedef int MPI_Request; typedef int MPI_Info;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR, bytes_; } MPI_Status;
#define MPI_COMM_NULL 0
#define MPI_COMM_WORLD 91
#define MPI_COMM_SELF 92
#define MPI_INFO_NULL 0
#define MPI_CHAR 1
#define MPI_INT 2
#define MPI_DOUBLE 3
#define MPI_MAX 1
#define MPI_MIN 2
#define MPI_LOR 3
#define MPI_SUM 4
#define MPI_SUCCESS 0
#define MPI_REQUEST_NULL 0
#define MPI_ANY_SOURCE (-2)
#define MPI_ANY_TAG (-1)
#define MPI_STATUS_IGNORE ((MPI_Status *)0)
#define MPI_STATUSES_IGNORE ((MPI_Status *)0)
#define MPI_IN_PLACE ((void *)-1)
#define MPI_MAX_ERROR_STRING 256
#define MPI_Init simMPI_Init
#define MPI_Initialized simMPI_Initialized
#define MPI_Finalize simMPI_Finalize
#define MPI_Comm_rank simMPI_Comm_rank
#define MPI_Comm_size simMPI_Comm_size
#define MPI_Send simMPI_Send
#define MPI_Recv simMPI_Recv
#define MPI_Isend simMPI_Isend
#define MPI_Irecv simMPI_Irecv
#define MPI_Wait simMPI_Wait
#define MPI_Waitall simMPI_Waitall
#define MPI_Test simMPI_Test
#define MPI_Get_count simMPI_Get_count
#define MPI_Bcast simMPI_Bcast
#define MPI_Allgather simMPI_Allgather
#define MPI_Allreduce simMPI_Allreduce
#define MPI_Reduce simMPI_Reduce
#define MPI_Gather simMPI_Gather
#define MPI_Scatter simMPI_Scatter
#define MPI_Barrier simMPI_Barrier
#define MPI_Wtime simMPI_Wtime
#define MPI_Error_string simMPI_Error_string
#define MPI_Abort simMPI_Abort
#define MPI_Sendrecv simMPI_Sendrecv
int MPI_Init(int *, char ***); int MPI_Initialized(int *); int MPI_Finalize(void); int MPI_Comm_rank(MPI_Comm, int *); int MPI_Comm_size(MPI_Comm, int *);
int MPI_Send(const void *, int, MPI_Datatype, int, int, MPI_Comm); int MPI_Recv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *);
int MPI_Isend(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *); int MPI_Irecv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Sendrecv(const void *, int, MPI_Datatype, int, int, void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *);
int MPI_Wait(MPI_Request *, MPI_Status *); int MPI_Waitall(int, MPI_Request *, MPI_Status *); int MPI_Test(MPI_Request *, int *, MPI_Status *); int MPI_Get_count(const MPI_Status *, MPI_Datatype, int *);
int MPI_Bcast(void *, int, MPI_Datatype, int, MPI_Comm); int MPI_Allgather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm); int MPI_Allreduce(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Reduce(const void *, void *, int, MPI_Datatype, MPI_Op, int, MPI_Comm); int MPI_Gather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm); int MPI_Scatter(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Barrier(MPI_Comm); double MPI_Wtime(void); int MPI_Error_string(int, char *, int *); int MPI_Abort(MPI_Comm, int);
#ifdef __cplusplus
}
#endif
#endif
