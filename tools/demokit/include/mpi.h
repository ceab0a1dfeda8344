// Minimal MPI for a few processes on one machine (mpi_mini.cpp).
#ifndef MINI_MPI_H
#define MINI_MPI_H
#ifdef __cplusplus
extern "C" {
#endif
typedef int MPI_Comm; typedef int MPI_Datatype; typedef int MPI_Op;
typedef struct mini_mpi_req * MPI_Request;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR; } MPI_Status;
#define MPI_VERSION 3
#define MPI_SUBVERSION 1
#define MPI_COMM_WORLD 91
#define MPI_SUCCESS 0
#define MPI_ERR_OTHER 15
#define MPI_REQUEST_NULL ((MPI_Request) 0)
#define MPI_STATUS_IGNORE ((MPI_Status *) 0)
#define MPI_STATUSES_IGNORE ((MPI_Status *) 0)
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-2)
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3
#define MPI_BYTE 1
#define MPI_CHAR 2
#define MPI_INT 3
#define MPI_UNSIGNED 4
#define MPI_LONG 5
#define MPI_UNSIGNED_LONG 6
#define MPI_FLOAT 7
#define MPI_DOUBLE 8
#define MPI_UNSIGNED_SHORT 9
#define MPI_LONG_LONG 10
#define MPI_UNSIGNED_LONG_LONG 11
#define MPI_UNSIGNED_CHAR 12
#define MPI_MIN 1
#define MPI_MAX 2
#define MPI_SUM 3
#define MPI_PROD 4
#define MPI_LAND 5
#define MPI_LOR 6
int MPI_Init( int *, char *** ); int MPI_Init_thread( int *, char ***, int, int * ); int MPI_Initialized( int * ); int MPI_Finalize( void ); int MPI_Finalized( int * );
int MPI_Abort( MPI_Comm, int );
int MPI_Comm_rank( MPI_Comm, int * ); int MPI_Comm_size( MPI_Comm, int * ); int MPI_Get_version( int *, int * ); int MPI_Query_thread( int * );
int MPI_Isend( void const *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request * );
int MPI_Irecv( void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request * );
int MPI_Send( void const *, int, MPI_Datatype, int, int, MPI_Comm );
int MPI_Recv( void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status * );
int MPI_Test( MPI_Request *, int *, MPI_Status * ); int MPI_Testall( int, MPI_Request *, int *, MPI_Status * ); int MPI_Testany( int, MPI_Request *, int *, int *, MPI_Status * );
int MPI_Wait( MPI_Request *, MPI_Status * ); int MPI_Waitall( int, MPI_Request *, MPI_Status * );
int MPI_Iprobe( int, int, MPI_Comm, int *, MPI_Status * );
int MPI_Barrier( MPI_Comm ); int MPI_Bcast( void *, int, MPI_Datatype, int, MPI_Comm );
int MPI_Allreduce( void const *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm );
int MPI_Reduce( void const *, void *, int, MPI_Datatype, MPI_Op, int, MPI_Comm );
int MPI_Allgather( void const *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm );
double MPI_Wtime( void );
#ifdef __cplusplus
}
#endif
#endif
