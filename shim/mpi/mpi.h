// Message-passing interface of the model checker: the part of MPI the code (and
// reasonable variants of it) can call. Every call that communicates becomes a
// request to the controller, which decides when it takes effect (harness/mpinet.h).
#ifndef MCK_MPI_H_
#define MCK_MPI_H_
#include <stddef.h>
#ifdef __cplusplus
#include <iostream>
#endif

typedef int MPI_Comm;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef int MPI_Request;
typedef int MPI_Info;
typedef int MPI_Errhandler;
typedef int MPI_Group;
typedef long long MPI_Offset;
typedef long      MPI_Aint;
typedef struct
{
  int MPI_SOURCE, MPI_TAG, MPI_ERROR, count_bytes;
} MPI_Status;
typedef void(MPI_Comm_errhandler_function)(MPI_Comm *, int *, ...);
typedef MPI_Comm_errhandler_function MPI_Handler_function;

#define MPI_VERSION 3
#define MPI_SUBVERSION 1
#define MPI_SUCCESS 0
#define MPI_ERR_OTHER 15
#define MPI_COMM_NULL (-1)
#define MPI_COMM_WORLD 0
#define MPI_COMM_SELF 1
#define MPI_STATUS_IGNORE ((MPI_Status *)0)
#define MPI_STATUSES_IGNORE ((MPI_Status *)0)
#define MPI_INFO_NULL 0
#define MPI_REQUEST_NULL (-1)
#define MPI_PROC_NULL (-2)
#define MPI_ANY_SOURCE (-3)
#define MPI_ANY_TAG (-1)
#define MPI_UNDEFINED (-32766)
#define MPI_MAX_PROCESSOR_NAME 256
#define MPI_MAX_ERROR_STRING 256
#define MPI_IN_PLACE ((void *)-1)
#define MPI_BOTTOM ((void *)0)
#define MPI_TAG_UB 1
#define MPI_ERRORS_ARE_FATAL 1
#define MPI_ERRORS_RETURN 2
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3

// datatypes: low byte is the size
#define MPI_CHAR 0x101
#define MPI_SIGNED_CHAR 0x201
#define MPI_UNSIGNED_CHAR 0x301
#define MPI_BYTE 0x401
#define MPI_SHORT 0x502
#define MPI_INT 0x604
#define MPI_UNSIGNED 0x704
#define MPI_LONG 0x808
#define MPI_UNSIGNED_LONG 0x908
#define MPI_LONG_LONG 0xa08
#define MPI_LONG_LONG_INT 0xa08
#define MPI_UNSIGNED_LONG_LONG 0xb08
#define MPI_FLOAT 0xc04
#define MPI_DOUBLE 0xd08
#define MPI_C_BOOL 0xe01
#define MPI_CXX_BOOL 0xe01
#define MPI_DATATYPE_NULL 0

#define MPI_SUM 1
#define MPI_MIN 2
#define MPI_MAX 3
#define MPI_PROD 4
#define MPI_LAND 5
#define MPI_LOR 6
#define MPI_BAND 7
#define MPI_BOR 8
#define MPI_OP_NULL 0

#ifdef __cplusplus
extern "C" {
#endif
int MPI_Init(int *, char ***);
int MPI_Init_thread(int *, char ***, int, int *);
int MPI_Initialized(int *);
int MPI_Finalize(void);
int MPI_Finalized(int *);
int MPI_Abort(MPI_Comm, int);
int MPI_Get_processor_name(char *, int *);
int MPI_Get_version(int *, int *);
int MPI_Query_thread(int *);
int MPI_Is_thread_main(int *);
double MPI_Wtime(void);
double MPI_Wtick(void);
int MPI_Error_string(int, char *, int *);
int MPI_Comm_rank(MPI_Comm, int *);
int MPI_Comm_size(MPI_Comm, int *);
int MPI_Comm_dup(MPI_Comm, MPI_Comm *);
int MPI_Comm_free(MPI_Comm *);
int MPI_Comm_get_attr(MPI_Comm, int, void *, int *);
int MPI_Attr_get(MPI_Comm, int, void *, int *);
int MPI_Comm_create_errhandler(MPI_Comm_errhandler_function *, MPI_Errhandler *);
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler);
int MPI_Errhandler_set(MPI_Comm, MPI_Errhandler);
int MPI_Errhandler_free(MPI_Errhandler *);
int MPI_Info_create(MPI_Info *);
int MPI_Info_free(MPI_Info *);
int MPI_Info_set(MPI_Info, const char *, const char *);
int MPI_Info_get(MPI_Info, const char *, int, char *, int *);
int MPI_Type_size(MPI_Datatype, int *);
int MPI_Get_count(const MPI_Status *, MPI_Datatype, int *);
int MPI_Cart_create(MPI_Comm, int, const int *, const int *, int, MPI_Comm *);
int MPI_Cart_rank(MPI_Comm, const int *, int *);
int MPI_Cart_coords(MPI_Comm, int, int, int *);
int MPI_Cart_shift(MPI_Comm, int, int, int *, int *);
int MPI_Cartdim_get(MPI_Comm, int *);
int MPI_Cart_get(MPI_Comm, int, int *, int *, int *);
int MPI_Dims_create(int, int, int *);
int MPI_Barrier(MPI_Comm);
int MPI_Bcast(void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Reduce(const void *, void *, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Allreduce(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Scan(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Gather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Gatherv(const void *, int, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, int, MPI_Comm);
int MPI_Allgather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm);
int MPI_Allgatherv(const void *, int, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, MPI_Comm);
int MPI_Scatter(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Alltoall(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm);
int MPI_Alltoallv(const void *, const int *, const int *, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, MPI_Comm);
int MPI_Send(const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Ssend(const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Bsend(const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Rsend(const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Recv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *);
int MPI_Sendrecv(const void *, int, MPI_Datatype, int, int, void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *);
int MPI_Sendrecv_replace(void *, int, MPI_Datatype, int, int, int, int, MPI_Comm, MPI_Status *);
int MPI_Isend(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Ibsend(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Issend(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Irsend(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Irecv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Wait(MPI_Request *, MPI_Status *);
int MPI_Waitall(int, MPI_Request *, MPI_Status *);
int MPI_Buffer_attach(void *, int);
int MPI_Buffer_detach(void *, int *);
#ifdef __cplusplus
}
#endif
#endif
