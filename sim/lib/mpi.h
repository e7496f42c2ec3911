/* Simulated MPI, for compiling the library under the simulator. */
#ifndef SIM_MPI_H
#define SIM_MPI_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef int MPI_Comm;
typedef int MPI_Group;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef int MPI_Request;
typedef int MPI_Info;
typedef int MPI_Errhandler;
typedef long MPI_Aint;
typedef long long MPI_Offset;
typedef long long MPI_Count;
typedef struct { int MPI_SOURCE; int MPI_TAG; int MPI_ERROR; int sim_count; int sim_type; } MPI_Status;
#define MPI_VERSION 3
#define MPI_SUBVERSION 1
#define MPI_SUCCESS 0
#define MPI_ERR_TRUNCATE 15
#define MPI_ERR_IN_STATUS 18
#define MPI_ERR_OTHER 16
#define MPI_ERR_PENDING 19
#define MPI_COMM_NULL ((MPI_Comm)0)
#define MPI_COMM_WORLD ((MPI_Comm)1)
#define MPI_COMM_SELF ((MPI_Comm)2)
#define MPI_REQUEST_NULL ((MPI_Request)0)
#define MPI_PROC_NULL (-2)
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_ROOT (-3)
#define MPI_UNDEFINED (-32766)
#define MPI_IN_PLACE ((void*)-1)
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_BOTTOM ((void*)0)
#define MPI_INFO_NULL 0
#define MPI_ERRORS_ARE_FATAL 1
#define MPI_ERRORS_RETURN 2
#define MPI_MAX_PROCESSOR_NAME 128
#define MPI_MAX_ERROR_STRING 128
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3
#define MPI_TAG_UB 1
/* types: low byte is the size */
#define MPI_DATATYPE_NULL 0
#define MPI_CHAR 0x101
#define MPI_SIGNED_CHAR 0x201
#define MPI_UNSIGNED_CHAR 0x301
#define MPI_BYTE 0x401
#define MPI_PACKED 0x501
#define MPI_SHORT 0x602
#define MPI_UNSIGNED_SHORT 0x702
#define MPI_INT 0x804
#define MPI_UNSIGNED 0x904
#define MPI_LONG 0xa08
#define MPI_UNSIGNED_LONG 0xb08
#define MPI_LONG_LONG 0xc08
#define MPI_LONG_LONG_INT 0xc08
#define MPI_UNSIGNED_LONG_LONG 0xd08
#define MPI_FLOAT 0xe04
#define MPI_DOUBLE 0xf08
#define MPI_INT8_T 0x1001
#define MPI_INT16_T 0x1102
#define MPI_INT32_T 0x1204
#define MPI_INT64_T 0x1308
#define MPI_UINT8_T 0x1401
#define MPI_UINT16_T 0x1502
#define MPI_UINT32_T 0x1604
#define MPI_UINT64_T 0x1708
#define MPI_C_BOOL 0x1801
#define MPI_AINT 0x1908
#define MPI_OFFSET 0x1a08
#define MPI_2INT 0x1b08
/* ops */
#define MPI_OP_NULL 0
#define MPI_MAX 1
#define MPI_MIN 2
#define MPI_SUM 3
#define MPI_PROD 4
#define MPI_LAND 5
#define MPI_BAND 6
#define MPI_LOR 7
#define MPI_BOR 8
#define MPI_LXOR 9
#define MPI_BXOR 10
#define MPI_MINLOC 11
#define MPI_MAXLOC 12

int MPI_Init(int*, char***);
int MPI_Initialized(int*);
int MPI_Finalize(void);
int MPI_Finalized(int*);
int MPI_Abort(MPI_Comm, int);
int MPI_Comm_rank(MPI_Comm, int*);
int MPI_Comm_size(MPI_Comm, int*);
int MPI_Comm_dup(MPI_Comm, MPI_Comm*);
int MPI_Comm_free(MPI_Comm*);
int MPI_Comm_split(MPI_Comm, int color, int key, MPI_Comm*);
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler);
int MPI_Get_processor_name(char*, int*);
int MPI_Error_string(int, char*, int*);
int MPI_Type_size(MPI_Datatype, int*);
double MPI_Wtime(void);

int MPI_Send(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Ssend(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Rsend(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Recv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Isend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Issend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Irsend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Irecv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Wait(MPI_Request*, MPI_Status*);
int MPI_Waitall(int, MPI_Request*, MPI_Status*);
int MPI_Waitany(int, MPI_Request*, int*, MPI_Status*);
int MPI_Waitsome(int, MPI_Request*, int*, int*, MPI_Status*);
int MPI_Test(MPI_Request*, int*, MPI_Status*);
int MPI_Testall(int, MPI_Request*, int*, MPI_Status*);
int MPI_Request_free(MPI_Request*);
int MPI_Cancel(MPI_Request*);
int MPI_Sendrecv(const void*, int, MPI_Datatype, int, int, void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Sendrecv_replace(void*, int, MPI_Datatype, int, int, int, int, MPI_Comm, MPI_Status*);
int MPI_Probe(int, int, MPI_Comm, MPI_Status*);
int MPI_Iprobe(int, int, MPI_Comm, int*, MPI_Status*);
int MPI_Get_count(const MPI_Status*, MPI_Datatype, int*);

int MPI_Barrier(MPI_Comm);
int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Reduce(const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Scan(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Exscan(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Gather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Gatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, int, MPI_Comm);
int MPI_Scatter(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Allgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Allgatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, MPI_Comm);
int MPI_Scatterv(const void*, const int*, const int*, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Alltoallv(const void*, const int*, const int*, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, MPI_Comm);
int MPI_Reduce_scatter_block(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Alltoall(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);

typedef int MPI_Message;
#define MPI_MESSAGE_NULL 0
#define MPI_MESSAGE_NO_PROC (-1)
#define MPI_IDENT 0
#define MPI_CONGRUENT 1
#define MPI_SIMILAR 2
#define MPI_UNEQUAL 3
#define MPI_BSEND_OVERHEAD 64
#define MPI_ERR_COUNT 2
#define MPI_ERR_TYPE 3
#define MPI_ERR_TAG 4
#define MPI_ERR_COMM 5
#define MPI_ERR_RANK 6
#define MPI_ERR_ARG 12
#define MPI_ERR_UNKNOWN 13
#define MPI_ERR_INTERN 17
#define MPI_ERR_NO_MEM 34
int MPI_Init_thread(int*, char***, int, int*);
int MPI_Query_thread(int*);
int MPI_Is_thread_main(int*);
int MPI_Error_class(int, int*);
int MPI_Get_version(int*, int*);
double MPI_Wtick(void);
int MPI_Comm_get_attr(MPI_Comm, int, void*, int*);
int MPI_Comm_compare(MPI_Comm, MPI_Comm, int*);
int MPI_Comm_test_inter(MPI_Comm, int*);
int MPI_Comm_get_errhandler(MPI_Comm, MPI_Errhandler*);
int MPI_Get_address(const void*, MPI_Aint*);
int MPI_Type_contiguous(int, MPI_Datatype, MPI_Datatype*);
int MPI_Type_commit(MPI_Datatype*);
int MPI_Type_free(MPI_Datatype*);
int MPI_Type_get_extent(MPI_Datatype, MPI_Aint*, MPI_Aint*);
int MPI_Pack_size(int, MPI_Datatype, MPI_Comm, int*);
int MPI_Pack(const void*, int, MPI_Datatype, void*, int, int*, MPI_Comm);
int MPI_Unpack(const void*, int, int*, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Get_elements(const MPI_Status*, MPI_Datatype, int*);
int MPI_Testany(int, MPI_Request*, int*, int*, MPI_Status*);
int MPI_Testsome(int, MPI_Request*, int*, int*, MPI_Status*);
int MPI_Bsend(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Buffer_attach(void*, int);
int MPI_Buffer_detach(void*, int*);
int MPI_Mprobe(int, int, MPI_Comm, MPI_Message*, MPI_Status*);
int MPI_Improbe(int, int, MPI_Comm, int*, MPI_Message*, MPI_Status*);
int MPI_Mrecv(void*, int, MPI_Datatype, MPI_Message*, MPI_Status*);
int MPI_Imrecv(void*, int, MPI_Datatype, MPI_Message*, MPI_Request*);
int MPI_Ibarrier(MPI_Comm, MPI_Request*);
int MPI_Ibcast(void*, int, MPI_Datatype, int, MPI_Comm, MPI_Request*);
int MPI_Iallreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm, MPI_Request*);
int MPI_Iallgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm, MPI_Request*);
int MPI_Igather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm, MPI_Request*);
int MPI_Reduce_local(const void*, void*, int, MPI_Datatype, MPI_Op);
#ifdef __cplusplus
}
#endif
#endif
