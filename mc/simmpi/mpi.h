/* In-process MPI used by the checks: every rank is a fiber under the explorer in simmpi.cpp. */
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct smpi_comm* MPI_Comm;
typedef struct smpi_type* MPI_Datatype;
typedef struct smpi_op* MPI_Op;
typedef struct smpi_req* MPI_Request;
typedef struct smpi_group* MPI_Group;
typedef struct smpi_info* MPI_Info;
typedef struct smpi_win* MPI_Win;
typedef struct smpi_errh* MPI_Errhandler;
typedef ptrdiff_t MPI_Aint;
typedef long long MPI_Offset;
typedef long long MPI_Count;
typedef int MPI_Fint;
typedef struct MPI_Status { int MPI_SOURCE, MPI_TAG, MPI_ERROR; size_t _bytes; int _cancelled; } MPI_Status;
typedef void(MPI_User_function)(void*, void*, int*, MPI_Datatype*);
#define SMPI_H(T, v) ((T)(uintptr_t)(v))
#define MPI_COMM_NULL SMPI_H(MPI_Comm, 0)
extern struct smpi_comm smpi_world_obj, smpi_self_obj;
#define MPI_COMM_WORLD (&smpi_world_obj)
#define MPI_COMM_SELF (&smpi_self_obj)
#define MPI_DATATYPE_NULL SMPI_H(MPI_Datatype, 0)
#define MPI_OP_NULL SMPI_H(MPI_Op, 0)
#define MPI_REQUEST_NULL SMPI_H(MPI_Request, 0)
#define MPI_INFO_NULL SMPI_H(MPI_Info, 0)
#define MPI_WIN_NULL SMPI_H(MPI_Win, 0)
#define MPI_GROUP_NULL SMPI_H(MPI_Group, 0)
extern struct smpi_type smpi_types[];
#define SMPI_T(i) (&smpi_types_[i])
struct smpi_type { int kind; int elsize; int64_t count; int64_t bytes; int user; int committed; int freed; int64_t id; struct smpi_type* base; };
extern struct smpi_type smpi_types_[64];
#define MPI_CHAR SMPI_T(1)
#define MPI_SIGNED_CHAR SMPI_T(2)
#define MPI_UNSIGNED_CHAR SMPI_T(3)
#define MPI_BYTE SMPI_T(4)
#define MPI_SHORT SMPI_T(5)
#define MPI_UNSIGNED_SHORT SMPI_T(6)
#define MPI_INT SMPI_T(7)
#define MPI_UNSIGNED SMPI_T(8)
#define MPI_LONG SMPI_T(9)
#define MPI_UNSIGNED_LONG SMPI_T(10)
#define MPI_LONG_LONG SMPI_T(11)
#define MPI_LONG_LONG_INT SMPI_T(11)
#define MPI_UNSIGNED_LONG_LONG SMPI_T(12)
#define MPI_FLOAT SMPI_T(13)
#define MPI_DOUBLE SMPI_T(14)
#define MPI_LONG_DOUBLE SMPI_T(15)
#define MPI_INT8_T SMPI_T(16)
#define MPI_UINT8_T SMPI_T(17)
#define MPI_INT16_T SMPI_T(18)
#define MPI_UINT16_T SMPI_T(19)
#define MPI_INT32_T SMPI_T(20)
#define MPI_UINT32_T SMPI_T(21)
#define MPI_INT64_T SMPI_T(22)
#define MPI_UINT64_T SMPI_T(23)
#define MPI_C_BOOL SMPI_T(24)
#define MPI_CXX_BOOL SMPI_T(24)
#define MPI_C_DOUBLE_COMPLEX SMPI_T(25)
#define MPI_DOUBLE_COMPLEX SMPI_T(25)
#define MPI_CXX_DOUBLE_COMPLEX SMPI_T(25)
#define MPI_C_FLOAT_COMPLEX SMPI_T(26)
#define MPI_CXX_FLOAT_COMPLEX SMPI_T(26)
#define MPI_DOUBLE_INT SMPI_T(27)
#define MPI_2INT SMPI_T(28)
#define MPI_FLOAT_INT SMPI_T(29)
#define MPI_LONG_INT SMPI_T(30)
#define MPI_WCHAR SMPI_T(31)
#define MPI_AINT SMPI_T(22)
#define MPI_OFFSET SMPI_T(22)
#define MPI_COUNT SMPI_T(22)
#define MPI_MAX SMPI_H(MPI_Op, 1)
#define MPI_MIN SMPI_H(MPI_Op, 2)
#define MPI_SUM SMPI_H(MPI_Op, 3)
#define MPI_PROD SMPI_H(MPI_Op, 4)
#define MPI_LAND SMPI_H(MPI_Op, 5)
#define MPI_BAND SMPI_H(MPI_Op, 6)
#define MPI_LOR SMPI_H(MPI_Op, 7)
#define MPI_BOR SMPI_H(MPI_Op, 8)
#define MPI_LXOR SMPI_H(MPI_Op, 9)
#define MPI_BXOR SMPI_H(MPI_Op, 10)
#define MPI_MINLOC SMPI_H(MPI_Op, 11)
#define MPI_MAXLOC SMPI_H(MPI_Op, 12)
#define MPI_REPLACE SMPI_H(MPI_Op, 13)
#define MPI_NO_OP SMPI_H(MPI_Op, 14)
#define MPI_IN_PLACE ((void*)-1)
#define MPI_BOTTOM ((void*)0)
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-2)
#define MPI_PROC_NULL (-3)
#define MPI_ROOT (-4)
#define MPI_UNDEFINED (-32766)
#define MPI_SUCCESS 0
#define MPI_ERR_OTHER 15
#define MPI_MAX_PROCESSOR_NAME 64
#define MPI_MAX_ERROR_STRING 64
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3
#define MPI_COMM_TYPE_SHARED 1
#define MPI_VERSION 3
#define MPI_SUBVERSION 1
int MPI_Init(int*, char***); int MPI_Init_thread(int*, char***, int, int*); int MPI_Finalize(void);
int MPI_Initialized(int*); int MPI_Finalized(int*); int MPI_Abort(MPI_Comm, int);
double MPI_Wtime(void); double MPI_Wtick(void); int MPI_Get_processor_name(char*, int*);
int MPI_Comm_rank(MPI_Comm, int*); int MPI_Comm_size(MPI_Comm, int*);
int MPI_Comm_dup(MPI_Comm, MPI_Comm*); int MPI_Comm_split(MPI_Comm, int, int, MPI_Comm*); int MPI_Comm_free(MPI_Comm*);
int MPI_Comm_compare(MPI_Comm, MPI_Comm, int*);
int MPI_Type_contiguous(int, MPI_Datatype, MPI_Datatype*); int MPI_Type_commit(MPI_Datatype*); int MPI_Type_free(MPI_Datatype*);
int MPI_Type_size(MPI_Datatype, int*); int MPI_Type_get_extent(MPI_Datatype, MPI_Aint*, MPI_Aint*);
int MPI_Send(const void*, int, MPI_Datatype, int, int, MPI_Comm); int MPI_Ssend(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Rsend(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Bsend(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Recv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Sendrecv(const void*, int, MPI_Datatype, int, int, void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Isend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Issend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Irecv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Wait(MPI_Request*, MPI_Status*); int MPI_Waitall(int, MPI_Request*, MPI_Status*);
int MPI_Waitany(int, MPI_Request*, int*, MPI_Status*); int MPI_Test(MPI_Request*, int*, MPI_Status*);
int MPI_Testall(int, MPI_Request*, int*, MPI_Status*); int MPI_Waitsome(int, MPI_Request*, int*, int*, MPI_Status*);
int MPI_Request_free(MPI_Request*);
int MPI_Probe(int, int, MPI_Comm, MPI_Status*); int MPI_Iprobe(int, int, MPI_Comm, int*, MPI_Status*);
int MPI_Get_count(const MPI_Status*, MPI_Datatype, int*);
int MPI_Barrier(MPI_Comm); int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Reduce(const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Scan(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Exscan(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Reduce_scatter_block(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Gather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Gatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, int, MPI_Comm);
int MPI_Allgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Allgatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, MPI_Comm);
int MPI_Scatter(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Scatterv(const void*, const int*, const int*, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Alltoall(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Alltoallv(const void*, const int*, const int*, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, MPI_Comm);
int MPI_Ibarrier(MPI_Comm, MPI_Request*); int MPI_Ibcast(void*, int, MPI_Datatype, int, MPI_Comm, MPI_Request*);
int MPI_Ireduce(const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm, MPI_Request*);
int MPI_Iallreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm, MPI_Request*);
int MPI_Iscan(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm, MPI_Request*);
int MPI_Iexscan(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm, MPI_Request*);
int MPI_Igather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm, MPI_Request*);
int MPI_Igatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, int, MPI_Comm, MPI_Request*);
int MPI_Iallgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm, MPI_Request*);
int MPI_Iallgatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, MPI_Comm, MPI_Request*);
int MPI_Iscatter(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm, MPI_Request*);
int MPI_Iscatterv(const void*, const int*, const int*, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm, MPI_Request*);
int MPI_Ialltoall(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm, MPI_Request*);
int MPI_Ialltoallv(const void*, const int*, const int*, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, MPI_Comm, MPI_Request*);
int MPI_Reduce_scatter(const void*, void*, const int*, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Testany(int, MPI_Request*, int*, int*, MPI_Status*); int MPI_Testsome(int, MPI_Request*, int*, int*, MPI_Status*);
int MPI_Sendrecv_replace(void*, int, MPI_Datatype, int, int, int, int, MPI_Comm, MPI_Status*);
int MPI_Error_string(int, char*, int*);
#define MPI_MODE_NOCHECK 1024
int MPI_Win_create(void*, MPI_Aint, int, MPI_Info, MPI_Comm, MPI_Win*);
int MPI_Win_allocate(MPI_Aint, int, MPI_Info, MPI_Comm, void*, MPI_Win*);
int MPI_Win_free(MPI_Win*); int MPI_Win_lock_all(int, MPI_Win); int MPI_Win_unlock_all(MPI_Win);
int MPI_Win_flush_local_all(MPI_Win); int MPI_Win_flush_all(MPI_Win); int MPI_Win_fence(int, MPI_Win);
int MPI_Get(void*, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Win);
#ifdef __cplusplus
}
#endif
