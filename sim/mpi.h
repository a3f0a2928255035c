/* Simulated MPI: the seam between ExSeisDat and the outside world.
 * A broad subset of MPI-3.1 implemented by sim/simmpi.cc on top of the seeded
 * scheduler in sim/sim.cc.  Handles are pointers, as in Open MPI. */
#ifndef SIM_MPI_H
#define SIM_MPI_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif

typedef intptr_t MPI_Aint;
typedef long long MPI_Offset;
typedef long long MPI_Count;
typedef int MPI_Fint;
typedef struct sim_comm* MPI_Comm;
typedef struct sim_group* MPI_Group;
typedef struct sim_type* MPI_Datatype;
typedef struct sim_op* MPI_Op;
typedef struct sim_req* MPI_Request;
typedef struct sim_msg* MPI_Message;
typedef struct sim_win* MPI_Win;
typedef struct sim_info* MPI_Info;
typedef struct sim_file* MPI_File;
typedef struct sim_errh* MPI_Errhandler;

typedef struct MPI_Status {
    int MPI_SOURCE;
    int MPI_TAG;
    int MPI_ERROR;
    int _cancelled;
    size_t _ucount;
} MPI_Status;

typedef void(MPI_User_function)(void*, void*, int*, MPI_Datatype*);
typedef void(MPI_Comm_errhandler_function)(MPI_Comm*, int*, ...);
typedef void(MPI_File_errhandler_function)(MPI_File*, int*, ...);
typedef void(MPI_Win_errhandler_function)(MPI_Win*, int*, ...);

#define MPI_VERSION 3
#define MPI_SUBVERSION 1

extern struct sim_comm sim_comm_world_obj, sim_comm_self_obj;
#define MPI_COMM_WORLD (&sim_comm_world_obj)
#define MPI_COMM_SELF (&sim_comm_self_obj)
#define MPI_COMM_NULL ((MPI_Comm)0)
#define MPI_GROUP_NULL ((MPI_Group)0)
#define MPI_DATATYPE_NULL ((MPI_Datatype)0)
#define MPI_OP_NULL ((MPI_Op)0)
#define MPI_REQUEST_NULL ((MPI_Request)0)
#define MPI_WIN_NULL ((MPI_Win)0)
#define MPI_INFO_NULL ((MPI_Info)0)
#define MPI_FILE_NULL ((MPI_File)0)
#define MPI_ERRHANDLER_NULL ((MPI_Errhandler)0)
extern struct sim_errh sim_errh_return_obj, sim_errh_fatal_obj;
#define MPI_ERRORS_RETURN (&sim_errh_return_obj)
#define MPI_ERRORS_ARE_FATAL (&sim_errh_fatal_obj)

extern struct sim_type *sim_t_char, *sim_t_schar, *sim_t_uchar, *sim_t_byte,
    *sim_t_short, *sim_t_ushort, *sim_t_int, *sim_t_uint, *sim_t_long,
    *sim_t_ulong, *sim_t_llong, *sim_t_ullong, *sim_t_float, *sim_t_double,
    *sim_t_ldouble, *sim_t_bool, *sim_t_double_int, *sim_t_float_int,
    *sim_t_long_int, *sim_t_2int, *sim_t_packed, *sim_t_i8, *sim_t_u8, *sim_t_i16,
    *sim_t_u16, *sim_t_i32, *sim_t_u32, *sim_t_i64, *sim_t_u64, *sim_t_aint,
    *sim_t_offset, *sim_t_wchar;
#define MPI_CHAR sim_t_char
#define MPI_SIGNED_CHAR sim_t_schar
#define MPI_UNSIGNED_CHAR sim_t_uchar
#define MPI_BYTE sim_t_byte
#define MPI_PACKED sim_t_packed
#define MPI_SHORT sim_t_short
#define MPI_UNSIGNED_SHORT sim_t_ushort
#define MPI_INT sim_t_int
#define MPI_UNSIGNED sim_t_uint
#define MPI_LONG sim_t_long
#define MPI_UNSIGNED_LONG sim_t_ulong
#define MPI_LONG_LONG_INT sim_t_llong
#define MPI_LONG_LONG sim_t_llong
#define MPI_UNSIGNED_LONG_LONG sim_t_ullong
#define MPI_FLOAT sim_t_float
#define MPI_DOUBLE sim_t_double
#define MPI_LONG_DOUBLE sim_t_ldouble
#define MPI_C_BOOL sim_t_bool
#define MPI_CXX_BOOL sim_t_bool
#define MPI_DOUBLE_INT sim_t_double_int
#define MPI_FLOAT_INT sim_t_float_int
#define MPI_LONG_INT sim_t_long_int
#define MPI_2INT sim_t_2int
#define MPI_INT8_T sim_t_i8
#define MPI_UINT8_T sim_t_u8
#define MPI_INT16_T sim_t_i16
#define MPI_UINT16_T sim_t_u16
#define MPI_INT32_T sim_t_i32
#define MPI_UINT32_T sim_t_u32
#define MPI_INT64_T sim_t_i64
#define MPI_UINT64_T sim_t_u64
#define MPI_AINT sim_t_aint
#define MPI_OFFSET sim_t_offset
#define MPI_WCHAR sim_t_wchar

extern struct sim_op *sim_op_sum, *sim_op_prod, *sim_op_max, *sim_op_min,
    *sim_op_land, *sim_op_lor, *sim_op_lxor, *sim_op_band, *sim_op_bor,
    *sim_op_bxor, *sim_op_maxloc, *sim_op_minloc, *sim_op_replace, *sim_op_noop;
#define MPI_SUM sim_op_sum
#define MPI_PROD sim_op_prod
#define MPI_MAX sim_op_max
#define MPI_MIN sim_op_min
#define MPI_LAND sim_op_land
#define MPI_LOR sim_op_lor
#define MPI_LXOR sim_op_lxor
#define MPI_BAND sim_op_band
#define MPI_BOR sim_op_bor
#define MPI_BXOR sim_op_bxor
#define MPI_MAXLOC sim_op_maxloc
#define MPI_MINLOC sim_op_minloc
#define MPI_REPLACE sim_op_replace
#define MPI_NO_OP sim_op_noop

#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_IN_PLACE ((void*)1)
#define MPI_BOTTOM ((void*)0)
#define MPI_PROC_NULL (-2)
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_ROOT (-4)
#define MPI_UNDEFINED (-32766)
#define MPI_KEYVAL_INVALID (-1)
#define MPI_MAX_ERROR_STRING 256
#define MPI_MAX_PROCESSOR_NAME 256
#define MPI_MAX_LIBRARY_VERSION_STRING 256
#define MPI_MAX_INFO_KEY 36
#define MPI_MAX_INFO_VAL 256
#define MPI_MAX_OBJECT_NAME 64
#define MPI_MAX_DATAREP_STRING 128
#define MPI_TAG_UB 0

enum {
    MPI_SUCCESS = 0, MPI_ERR_BUFFER = 1, MPI_ERR_COUNT, MPI_ERR_TYPE, MPI_ERR_TAG,
    MPI_ERR_COMM, MPI_ERR_RANK, MPI_ERR_REQUEST, MPI_ERR_ROOT, MPI_ERR_GROUP,
    MPI_ERR_OP, MPI_ERR_TOPOLOGY, MPI_ERR_DIMS, MPI_ERR_ARG, MPI_ERR_UNKNOWN,
    MPI_ERR_TRUNCATE, MPI_ERR_OTHER, MPI_ERR_INTERN, MPI_ERR_IN_STATUS,
    MPI_ERR_PENDING, MPI_ERR_ACCESS, MPI_ERR_AMODE, MPI_ERR_ASSERT,
    MPI_ERR_BAD_FILE, MPI_ERR_BASE, MPI_ERR_CONVERSION, MPI_ERR_DISP,
    MPI_ERR_DUP_DATAREP, MPI_ERR_FILE_EXISTS, MPI_ERR_FILE_IN_USE, MPI_ERR_FILE,
    MPI_ERR_INFO_KEY, MPI_ERR_INFO_NOKEY, MPI_ERR_INFO_VALUE, MPI_ERR_INFO,
    MPI_ERR_IO, MPI_ERR_KEYVAL, MPI_ERR_LOCKTYPE, MPI_ERR_NAME, MPI_ERR_NO_MEM,
    MPI_ERR_NOT_SAME, MPI_ERR_NO_SPACE, MPI_ERR_NO_SUCH_FILE, MPI_ERR_PORT,
    MPI_ERR_QUOTA, MPI_ERR_READ_ONLY, MPI_ERR_RMA_CONFLICT, MPI_ERR_RMA_SYNC,
    MPI_ERR_SERVICE, MPI_ERR_SIZE, MPI_ERR_SPAWN, MPI_ERR_UNSUPPORTED_DATAREP,
    MPI_ERR_UNSUPPORTED_OPERATION, MPI_ERR_WIN, MPI_ERR_RMA_RANGE,
    MPI_ERR_RMA_ATTACH, MPI_ERR_RMA_SHARED, MPI_ERR_LASTCODE = 91
};
enum { MPI_IDENT = 0, MPI_CONGRUENT, MPI_SIMILAR, MPI_UNEQUAL };
enum { MPI_THREAD_SINGLE = 0, MPI_THREAD_FUNNELED, MPI_THREAD_SERIALIZED, MPI_THREAD_MULTIPLE };
#define MPI_MODE_CREATE 1
#define MPI_MODE_RDONLY 2
#define MPI_MODE_WRONLY 4
#define MPI_MODE_RDWR 8
#define MPI_MODE_DELETE_ON_CLOSE 16
#define MPI_MODE_UNIQUE_OPEN 32
#define MPI_MODE_EXCL 64
#define MPI_MODE_APPEND 128
#define MPI_MODE_SEQUENTIAL 256
#define MPI_MODE_NOCHECK 1
#define MPI_MODE_NOPRECEDE 2
#define MPI_MODE_NOPUT 4
#define MPI_MODE_NOSTORE 8
#define MPI_MODE_NOSUCCEED 16
#define MPI_LOCK_EXCLUSIVE 1
#define MPI_LOCK_SHARED 2
#define MPI_SEEK_SET 600
#define MPI_SEEK_CUR 602
#define MPI_SEEK_END 604
#define MPI_ORDER_C 0
#define MPI_ORDER_FORTRAN 1
#define MPI_COMM_TYPE_SHARED 0
#define MPI_DISPLACEMENT_CURRENT (-54278278)

int MPI_Init(int*, char***);
int MPI_Init_thread(int*, char***, int, int*);
int MPI_Query_thread(int*);
int MPI_Initialized(int*);
int MPI_Finalized(int*);
int MPI_Finalize(void);
int MPI_Abort(MPI_Comm, int);
double MPI_Wtime(void);
double MPI_Wtick(void);
int MPI_Get_processor_name(char*, int*);
int MPI_Get_library_version(char*, int*);
int MPI_Get_version(int*, int*);
int MPI_Error_string(int, char*, int*);
int MPI_Error_class(int, int*);
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler);
int MPI_File_set_errhandler(MPI_File, MPI_Errhandler);
int MPI_Win_set_errhandler(MPI_Win, MPI_Errhandler);
int MPI_Errhandler_free(MPI_Errhandler*);
int MPI_Alloc_mem(MPI_Aint, MPI_Info, void*);
int MPI_Free_mem(void*);
int MPI_Get_address(const void*, MPI_Aint*);

int MPI_Comm_rank(MPI_Comm, int*);
int MPI_Comm_size(MPI_Comm, int*);
int MPI_Comm_dup(MPI_Comm, MPI_Comm*);
int MPI_Comm_split(MPI_Comm, int, int, MPI_Comm*);
int MPI_Comm_split_type(MPI_Comm, int, int, MPI_Info, MPI_Comm*);
int MPI_Comm_free(MPI_Comm*);
int MPI_Comm_compare(MPI_Comm, MPI_Comm, int*);

int MPI_Send(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Ssend(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Rsend(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Bsend(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Recv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Isend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Issend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Irecv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Sendrecv(const void*, int, MPI_Datatype, int, int, void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Sendrecv_replace(void*, int, MPI_Datatype, int, int, int, int, MPI_Comm, MPI_Status*);
int MPI_Probe(int, int, MPI_Comm, MPI_Status*);
int MPI_Iprobe(int, int, MPI_Comm, int*, MPI_Status*);
int MPI_Wait(MPI_Request*, MPI_Status*);
int MPI_Waitall(int, MPI_Request*, MPI_Status*);
int MPI_Waitany(int, MPI_Request*, int*, MPI_Status*);
int MPI_Waitsome(int, MPI_Request*, int*, int*, MPI_Status*);
int MPI_Test(MPI_Request*, int*, MPI_Status*);
int MPI_Testall(int, MPI_Request*, int*, MPI_Status*);
int MPI_Testany(int, MPI_Request*, int*, int*, MPI_Status*);
int MPI_Request_free(MPI_Request*);
int MPI_Cancel(MPI_Request*);
int MPI_Test_cancelled(const MPI_Status*, int*);
int MPI_Get_count(const MPI_Status*, MPI_Datatype, int*);
int MPI_Get_elements(const MPI_Status*, MPI_Datatype, int*);

int MPI_Barrier(MPI_Comm);
int MPI_Ibarrier(MPI_Comm, MPI_Request*);
int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Gather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Gatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, int, MPI_Comm);
int MPI_Scatter(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Scatterv(const void*, const int*, const int*, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Allgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Allgatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, MPI_Comm);
int MPI_Alltoall(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Alltoallv(const void*, const int*, const int*, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, MPI_Comm);
int MPI_Reduce(const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Reduce_scatter_block(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Scan(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Exscan(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Iallreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm, MPI_Request*);
int MPI_Iallgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm, MPI_Request*);
int MPI_Ibcast(void*, int, MPI_Datatype, int, MPI_Comm, MPI_Request*);
int MPI_Op_create(MPI_User_function*, int, MPI_Op*);
int MPI_Op_free(MPI_Op*);

int MPI_Type_contiguous(int, MPI_Datatype, MPI_Datatype*);
int MPI_Type_vector(int, int, int, MPI_Datatype, MPI_Datatype*);
int MPI_Type_create_hvector(int, int, MPI_Aint, MPI_Datatype, MPI_Datatype*);
int MPI_Type_indexed(int, const int*, const int*, MPI_Datatype, MPI_Datatype*);
int MPI_Type_create_hindexed(int, const int*, const MPI_Aint*, MPI_Datatype, MPI_Datatype*);
int MPI_Type_create_hindexed_block(int, int, const MPI_Aint*, MPI_Datatype, MPI_Datatype*);
int MPI_Type_create_indexed_block(int, int, const int*, MPI_Datatype, MPI_Datatype*);
int MPI_Type_create_struct(int, const int*, const MPI_Aint*, const MPI_Datatype*, MPI_Datatype*);
int MPI_Type_create_resized(MPI_Datatype, MPI_Aint, MPI_Aint, MPI_Datatype*);
int MPI_Type_create_subarray(int, const int*, const int*, const int*, int, MPI_Datatype, MPI_Datatype*);
int MPI_Type_dup(MPI_Datatype, MPI_Datatype*);
int MPI_Type_commit(MPI_Datatype*);
int MPI_Type_free(MPI_Datatype*);
int MPI_Type_size(MPI_Datatype, int*);
int MPI_Type_get_extent(MPI_Datatype, MPI_Aint*, MPI_Aint*);
int MPI_Type_get_true_extent(MPI_Datatype, MPI_Aint*, MPI_Aint*);

int MPI_Win_create(void*, MPI_Aint, int, MPI_Info, MPI_Comm, MPI_Win*);
int MPI_Win_allocate(MPI_Aint, int, MPI_Info, MPI_Comm, void*, MPI_Win*);
int MPI_Win_free(MPI_Win*);
int MPI_Win_lock(int, int, int, MPI_Win);
int MPI_Win_unlock(int, MPI_Win);
int MPI_Win_lock_all(int, MPI_Win);
int MPI_Win_unlock_all(MPI_Win);
int MPI_Win_flush(int, MPI_Win);
int MPI_Win_flush_local(int, MPI_Win);
int MPI_Win_flush_all(MPI_Win);
int MPI_Win_flush_local_all(MPI_Win);
int MPI_Win_fence(int, MPI_Win);
int MPI_Win_sync(MPI_Win);
int MPI_Put(const void*, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Win);
int MPI_Get(void*, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Win);
int MPI_Accumulate(const void*, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Op, MPI_Win);
int MPI_Get_accumulate(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Op, MPI_Win);
int MPI_Fetch_and_op(const void*, void*, MPI_Datatype, int, MPI_Aint, MPI_Op, MPI_Win);

int MPI_Info_create(MPI_Info*);
int MPI_Info_set(MPI_Info, const char*, const char*);
int MPI_Info_get(MPI_Info, const char*, int, char*, int*);
int MPI_Info_delete(MPI_Info, const char*);
int MPI_Info_get_nkeys(MPI_Info, int*);
int MPI_Info_dup(MPI_Info, MPI_Info*);
int MPI_Info_free(MPI_Info*);

int MPI_File_open(MPI_Comm, const char*, int, MPI_Info, MPI_File*);
int MPI_File_close(MPI_File*);
int MPI_File_delete(const char*, MPI_Info);
int MPI_File_set_size(MPI_File, MPI_Offset);
int MPI_File_preallocate(MPI_File, MPI_Offset);
int MPI_File_get_size(MPI_File, MPI_Offset*);
int MPI_File_get_amode(MPI_File, int*);
int MPI_File_set_info(MPI_File, MPI_Info);
int MPI_File_get_info(MPI_File, MPI_Info*);
int MPI_File_set_view(MPI_File, MPI_Offset, MPI_Datatype, MPI_Datatype, const char*, MPI_Info);
int MPI_File_get_view(MPI_File, MPI_Offset*, MPI_Datatype*, MPI_Datatype*, char*);
int MPI_File_read_at(MPI_File, MPI_Offset, void*, int, MPI_Datatype, MPI_Status*);
int MPI_File_read_at_all(MPI_File, MPI_Offset, void*, int, MPI_Datatype, MPI_Status*);
int MPI_File_write_at(MPI_File, MPI_Offset, const void*, int, MPI_Datatype, MPI_Status*);
int MPI_File_write_at_all(MPI_File, MPI_Offset, const void*, int, MPI_Datatype, MPI_Status*);
int MPI_File_iread_at(MPI_File, MPI_Offset, void*, int, MPI_Datatype, MPI_Request*);
int MPI_File_iwrite_at(MPI_File, MPI_Offset, const void*, int, MPI_Datatype, MPI_Request*);
int MPI_File_read(MPI_File, void*, int, MPI_Datatype, MPI_Status*);
int MPI_File_read_all(MPI_File, void*, int, MPI_Datatype, MPI_Status*);
int MPI_File_write(MPI_File, const void*, int, MPI_Datatype, MPI_Status*);
int MPI_File_write_all(MPI_File, const void*, int, MPI_Datatype, MPI_Status*);
int MPI_File_seek(MPI_File, MPI_Offset, int);
int MPI_File_get_position(MPI_File, MPI_Offset*);
int MPI_File_sync(MPI_File);
int MPI_File_set_atomicity(MPI_File, int);
int MPI_File_get_atomicity(MPI_File, int*);
int MPI_File_get_type_extent(MPI_File, MPI_Datatype, MPI_Aint*);
int MPI_File_get_byte_offset(MPI_File, MPI_Offset, MPI_Offset*);

extern struct sim_group* sim_group_empty;
#define MPI_GROUP_EMPTY sim_group_empty
#define MPI_MESSAGE_NULL ((MPI_Message)0)
int MPI_Iallgatherv(const void* sb, int sn, MPI_Datatype st, void* rb, const int* rn, const int* rd, MPI_Datatype rt, MPI_Comm c, MPI_Request* q);
int MPI_Igatherv(const void* sb, int sn, MPI_Datatype st, void* rb, const int* rn, const int* rd, MPI_Datatype rt, int root, MPI_Comm c, MPI_Request* q);
int MPI_Igather(const void* sb, int sn, MPI_Datatype st, void* rb, int rn, MPI_Datatype rt, int root, MPI_Comm c, MPI_Request* q);
int MPI_Iscatterv(const void* sb, const int* sn, const int* sd, MPI_Datatype st, void* rb, int rn, MPI_Datatype rt, int root, MPI_Comm c, MPI_Request* q);
int MPI_Iscatter(const void* sb, int sn, MPI_Datatype st, void* rb, int rn, MPI_Datatype rt, int root, MPI_Comm c, MPI_Request* q);
int MPI_Ialltoallv(const void* sb, const int* sn, const int* sd, MPI_Datatype st, void* rb, const int* rn, const int* rd, MPI_Datatype rt, MPI_Comm c, MPI_Request* q);
int MPI_Ialltoall(const void* sb, int sn, MPI_Datatype st, void* rb, int rn, MPI_Datatype rt, MPI_Comm c, MPI_Request* q);
int MPI_Ireduce(const void* sb, void* rb, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c, MPI_Request* q);
int MPI_Iscan(const void* sb, void* rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c, MPI_Request* q);
int MPI_Iexscan(const void* sb, void* rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c, MPI_Request* q);
int MPI_Reduce_scatter(const void* sb, void* rb, const int* n, MPI_Datatype dt, MPI_Op op, MPI_Comm c);
int MPI_Reduce_local(const void* a, void* b, int n, MPI_Datatype dt, MPI_Op op);
int MPI_Testsome(int n, MPI_Request* q, int* cnt, int* idx, MPI_Status* st);
int MPI_Request_get_status(MPI_Request q, int* f, MPI_Status* st);
int MPI_Mprobe(int s, int tag, MPI_Comm c, MPI_Message* o, MPI_Status* st);
int MPI_Improbe(int s, int tag, MPI_Comm c, int* f, MPI_Message* o, MPI_Status* st);
int MPI_Imrecv(void* b, int n, MPI_Datatype dt, MPI_Message* m, MPI_Request* q);
int MPI_Mrecv(void* b, int n, MPI_Datatype dt, MPI_Message* m, MPI_Status* st);
int MPI_Pack_size(int n, MPI_Datatype t, MPI_Comm, int* s);
int MPI_Pack(const void* b, int n, MPI_Datatype dt, void* o, int sz, int* pos, MPI_Comm);
int MPI_Unpack(const void* i, int sz, int* pos, void* b, int n, MPI_Datatype dt, MPI_Comm);
int MPI_Comm_group(MPI_Comm c, MPI_Group* g);
int MPI_Group_size(MPI_Group g, int* n);
int MPI_Group_rank(MPI_Group g, int* r);
int MPI_Group_incl(MPI_Group g, int n, const int* r, MPI_Group* o);
int MPI_Group_excl(MPI_Group g, int n, const int* r, MPI_Group* o);
int MPI_Group_range_incl(MPI_Group g, int n, int (*r)[3], MPI_Group* o);
int MPI_Group_translate_ranks(MPI_Group a, int n, const int* r, MPI_Group b, int* o);
int MPI_Group_free(MPI_Group* g);
int MPI_Comm_create(MPI_Comm c, MPI_Group g, MPI_Comm* o);
int MPI_Comm_set_name(MPI_Comm c, const char*);
int MPI_Comm_get_name(MPI_Comm c, char* n, int* l);
int MPI_Comm_test_inter(MPI_Comm c, int* f);
int MPI_Comm_dup_with_info(MPI_Comm c, MPI_Info, MPI_Comm* o);
int MPI_Comm_get_attr(MPI_Comm, int k, void* v, int* f);
int MPI_Comm_get_errhandler(MPI_Comm, MPI_Errhandler* h);
int MPI_File_get_errhandler(MPI_File, MPI_Errhandler* h);
int MPI_Is_thread_main(int* f);
int MPI_Type_size_x(MPI_Datatype t, MPI_Count* n);
int MPI_Type_get_extent_x(MPI_Datatype t, MPI_Count* l, MPI_Count* e);
int MPI_Get_elements_x(const MPI_Status* s, MPI_Datatype dt, MPI_Count* n);
int MPI_Type_set_name(MPI_Datatype, const char*);
int MPI_Win_set_name(MPI_Win, const char*);
int MPI_Info_get_valuelen(MPI_Info i, const char* k, int* n, int* f);
int MPI_Info_get_nthkey(MPI_Info i, int n, char* k);
int MPI_Rput(const void* ob, int on, MPI_Datatype ot, int target, MPI_Aint disp, int tn, MPI_Datatype tt, MPI_Win w, MPI_Request* q);
int MPI_Rget(void* ob, int on, MPI_Datatype ot, int target, MPI_Aint disp, int tn, MPI_Datatype tt, MPI_Win w, MPI_Request* q);
int MPI_Raccumulate(const void* ob, int on, MPI_Datatype ot, int target, MPI_Aint disp, int tn, MPI_Datatype tt, MPI_Op op, MPI_Win w, MPI_Request* q);
int MPI_File_iread(MPI_File f, void* b, int n, MPI_Datatype t, MPI_Request* q);
int MPI_File_iwrite(MPI_File f, const void* b, int n, MPI_Datatype t, MPI_Request* q);
int MPI_File_iread_all(MPI_File f, void* b, int n, MPI_Datatype t, MPI_Request* q);
int MPI_File_iwrite_all(MPI_File f, const void* b, int n, MPI_Datatype t, MPI_Request* q);
int MPI_File_iread_at_all(MPI_File f, MPI_Offset o, void* b, int n, MPI_Datatype t, MPI_Request* q);
int MPI_File_iwrite_at_all(MPI_File f, MPI_Offset o, const void* b, int n, MPI_Datatype t, MPI_Request* q);
int MPI_File_read_at_all_begin(MPI_File f, MPI_Offset o, void* b, int n, MPI_Datatype t);
int MPI_File_write_at_all_begin(MPI_File f, MPI_Offset o, const void* b, int n, MPI_Datatype t);
int MPI_File_read_all_begin(MPI_File f, void* b, int n, MPI_Datatype t);
int MPI_File_write_all_begin(MPI_File f, const void* b, int n, MPI_Datatype t);
int MPI_File_read_at_all_end(MPI_File f, void*, MPI_Status* s);
int MPI_File_write_at_all_end(MPI_File f, const void*, MPI_Status* s);
int MPI_File_read_all_end(MPI_File f, void*, MPI_Status* s);
int MPI_File_write_all_end(MPI_File f, const void*, MPI_Status* s);

#ifdef __cplusplus
}
#endif
#endif
