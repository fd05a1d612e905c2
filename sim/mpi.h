/* simmpi: the MPI subset OSHMPI uses (and its obvious siblings), run by a deterministic
 * adversarial scheduler in one process.  See simmpi.c. */
#ifndef SIMMPI_H
#define SIMMPI_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
#define MPI_VERSION 3
#define MPI_SUBVERSION 1
#define SIMMPI 1
typedef ptrdiff_t MPI_Aint;
typedef long long MPI_Count;
typedef long long MPI_Offset;
typedef struct sim_comm_h *MPI_Comm;
typedef struct sim_group_h *MPI_Group;
typedef struct sim_type_h *MPI_Datatype;
typedef struct sim_req_h *MPI_Request;
typedef struct sim_win_h *MPI_Win;
typedef struct sim_info_h *MPI_Info;
typedef struct sim_op_h *MPI_Op;
typedef struct sim_errh_h *MPI_Errhandler;
typedef struct sim_msg_h *MPI_Message;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR; size_t nbytes; } MPI_Status;
#define H_(T, n) ((T) (uintptr_t) (n))
#define MPI_SUCCESS 0
#define MPI_ERR_OTHER 15
#define MPI_UNDEFINED (-32766)
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_PROC_NULL (-2)
#define MPI_ROOT (-3)
#define MPI_IN_PLACE ((void *) 1)
#define MPI_BOTTOM ((void *) 0)
#define MPI_STATUS_IGNORE ((MPI_Status *) 0)
#define MPI_STATUSES_IGNORE ((MPI_Status *) 0)
#define MPI_MAX_INFO_VAL 256
#define MPI_MAX_INFO_KEY 36
#define MPI_MAX_PROCESSOR_NAME 256
#define MPI_MAX_ERROR_STRING 256
#define MPI_COMM_NULL H_(MPI_Comm, 0x10)
#define MPI_COMM_WORLD H_(MPI_Comm, 0x11)
#define MPI_COMM_SELF H_(MPI_Comm, 0x12)
#define MPI_GROUP_NULL H_(MPI_Group, 0x20)
#define MPI_GROUP_EMPTY H_(MPI_Group, 0x21)
#define MPI_REQUEST_NULL H_(MPI_Request, 0x30)
#define MPI_WIN_NULL H_(MPI_Win, 0x40)
#define MPI_INFO_NULL H_(MPI_Info, 0x50)
#define MPI_ERRORS_ARE_FATAL H_(MPI_Errhandler, 0x60)
#define MPI_ERRORS_RETURN H_(MPI_Errhandler, 0x61)
#define MPI_MESSAGE_NULL H_(MPI_Message, 0x70)
#define MPI_COMM_TYPE_SHARED 1
#define MPI_IDENT 0
#define MPI_CONGRUENT 1
#define MPI_SIMILAR 2
#define MPI_UNEQUAL 3
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3
#define MPI_TAG_UB 1
#define MPI_WTIME_IS_GLOBAL 2
#define MPI_WIN_BASE 11
#define MPI_WIN_SIZE 12
#define MPI_WIN_DISP_UNIT 13
#define MPI_WIN_CREATE_FLAVOR 14
#define MPI_WIN_MODEL 15
#define MPI_WIN_SEPARATE 1
#define MPI_WIN_UNIFIED 2
#define MPI_MODE_NOCHECK 1
#define MPI_MODE_NOSTORE 2
#define MPI_MODE_NOPUT 4
#define MPI_MODE_NOPRECEDE 8
#define MPI_MODE_NOSUCCEED 16
#define MPI_LOCK_EXCLUSIVE 1
#define MPI_LOCK_SHARED 2
enum { SIM_T_NULL = 0x100, SIM_T_BYTE, SIM_T_CHAR, SIM_T_SCHAR, SIM_T_SHORT, SIM_T_INT, SIM_T_LONG,
    SIM_T_LLONG, SIM_T_UCHAR, SIM_T_USHORT, SIM_T_UINT, SIM_T_ULONG, SIM_T_ULLONG, SIM_T_I8, SIM_T_I16,
    SIM_T_I32, SIM_T_I64, SIM_T_U8, SIM_T_U16, SIM_T_U32, SIM_T_U64, SIM_T_FLOAT, SIM_T_DOUBLE,
    SIM_T_LDOUBLE, SIM_T_CFLOAT, SIM_T_CDOUBLE, SIM_T_CLDOUBLE, SIM_T_AINT, SIM_T_COUNT, SIM_T_OFFSET,
    SIM_T_BOOL, SIM_T_WCHAR, SIM_T_LAST };
#define MPI_DATATYPE_NULL H_(MPI_Datatype, SIM_T_NULL)
#define MPI_BYTE H_(MPI_Datatype, SIM_T_BYTE)
#define MPI_PACKED MPI_BYTE
#define MPI_CHAR H_(MPI_Datatype, SIM_T_CHAR)
#define MPI_SIGNED_CHAR H_(MPI_Datatype, SIM_T_SCHAR)
#define MPI_SHORT H_(MPI_Datatype, SIM_T_SHORT)
#define MPI_INT H_(MPI_Datatype, SIM_T_INT)
#define MPI_LONG H_(MPI_Datatype, SIM_T_LONG)
#define MPI_LONG_LONG H_(MPI_Datatype, SIM_T_LLONG)
#define MPI_LONG_LONG_INT MPI_LONG_LONG
#define MPI_UNSIGNED_CHAR H_(MPI_Datatype, SIM_T_UCHAR)
#define MPI_UNSIGNED_SHORT H_(MPI_Datatype, SIM_T_USHORT)
#define MPI_UNSIGNED H_(MPI_Datatype, SIM_T_UINT)
#define MPI_UNSIGNED_LONG H_(MPI_Datatype, SIM_T_ULONG)
#define MPI_UNSIGNED_LONG_LONG H_(MPI_Datatype, SIM_T_ULLONG)
#define MPI_INT8_T H_(MPI_Datatype, SIM_T_I8)
#define MPI_INT16_T H_(MPI_Datatype, SIM_T_I16)
#define MPI_INT32_T H_(MPI_Datatype, SIM_T_I32)
#define MPI_INT64_T H_(MPI_Datatype, SIM_T_I64)
#define MPI_UINT8_T H_(MPI_Datatype, SIM_T_U8)
#define MPI_UINT16_T H_(MPI_Datatype, SIM_T_U16)
#define MPI_UINT32_T H_(MPI_Datatype, SIM_T_U32)
#define MPI_UINT64_T H_(MPI_Datatype, SIM_T_U64)
#define MPI_FLOAT H_(MPI_Datatype, SIM_T_FLOAT)
#define MPI_DOUBLE H_(MPI_Datatype, SIM_T_DOUBLE)
#define MPI_LONG_DOUBLE H_(MPI_Datatype, SIM_T_LDOUBLE)
#define MPI_C_FLOAT_COMPLEX H_(MPI_Datatype, SIM_T_CFLOAT)
#define MPI_C_COMPLEX MPI_C_FLOAT_COMPLEX
#define MPI_C_DOUBLE_COMPLEX H_(MPI_Datatype, SIM_T_CDOUBLE)
#define MPI_C_LONG_DOUBLE_COMPLEX H_(MPI_Datatype, SIM_T_CLDOUBLE)
#define MPI_AINT H_(MPI_Datatype, SIM_T_AINT)
#define MPI_COUNT H_(MPI_Datatype, SIM_T_COUNT)
#define MPI_OFFSET H_(MPI_Datatype, SIM_T_OFFSET)
#define MPI_C_BOOL H_(MPI_Datatype, SIM_T_BOOL)
#define MPI_WCHAR H_(MPI_Datatype, SIM_T_WCHAR)
enum { SIM_O_NULL = 0x200, SIM_O_MAX, SIM_O_MIN, SIM_O_SUM, SIM_O_PROD, SIM_O_LAND, SIM_O_BAND, SIM_O_LOR,
    SIM_O_BOR, SIM_O_LXOR, SIM_O_BXOR, SIM_O_REPLACE, SIM_O_NOOP, SIM_O_LAST };
#define MPI_OP_NULL H_(MPI_Op, SIM_O_NULL)
#define MPI_MAX H_(MPI_Op, SIM_O_MAX)
#define MPI_MIN H_(MPI_Op, SIM_O_MIN)
#define MPI_SUM H_(MPI_Op, SIM_O_SUM)
#define MPI_PROD H_(MPI_Op, SIM_O_PROD)
#define MPI_LAND H_(MPI_Op, SIM_O_LAND)
#define MPI_BAND H_(MPI_Op, SIM_O_BAND)
#define MPI_LOR H_(MPI_Op, SIM_O_LOR)
#define MPI_BOR H_(MPI_Op, SIM_O_BOR)
#define MPI_LXOR H_(MPI_Op, SIM_O_LXOR)
#define MPI_BXOR H_(MPI_Op, SIM_O_BXOR)
#define MPI_REPLACE H_(MPI_Op, SIM_O_REPLACE)
#define MPI_NO_OP H_(MPI_Op, SIM_O_NOOP)

int MPI_Init(int *, char ***);
int MPI_Init_thread(int *, char ***, int, int *);
int MPI_Initialized(int *);
int MPI_Finalize(void);
int MPI_Finalized(int *);
int MPI_Query_thread(int *);
int MPI_Is_thread_main(int *);
int MPI_Abort(MPI_Comm, int);
int MPI_Get_processor_name(char *, int *);
double MPI_Wtime(void);
double MPI_Wtick(void);
int MPI_Error_string(int, char *, int *);
int MPI_Get_address(const void *, MPI_Aint *);
MPI_Aint MPI_Aint_add(MPI_Aint, MPI_Aint);
MPI_Aint MPI_Aint_diff(MPI_Aint, MPI_Aint);

int MPI_Comm_rank(MPI_Comm, int *);
int MPI_Comm_size(MPI_Comm, int *);
int MPI_Comm_dup(MPI_Comm, MPI_Comm *);
int MPI_Comm_idup(MPI_Comm, MPI_Comm *, MPI_Request *);
int MPI_Comm_dup_with_info(MPI_Comm, MPI_Info, MPI_Comm *);
int MPI_Comm_split(MPI_Comm, int, int, MPI_Comm *);
int MPI_Comm_split_type(MPI_Comm, int, int, MPI_Info, MPI_Comm *);
int MPI_Comm_create(MPI_Comm, MPI_Group, MPI_Comm *);
int MPI_Comm_create_group(MPI_Comm, MPI_Group, int, MPI_Comm *);
int MPI_Comm_group(MPI_Comm, MPI_Group *);
int MPI_Comm_free(MPI_Comm *);
int MPI_Comm_compare(MPI_Comm, MPI_Comm, int *);
int MPI_Comm_get_attr(MPI_Comm, int, void *, int *);
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler);
int MPI_Win_set_errhandler(MPI_Win, MPI_Errhandler);
int MPI_Comm_set_info(MPI_Comm, MPI_Info);
int MPI_Win_set_info(MPI_Win, MPI_Info);
int MPI_Group_size(MPI_Group, int *);
int MPI_Group_rank(MPI_Group, int *);
int MPI_Group_incl(MPI_Group, int, const int *, MPI_Group *);
int MPI_Group_excl(MPI_Group, int, const int *, MPI_Group *);
int MPI_Group_union(MPI_Group, MPI_Group, MPI_Group *);
int MPI_Group_intersection(MPI_Group, MPI_Group, MPI_Group *);
int MPI_Group_difference(MPI_Group, MPI_Group, MPI_Group *);
int MPI_Group_compare(MPI_Group, MPI_Group, int *);
int MPI_Group_range_incl(MPI_Group, int, int[][3], MPI_Group *);
int MPI_Group_free(MPI_Group *);
int MPI_Group_translate_ranks(MPI_Group, int, const int *, MPI_Group, int *);

int MPI_Info_create(MPI_Info *);
int MPI_Info_set(MPI_Info, const char *, const char *);
int MPI_Info_get(MPI_Info, const char *, int, char *, int *);
int MPI_Info_dup(MPI_Info, MPI_Info *);
int MPI_Comm_set_name(MPI_Comm, const char *);
int MPI_Win_set_name(MPI_Win, const char *);
int MPI_Get_version(int *, int *);
int MPI_Info_free(MPI_Info *);

int MPI_Type_size(MPI_Datatype, int *);
int MPI_Type_get_extent(MPI_Datatype, MPI_Aint *, MPI_Aint *);
int MPI_Type_contiguous(int, MPI_Datatype, MPI_Datatype *);
int MPI_Type_vector(int, int, int, MPI_Datatype, MPI_Datatype *);
int MPI_Type_hvector(int, int, MPI_Aint, MPI_Datatype, MPI_Datatype *);
int MPI_Type_create_hvector(int, int, MPI_Aint, MPI_Datatype, MPI_Datatype *);
int MPI_Type_create_resized(MPI_Datatype, MPI_Aint, MPI_Aint, MPI_Datatype *);
int MPI_Type_create_indexed_block(int, int, const int *, MPI_Datatype, MPI_Datatype *);
int MPI_Type_indexed(int, const int *, const int *, MPI_Datatype, MPI_Datatype *);
int MPI_Type_create_hindexed(int, const int *, const MPI_Aint *, MPI_Datatype, MPI_Datatype *);
int MPI_Type_create_hindexed_block(int, int, const MPI_Aint *, MPI_Datatype, MPI_Datatype *);
int MPI_Type_get_true_extent(MPI_Datatype, MPI_Aint *, MPI_Aint *);
int MPI_Type_dup(MPI_Datatype, MPI_Datatype *);
int MPI_Type_commit(MPI_Datatype *);
int MPI_Type_free(MPI_Datatype *);
int MPI_Get_count(const MPI_Status *, MPI_Datatype, int *);
int MPI_Get_elements(const MPI_Status *, MPI_Datatype, int *);

int MPI_Send(const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Ssend(const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Isend(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Issend(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Recv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *);
int MPI_Irecv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Sendrecv(const void *, int, MPI_Datatype, int, int, void *, int, MPI_Datatype, int, int, MPI_Comm,
                 MPI_Status *);
int MPI_Probe(int, int, MPI_Comm, MPI_Status *);
int MPI_Iprobe(int, int, MPI_Comm, int *, MPI_Status *);
int MPI_Mprobe(int, int, MPI_Comm, MPI_Message *, MPI_Status *);
int MPI_Improbe(int, int, MPI_Comm, int *, MPI_Message *, MPI_Status *);
int MPI_Mrecv(void *, int, MPI_Datatype, MPI_Message *, MPI_Status *);
int MPI_Imrecv(void *, int, MPI_Datatype, MPI_Message *, MPI_Request *);
int MPI_Wait(MPI_Request *, MPI_Status *);
int MPI_Waitall(int, MPI_Request[], MPI_Status[]);
int MPI_Waitany(int, MPI_Request[], int *, MPI_Status *);
int MPI_Test(MPI_Request *, int *, MPI_Status *);
int MPI_Testall(int, MPI_Request[], int *, MPI_Status[]);
int MPI_Testany(int, MPI_Request[], int *, int *, MPI_Status *);
int MPI_Testsome(int, MPI_Request[], int *, int[], MPI_Status[]);
int MPI_Waitsome(int, MPI_Request[], int *, int[], MPI_Status[]);
int MPI_Request_get_status(MPI_Request, int *, MPI_Status *);
int MPI_Cancel(MPI_Request *);
int MPI_Request_free(MPI_Request *);
int MPI_Test_cancelled(const MPI_Status *, int *);

int MPI_Barrier(MPI_Comm);
int MPI_Bcast(void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Gather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Allgather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm);
int MPI_Allgatherv(const void *, int, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, MPI_Comm);
int MPI_Alltoall(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm);
int MPI_Alltoallv(const void *, const int *, const int *, MPI_Datatype, void *, const int *, const int *, MPI_Datatype,
                  MPI_Comm);
int MPI_Ialltoallv(const void *, const int *, const int *, MPI_Datatype, void *, const int *, const int *,
                   MPI_Datatype, MPI_Comm, MPI_Request *);
int MPI_Gatherv(const void *, int, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, int, MPI_Comm);
int MPI_Igatherv(const void *, int, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, int, MPI_Comm,
                 MPI_Request *);
int MPI_Scatter(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Scatterv(const void *, const int *, const int *, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Iscatter(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm, MPI_Request *);
int MPI_Scan(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Exscan(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Reduce(const void *, void *, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Allreduce(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Ibarrier(MPI_Comm, MPI_Request *);
int MPI_Ibcast(void *, int, MPI_Datatype, int, MPI_Comm, MPI_Request *);
int MPI_Igather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm, MPI_Request *);
int MPI_Iallgather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm, MPI_Request *);
int MPI_Iallgatherv(const void *, int, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, MPI_Comm,
                    MPI_Request *);
int MPI_Ialltoall(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm, MPI_Request *);
int MPI_Ireduce(const void *, void *, int, MPI_Datatype, MPI_Op, int, MPI_Comm, MPI_Request *);
int MPI_Iallreduce(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm, MPI_Request *);
int MPI_Reduce_local(const void *, void *, int, MPI_Datatype, MPI_Op);

int MPI_Win_create(void *, MPI_Aint, int, MPI_Info, MPI_Comm, MPI_Win *);
int MPI_Win_allocate(MPI_Aint, int, MPI_Info, MPI_Comm, void *, MPI_Win *);
int MPI_Win_create_dynamic(MPI_Info, MPI_Comm, MPI_Win *);
int MPI_Win_attach(MPI_Win, void *, MPI_Aint);
int MPI_Win_detach(MPI_Win, const void *);
int MPI_Win_free(MPI_Win *);
int MPI_Win_get_group(MPI_Win, MPI_Group *);
int MPI_Win_get_attr(MPI_Win, int, void *, int *);
int MPI_Win_lock_all(int, MPI_Win);
int MPI_Win_unlock_all(MPI_Win);
int MPI_Win_lock(int, int, int, MPI_Win);
int MPI_Win_unlock(int, MPI_Win);
int MPI_Win_fence(int, MPI_Win);
int MPI_Win_flush(int, MPI_Win);
int MPI_Win_flush_all(MPI_Win);
int MPI_Win_flush_local(int, MPI_Win);
int MPI_Win_flush_local_all(MPI_Win);
int MPI_Win_sync(MPI_Win);
int MPI_Put(const void *, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Win);
int MPI_Get(void *, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Win);
int MPI_Rput(const void *, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Win, MPI_Request *);
int MPI_Rget(void *, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Win, MPI_Request *);
int MPI_Accumulate(const void *, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Op, MPI_Win);
int MPI_Get_accumulate(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Aint, int,
                       MPI_Datatype, MPI_Op, MPI_Win);
int MPI_Raccumulate(const void *, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Op, MPI_Win,
                    MPI_Request *);
int MPI_Rget_accumulate(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Aint, int,
                        MPI_Datatype, MPI_Op, MPI_Win, MPI_Request *);
int MPI_Fetch_and_op(const void *, void *, MPI_Datatype, int, MPI_Aint, MPI_Op, MPI_Win);
int MPI_Compare_and_swap(const void *, const void *, void *, MPI_Datatype, int, MPI_Aint, MPI_Win);

typedef struct sim_cvar_h *MPI_T_cvar_handle;
#define MPI_T_ERR_INVALID_NAME 73
#define MPI_T_CVAR_HANDLE_NULL ((MPI_T_cvar_handle) 0)
int MPI_T_init_thread(int, int *);
int MPI_T_finalize(void);
int MPI_T_cvar_get_index(const char *, int *);
int MPI_T_cvar_handle_alloc(int, void *, MPI_T_cvar_handle *, int *);
int MPI_T_cvar_handle_free(MPI_T_cvar_handle *);
int MPI_T_cvar_read(MPI_T_cvar_handle, void *);
int MPI_T_cvar_write(MPI_T_cvar_handle, const void *);
int MPI_T_cvar_get_num(int *);

/* Interface between the driver (inside each PE) and the simulator */
int sim_pe(void);
int sim_npes(void);
void sim_log(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void sim_diff(void);
void sim_point(const char *what);
void sim_pause(int n);
int sim_thr_create(void *, const void *, void *(*)(void *), void *);
void sim_thr_join(int first);
int sim_nthr(void);
void sim_progress(void);
#define SIM_MIXED (-888888)     /* no value for the moment: not a change yet */
void sim_watch(int pe, int cell, void *addr, int size, int (*dec)(int cell, const void *addr));
void sim_unwatch(int pe, int cell);
int sim_window(int k, char **base, long *size);
void sim_rewatch(int pe);
void sim_logging(int on);
unsigned sim_rand(unsigned n);
const char *sim_script(void);
char *sim_getenv(const char *);
int sim_atexit(void (*)(void));
void sim_exit(int) __attribute__((noreturn));
int sim_steps(void);
void sim_turn(void);
void sim_settle(void);
#ifdef __cplusplus
}
#endif
#endif
