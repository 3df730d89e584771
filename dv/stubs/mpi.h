// Deterministic in-process MPI used only to run the real fftMPI sources for replay.
#ifndef FAKEMPI_MPI_H
#define FAKEMPI_MPI_H
#include "stdint.h"
#include "stddef.h"
#ifdef __cplusplus
extern "C" {
#endif
typedef struct fm_comm *MPI_Comm;
typedef struct fm_group *MPI_Group;
typedef struct fm_req *MPI_Request;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef int MPI_Fint;
typedef struct MPI_Status { int MPI_SOURCE, MPI_TAG, MPI_ERROR; size_t fm_count; } MPI_Status;
extern MPI_Comm fm_world_handle(void);
#define MPI_COMM_WORLD (fm_world_handle())
#define MPI_COMM_NULL ((MPI_Comm)0)
#define MPI_COMM_SELF (fm_self_handle())
extern MPI_Comm fm_self_handle(void);
#define MPI_GROUP_NULL ((MPI_Group)0)
#define MPI_GROUP_EMPTY (fm_group_empty())
extern MPI_Group fm_group_empty(void);
#define MPI_REQUEST_NULL ((MPI_Request)0)
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_IN_PLACE ((void*)-1)
#define MPI_SUCCESS 0
#define MPI_UNDEFINED (-32766)
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-2)
#define MPI_PROC_NULL (-3)
// datatypes: size in the low byte
#define MPI_CHAR 0x0101
#define MPI_BYTE 0x0201
#define MPI_INT 0x0304
#define MPI_FLOAT 0x0404
#define MPI_LONG 0x0508
#define MPI_LONG_LONG 0x0608
#define MPI_LONG_LONG_INT 0x0608
#define MPI_INT64_T 0x0608
#define MPI_DOUBLE 0x0708
#define MPI_UNSIGNED 0x0804
#define MPI_MAX 1
#define MPI_MIN 2
#define MPI_SUM 3
#define MPI_PROD 4
#define MPI_LAND 5
#define MPI_LOR 6
#define MPI_BAND 7
#define MPI_BOR 8
int MPI_Init(int*,char***);
int MPI_Initialized(int*);
int MPI_Finalized(int*);
int MPI_Finalize(void);
int MPI_Abort(MPI_Comm,int);
int MPI_Comm_rank(MPI_Comm,int*);
int MPI_Comm_size(MPI_Comm,int*);
int MPI_Barrier(MPI_Comm);
double MPI_Wtime(void);
int MPI_Bcast(void*,int,MPI_Datatype,int,MPI_Comm);
int MPI_Allreduce(const void*,void*,int,MPI_Datatype,MPI_Op,MPI_Comm);
int MPI_Reduce(const void*,void*,int,MPI_Datatype,MPI_Op,int,MPI_Comm);
int MPI_Scan(const void*,void*,int,MPI_Datatype,MPI_Op,MPI_Comm);
int MPI_Exscan(const void*,void*,int,MPI_Datatype,MPI_Op,MPI_Comm);
int MPI_Allgather(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,MPI_Comm);
int MPI_Allgatherv(const void*,int,MPI_Datatype,void*,const int*,const int*,MPI_Datatype,MPI_Comm);
int MPI_Gather(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,int,MPI_Comm);
int MPI_Alltoall(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,MPI_Comm);
int MPI_Alltoallv(const void*,const int*,const int*,MPI_Datatype,void*,const int*,const int*,MPI_Datatype,MPI_Comm);
int MPI_Send(const void*,int,MPI_Datatype,int,int,MPI_Comm);
int MPI_Ssend(const void*,int,MPI_Datatype,int,int,MPI_Comm);
int MPI_Rsend(const void*,int,MPI_Datatype,int,int,MPI_Comm);
int MPI_Isend(const void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Request*);
int MPI_Recv(void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Status*);
int MPI_Irecv(void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Request*);
int MPI_Sendrecv(const void*,int,MPI_Datatype,int,int,void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Status*);
int MPI_Wait(MPI_Request*,MPI_Status*);
int MPI_Waitall(int,MPI_Request*,MPI_Status*);
int MPI_Waitany(int,MPI_Request*,int*,MPI_Status*);
int MPI_Waitsome(int,MPI_Request*,int*,int*,MPI_Status*);
int MPI_Test(MPI_Request*,int*,MPI_Status*);
int MPI_Testall(int,MPI_Request*,int*,MPI_Status*);
int MPI_Get_count(const MPI_Status*,MPI_Datatype,int*);
int MPI_Type_size(MPI_Datatype,int*);
int MPI_Comm_group(MPI_Comm,MPI_Group*);
int MPI_Group_incl(MPI_Group,int,const int*,MPI_Group*);
int MPI_Group_size(MPI_Group,int*);
int MPI_Group_rank(MPI_Group,int*);
int MPI_Group_free(MPI_Group*);
int MPI_Comm_create(MPI_Comm,MPI_Group,MPI_Comm*);
int MPI_Comm_create_group(MPI_Comm,MPI_Group,int,MPI_Comm*);
int MPI_Comm_split(MPI_Comm,int,int,MPI_Comm*);
int MPI_Comm_dup(MPI_Comm,MPI_Comm*);
int MPI_Comm_free(MPI_Comm*);
MPI_Comm MPI_Comm_f2c(MPI_Fint);
MPI_Fint MPI_Comm_c2f(MPI_Comm);
#ifdef __cplusplus
}
#endif
#endif
