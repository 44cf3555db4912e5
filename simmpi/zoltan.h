#ifndef SIM_ZOLTAN_H
#define SIM_ZOLTAN_H
#include "mpi.h"
#ifdef __cplusplus
extern "C" {
#endif
typedef unsigned int ZOLTAN_ID_TYPE; typedef ZOLTAN_ID_TYPE *ZOLTAN_ID_PTR;
#define ZOLTAN_OK 0
#define ZOLTAN_WARN 1
#define ZOLTAN_FATAL (-1)
#define ZOLTAN_MEMERR (-2)
struct Zoltan_Struct;
typedef int ZOLTAN_NUM_OBJ_FN(void *, int *); typedef void ZOLTAN_OBJ_LIST_FN(void *, int, int, ZOLTAN_ID_PTR, ZOLTAN_ID_PTR, int, float *, int *); typedef int ZOLTAN_NUM_GEOM_FN(void *, int *);
typedef void ZOLTAN_GEOM_MULTI_FN(void *, int, int, int, ZOLTAN_ID_PTR, ZOLTAN_ID_PTR, int, double *, int *); typedef void ZOLTAN_NUM_EDGES_MULTI_FN(void *, int, int, int, ZOLTAN_ID_PTR, ZOLTAN_ID_PTR, int *, int *);
typedef void ZOLTAN_EDGE_LIST_MULTI_FN(void *, int, int, int, ZOLTAN_ID_PTR, ZOLTAN_ID_PTR, int *, ZOLTAN_ID_PTR, int *, int, float *, int *);
#define Zoltan_Initialize simZoltan_Initialize
#define Zoltan_Create simZoltan_Create
#define Zoltan_Destroy simZoltan_Destroy
#define Zoltan_Set_Param simZoltan_Set_Param
#define Zoltan_Set_Num_Obj_Fn simZoltan_Set_Num_Obj_Fn
#define Zoltan_Set_Obj_List_Fn simZoltan_Set_Obj_List_Fn
#define Zoltan_Set_Num_Geom_Fn simZoltan_Set_Num_Geom_Fn
#define Zoltan_Set_Geom_Multi_Fn simZoltan_Set_Geom_Multi_Fn
#define Zoltan_Set_Num_Edges_Multi_Fn simZoltan_Set_Num_Edges_Multi_Fn
#define Zoltan_Set_Edge_List_Multi_Fn simZoltan_Set_Edge_List_Multi_Fn
#define Zoltan_LB_Partition simZoltan_LB_Partition
#define Zoltan_LB_Free_Part simZoltan_LB_Free_Part
int Zoltan_Initialize(int, char **, float *); struct Zoltan_Struct *Zoltan_Create(MPI_Comm); void Zoltan_Destroy(struct Zoltan_Struct **); int Zoltan_Set_Param(struct Zoltan_Struct *, const char *, const char *);
int Zoltan_Set_Num_Obj_Fn(struct Zoltan_Struct *, ZOLTAN_NUM_OBJ_FN *, void *); int Zoltan_Set_Obj_List_Fn(struct Zoltan_Struct *, ZOLTAN_OBJ_LIST_FN *, void *); int Zoltan_Set_Num_Geom_Fn(struct Zoltan_Struct *, ZOLTAN_NUM_GEOM_FN *, void *); int Zoltan_Set_Geom_Multi_Fn(struct Zoltan_Struct *, ZOLTAN_GEOM_MULTI_FN *, void *);
int Zoltan_Set_Num_Edges_Multi_Fn(struct Zoltan_Struct *, ZOLTAN_NUM_EDGES_MULTI_FN *, void *); int Zoltan_Set_Edge_List_Multi_Fn(struct Zoltan_Struct *, ZOLTAN_EDGE_LIST_MULTI_FN *, void *);
int Zoltan_LB_Partition(struct Zoltan_Struct *, int *, int *, int *, int *, ZOLTAN_ID_PTR *, ZOLTAN_ID_PTR *, int **, int **, int *, ZOLTAN_ID_PTR *, ZOLTAN_ID_PTR *, int **, int **); int Zoltan_LB_Free_Part(ZOLTAN_ID_PTR *, ZOLTAN_ID_PTR *, int **, int **);
#ifdef __cplusplus
}
#endif
#endif
