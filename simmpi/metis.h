#ifndef SIM_METIS_H
#define SIM_METIS_H
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef int32_t idx_t; typedef float real_t;
#define METIS_NOPTIONS 40
#define METIS_OPTION_NUMBERING 17
#define METIS_OK 1
#define METIS_SetDefaultOptions simMETIS_SetDefaultOptions
#define METIS_PartGraphRecursive simMETIS_PartGraph
#define METIS_PartGraphKway simMETIS_PartGraph
int METIS_SetDefaultOptions(idx_t *);
int simMETIS_PartGraph(idx_t *, idx_t *, idx_t *, idx_t *, idx_t *, idx_t *, idx_t *, idx_t *, real_t *, real_t *, idx_t *, idx_t *, idx_t *);
#ifdef __cplusplus
}
#endif
#endif
