// Stand-in for METIS: the harness supplies the partition and looks at the request.
#pragma once
#include <cstdint>
typedef int32_t idx_t;
typedef float real_t;
#define METIS_NOPTIONS 40
#define METIS_OK 1
extern "C" {
int METIS_SetDefaultOptions(idx_t* options);
int METIS_PartGraphKway(idx_t* nvtxs, idx_t* ncon, idx_t* xadj, idx_t* adjncy, idx_t* vwgt, idx_t* vsize, idx_t* adjwgt, idx_t* nparts,
                        real_t* tpwgts, real_t* ubvec, idx_t* options, idx_t* objval, idx_t* part);
int METIS_PartGraphRecursive(idx_t* nvtxs, idx_t* ncon, idx_t* xadj, idx_t* adjncy, idx_t* vwgt, idx_t* vsize, idx_t* adjwgt, idx_t* nparts,
                        real_t* tpwgts, real_t* ubvec, idx_t* options, idx_t* objval, idx_t* part);
}
