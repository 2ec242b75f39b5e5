#ifndef CAPI_SHIM_H
#define CAPI_SHIM_H
#include <mpi.h>
#ifdef __cplusplus
extern "C" {
#endif
/* everything goes through the shipped C header, compiled as C */
typedef struct { int reorder, algorithm, pencils, gpu_aware; } shim_opts;
int shim_backend(int i);                      /* 0 stock 1 fftw 2 mkl -> the constant of the header */
int shim_alg(int i);                          /* 0 alltoallv 2 p2p_plined 3 p2p (numbers of the harness) */
int shim_scale(int i);
int shim_success(void);
int shim_default_options(int backend, shim_opts *o, int fill);
int shim_create(int backend, int const *il, int const *ih, int const *io, int const *ol, int const *oh, int const *oo, int r2cdir, MPI_Comm c, shim_opts const *o, void **plan);
int shim_destroy(void *plan);
int shim_destroy_corrupted(void *plan);       /* the backend id of the plan is damaged during the call */
int shim_info(void *plan, int what);          /* 0 inbox 1 outbox 2 workspace 3 backend 4 is_r2c */
void shim_exec(void *plan, int dir, int prec, int cplx, void const *in, void *out, void *ws, int scale);
#ifdef __cplusplus
}
#endif
#endif
