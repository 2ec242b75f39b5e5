#include "heffte.h"
#include "capi_shim.h"
#include <string.h>
int shim_backend(int i) { switch (i) { case 0: return Heffte_BACKEND_STOCK; case 1: return Heffte_BACKEND_FFTW; default: return Heffte_BACKEND_MKL; } }
int shim_alg(int i) { switch (i) { case 2: return Heffte_RESHAPE_ALGORITHM_P2P_PLINED; case 3: return Heffte_RESHAPE_ALGORITHM_P2P; default: return Heffte_RESHAPE_ALGORITHM_ALLTOALLV; } }
int shim_scale(int i) { return i == 1 ? Heffte_SCALE_FULL : i == 2 ? Heffte_SCALE_SYMMETRIC : Heffte_SCALE_NONE; }
int shim_success(void) { return Heffte_SUCCESS; }
int shim_default_options(int backend, shim_opts *o, int fill) {
    heffte_plan_options h; int rc; memset(&h, fill, sizeof h); rc = heffte_set_default_options(backend, &h);
    o->reorder = h.use_reorder; o->algorithm = h.algorithm; o->pencils = h.use_pencils; o->gpu_aware = h.use_gpu_aware; return rc;
}
int shim_create(int backend, int const *il, int const *ih, int const *io, int const *ol, int const *oh, int const *oo, int r2cdir, MPI_Comm c, shim_opts const *o, void **plan) {
    heffte_plan_options h; heffte_plan p = NULL; int rc;
    if (o) { memset(&h, 0x5a, sizeof h); h.use_reorder = o->reorder; h.algorithm = o->algorithm; h.use_pencils = o->pencils; h.use_gpu_aware = o->gpu_aware; }
    if (r2cdir < 0) rc = heffte_plan_create(backend, il, ih, io, ol, oh, oo, c, o ? &h : NULL, &p);
    else rc = heffte_plan_create_r2c(backend, il, ih, io, ol, oh, oo, r2cdir, c, o ? &h : NULL, &p);
    *plan = rc == Heffte_SUCCESS ? (void *)p : NULL; return rc;
}
int shim_destroy(void *plan) { return heffte_plan_destroy((heffte_plan)plan); }
int shim_destroy_corrupted(void *plan) { heffte_plan p = (heffte_plan)plan; int b = p->backend_type, rc; p->backend_type = 12345; rc = heffte_plan_destroy(p); if (rc != Heffte_SUCCESS) p->backend_type = b; return rc; }
int shim_info(void *plan, int what) {
    heffte_plan p = (heffte_plan)plan;
    switch (what) { case 0: return heffte_size_inbox(p); case 1: return heffte_size_outbox(p); case 2: return heffte_size_workspace(p); case 3: return heffte_get_backend(p); default: return heffte_is_r2c(p); }
}
void shim_exec(void *plan, int dir, int prec, int cplx, void const *in, void *out, void *ws, int s) {
    heffte_plan p = (heffte_plan)plan;
    if (dir == 0) {
        if (ws) {
            if (cplx) { if (prec) heffte_forward_z2z_buffered(p, in, out, ws, s); else heffte_forward_c2c_buffered(p, in, out, ws, s); }
            else { if (prec) heffte_forward_d2z_buffered(p, (double const *)in, out, ws, s); else heffte_forward_s2c_buffered(p, (float const *)in, out, ws, s); }
        } else {
            if (cplx) { if (prec) heffte_forward_z2z(p, in, out, s); else heffte_forward_c2c(p, in, out, s); }
            else { if (prec) heffte_forward_d2z(p, (double const *)in, out, s); else heffte_forward_s2c(p, (float const *)in, out, s); }
        }
    } else {
        if (ws) {
            if (cplx) { if (prec) heffte_backward_z2z_buffered(p, in, out, ws, s); else heffte_backward_c2c_buffered(p, in, out, ws, s); }
            else { if (prec) heffte_backward_z2d_buffered(p, in, (double *)out, ws, s); else heffte_backward_c2s_buffered(p, in, (float *)out, ws, s); }
        } else {
            if (cplx) { if (prec) heffte_backward_z2z(p, in, out, s); else heffte_backward_c2c(p, in, out, s); }
            else { if (prec) heffte_backward_z2d(p, in, (double *)out, s); else heffte_backward_c2s(p, in, (float *)out, s); }
        }
    }
}
