#include "engine.h"
std::unique_ptr<IPlan> make_plan(int b, int i64, int kind, int d, Box in, Box out, MPI_Comm c, Opts const &o, int ctor) {
    switch (b) {
    case B_STOCK: return make_plan_stock(b, i64, kind, d, in, out, c, o, ctor);
    case B_FFTW: return make_plan_fftw(b, i64, kind, d, in, out, c, o, ctor);
    case B_MKL: return make_plan_mkl(b, i64, kind, d, in, out, c, o, ctor);
    case B_FFTW_COS: case B_FFTW_SIN: case B_FFTW_COS1: case B_FFTW_SIN1: return make_plan_r2r2(b, i64, kind, d, in, out, c, o, ctor);
    default: return make_plan_r2r1(b, i64, kind, d, in, out, c, o, ctor);
    }
}
