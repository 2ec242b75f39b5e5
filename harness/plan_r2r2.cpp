#include "plan_impl.h"
std::unique_ptr<IPlan> make_plan_r2r2(int b, int i64, int, int, Box in, Box out, MPI_Comm c, Opts const &o, int ctor) {
    using namespace heffte;
    switch (b) {
    case B_FFTW_COS: return build_r2r<backend::fftw_cos>(i64, in, out, c, o, ctor);
    case B_FFTW_SIN: return build_r2r<backend::fftw_sin>(i64, in, out, c, o, ctor);
    case B_FFTW_COS1: return build_r2r<backend::fftw_cos1>(i64, in, out, c, o, ctor);
    case B_FFTW_SIN1: return build_r2r<backend::fftw_sin1>(i64, in, out, c, o, ctor);
    } return nullptr; }
