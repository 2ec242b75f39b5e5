#include "plan_impl.h"
std::unique_ptr<IPlan> make_plan_r2r1(int b, int i64, int, int, Box in, Box out, MPI_Comm c, Opts const &o, int ctor) {
    using namespace heffte;
    switch (b) {
    case B_STOCK_COS: return build_r2r<backend::stock_cos>(i64, in, out, c, o, ctor);
    case B_STOCK_SIN: return build_r2r<backend::stock_sin>(i64, in, out, c, o, ctor);
    case B_STOCK_COS1: return build_r2r<backend::stock_cos1>(i64, in, out, c, o, ctor);
    case B_MKL_COS: return build_r2r<backend::mkl_cos>(i64, in, out, c, o, ctor);
    case B_MKL_SIN: return build_r2r<backend::mkl_sin>(i64, in, out, c, o, ctor);
    } return nullptr; }
