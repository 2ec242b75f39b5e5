#include "plan_impl.h"
std::unique_ptr<IPlan> make_plan_mkl(int, int i64, int kind, int d, Box in, Box out, MPI_Comm c, Opts const &o, int ctor) { return build_fft<heffte::backend::mkl>(i64, kind, d, in, out, c, o, ctor); }
