#define EXEC_IMPL
#include "exec.h"
std::unique_ptr<IExec> make_exec_mkl(ExSpec const &s) { using namespace heffte::backend;
    switch (s.backend) { case B_MKL_COS: return mk<mkl_cos, false>(s); case B_MKL_SIN: return mk<mkl_sin, false>(s); default: return mk<mkl, true>(s); } }
