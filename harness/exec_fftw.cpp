#define EXEC_IMPL
#include "exec.h"
std::unique_ptr<IExec> make_exec_fftw(ExSpec const &s) { using namespace heffte::backend;
    switch (s.backend) { case B_FFTW_COS: return mk<fftw_cos, false>(s); case B_FFTW_SIN: return mk<fftw_sin, false>(s); case B_FFTW_COS1: return mk<fftw_cos1, false>(s); case B_FFTW_SIN1: return mk<fftw_sin1, false>(s); default: return mk<fftw, true>(s); } }
