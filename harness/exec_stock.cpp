#define EXEC_IMPL
#include "exec.h"
std::unique_ptr<IExec> make_exec_stock(ExSpec const &s) { using namespace heffte::backend;
    switch (s.backend) { case B_STOCK_COS: return mk<stock_cos, false>(s); case B_STOCK_SIN: return mk<stock_sin, false>(s); case B_STOCK_COS1: return mk<stock_cos1, false>(s); default: return mk<stock, true>(s); } }
