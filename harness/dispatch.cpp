#include "engine.h"
void dispatch(std::string const &m) {
    if (m == "opts") run_opts();
    else if (m == "sub") run_sub();
    else if (m == "reuse") run_reuse();
    else if (m == "reject") run_reject();
    else if (m.compare(0, 5, "huge_") == 0) run_huge(m.substr(5));
    else run_xform(m);
}
