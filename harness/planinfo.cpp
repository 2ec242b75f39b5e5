#include "plan_impl.h"
#include "engine.h"
std::string plan_mask(Case const &c) {
    heffte::ioboxes<int> b; for (auto &x : c.in) b.in.push_back(to_h<int>(x)); for (auto &x : c.out) b.out.push_back(to_h<int>(x));
    heffte::plan_options o = to_opts<heffte::backend::fftw>(c.o);
    if (!c.o.explicit_opts && c.backend == B_MKL) o = heffte::default_options<heffte::backend::mkl>();
    if (is_r2r(c.backend) && c.backend != B_FFTW_COS && c.backend != B_FFTW_SIN && c.backend != B_FFTW_COS1 && c.backend != B_FFTW_SIN1) o.use_reorder = true;
    try {
        auto p = heffte::plan_operations(b, c.kind == R2C ? c.r2cdir : -1, o, 0);
        std::string s; for (int i = 0; i < 4; i++) { bool m = heffte::match(p.in_shape[i], p.out_shape[i]); bool ord = p.in_shape[i][0].ordered_same_as(p.out_shape[i][0]); s += !m ? 'M' : !ord ? 'T' : '-'; }
        return s;
    } catch (std::exception &) { return "none"; }
}
