#pragma once
#include "vh.h"
#include "casegen.h"
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#define VH_POISON(p, n) ASAN_POISON_MEMORY_REGION(p, n)
#define VH_UNPOISON(p, n) ASAN_UNPOISON_MEMORY_REGION(p, n)
#else
#define VH_POISON(p, n) ((void)0)
#define VH_UNPOISON(p, n) ((void)0)
#endif
struct Guarded {   // user buffer surrounded by guard zones; garbage-filled
    std::vector<unsigned char> raw; size_t bytes = 0, off = 0; static constexpr size_t G = 512;
    void alloc(size_t b, size_t elem, Rng &g, int garbage) {
        if (!raw.empty()) VH_UNPOISON(raw.data(), raw.size()); bytes = b; raw.assign(b + 2 * G + 64 + 64, 0xA5);
        size_t base = (size_t)raw.data(); size_t a = (64 - (base + G) % 64) % 64;
        off = G + a + (g.chance(0.5) ? 0 : (size_t)g.below(4) * elem % 64);
        fill(g, garbage);
        VH_POISON(raw.data(), off); VH_POISON(raw.data() + off + bytes, raw.size() - off - bytes);
    }
    ~Guarded() { if (!raw.empty()) VH_UNPOISON(raw.data(), raw.size()); }
    Guarded() = default; Guarded(Guarded const &) = delete; Guarded &operator=(Guarded const &) = delete;
    void fill(Rng &g, int garbage) {
        if (garbage == 0) memset(raw.data() + off, 0xff, bytes);
        else if (garbage == 1) memset(raw.data() + off, 0, bytes);
        else for (size_t i = 0; i < bytes; i++) raw[off + i] = (unsigned char)(g.next() >> 11);
    }
    void *p() { return raw.data() + off; }
    template<class T> T *as() { return reinterpret_cast<T *>(raw.data() + off); }
    long long damaged() {   // offset of the first changed guard byte relative to the buffer, or LLONG_MIN
        VH_UNPOISON(raw.data(), raw.size());
        for (size_t i = 0; i < raw.size(); i++) { if (i == off) { i += bytes; if (i >= raw.size()) break; } if (raw[i] != 0xA5) return (long long)i - (long long)off; }
        return -(1ll << 62);
    }
    bool intact() { return damaged() == -(1ll << 62); }
};
struct Ctx {    // one launch
    int wrank = 0, wsize = 1; std::string mode, log, driver; uint64_t seed = 1; int start = 0, count = 10, only = -1; int tier = 0;
    FILE *out = nullptr;
    std::vector<std::string> viol;   // "key\ttext", this rank, this case
    void bad(std::string const &key, std::string const &text) { if (viol.size() < 3) viol.push_back(key + "\t" + text); }
    std::map<std::string, double> stat;    // numeric observations, summed over cases
    double worst = 0;
    std::map<std::string, double> fin;     // copied at the end
};
extern Ctx cx;
void start_case(int idx, std::string const &text);
// collective over the world: merge the violations, write the result line. extra is JSON (without braces) from rank 0
void end_case(int idx, std::string const &sig, std::string const &extra = "");
std::string esc(std::string const &s);
double val(uint64_t seed, int b, long long g, int im);
// global arrays
std::vector<cd> global_input(Case const &c, int dir, int b);
std::vector<cd> global_expected(Case const &c, int dir, std::vector<cd> const &in);
double tol_for(int prec, int backend, std::array<int, 3> n);
void put_local(Box const &b, std::array<int, 3> n, std::vector<cd> const &g, bool cplx, int prec, void *dst);
// largest |difference| over the box, relative to the rms of g
double diff_local(Box const &b, std::array<int, 3> n, std::vector<cd> const &g, bool cplx, int prec, void const *src, std::string &where);
MPI_Comm make_comm(std::vector<int> const &members);   // MPI_COMM_NULL on the others
std::string plan_mask(Case const &c);                  // which of the four reshapes change something, from heFFTe's plan
void run_xform(std::string const &profile);
void run_reshape(); void run_plan(); void run_reuse(); void run_reject(); void run_capi(); void run_exec(); void run_trace(); void run_opts(); void run_sub(); void run_huge(std::string const &what);
// runs one transform of the plan as c says (prec, variant, batch, inplace, scaling) and compares values, guards and the const input; ws: a workspace shared with others
void exec_check(IPlan &plan, Case const &c, int me, int dir, Rng &g, Guarded *shared_ws, std::string const &what);
extern long long ec_calls, ec_values;
std::string profile_diff(IPlan &a, IPlan &b, int kind);
