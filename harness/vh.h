// Shared declarations of the runtime-monitoring harness (independent of heFFTe headers).
#pragma once
#include <mpi.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <array>
#include <vector>
#include <string>
#include <memory>
#include <complex>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <algorithm>

// ---------------------------------------------------------------- rng
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed) { next(); next(); }
    uint64_t next() { uint64_t z = (s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
    int below(int n) { return n <= 1 ? 0 : (int)(next() % (uint64_t)n); }
    int range(int a, int b) { return a + below(b - a + 1); }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    bool chance(double p) { return unit() < p; }
    template<class T> T pick(std::vector<T> const &v) { return v[below((int)v.size())]; }
};
inline uint64_t mix(uint64_t a, uint64_t b) { Rng r(a * 0x9e3779b97f4a7c15ull ^ (b + 0x7f4a7c15) * 0xbf58476d1ce4e5b9ull); return r.next(); }

// ---------------------------------------------------------------- geometry (own code, not heFFTe's)
struct Box {
    std::array<long long, 3> lo{{0, 0, 0}}, hi{{-1, -1, -1}};
    std::array<int, 3> ord{{0, 1, 2}};
    long long n(int d) const { return std::max(0ll, hi[d] - lo[d] + 1); }
    long long vol() const { return n(0) * n(1) * n(2); }
    bool has(long long i, long long j, long long k) const {
        return i >= lo[0] && i <= hi[0] && j >= lo[1] && j <= hi[1] && k >= lo[2] && k <= hi[2]; }
    // position inside the local array of the global index g
    long long pos(std::array<long long, 3> const &g) const {
        int f = ord[0], m = ord[1], s = ord[2];
        return ((g[s] - lo[s]) * n(m) + (g[m] - lo[m])) * n(f) + (g[f] - lo[f]);
    }
    template<class F> void each(F f) const {   // f(global index, local position)
        std::array<long long, 3> g;
        long long p = 0; int a = ord[0], b = ord[1], c = ord[2];
        for (g[c] = lo[c]; g[c] <= hi[c]; g[c]++) for (g[b] = lo[b]; g[b] <= hi[b]; g[b]++) for (g[a] = lo[a]; g[a] <= hi[a]; g[a]++) f(g, p++);
    }
};
std::string str(Box const &b);
std::string str(std::vector<Box> const &v);

// ---------------------------------------------------------------- case description
enum Kind { C2C = 0, R2F = 1, R2C = 2, R2R = 3 };     // R2F: real input to the full complex transform fft3d
enum Backend { B_STOCK, B_FFTW, B_MKL, B_STOCK_COS, B_STOCK_SIN, B_STOCK_COS1, B_FFTW_COS, B_FFTW_SIN, B_FFTW_COS1, B_FFTW_SIN1, B_MKL_COS, B_MKL_SIN, B_NUM };
char const *backend_name(int b);
inline bool is_r2r(int b) { return b >= B_STOCK_COS; }
enum Alg { A_A2AV = 0, A_A2A = 1, A_P2PP = 2, A_P2P = 3 };   // own numbering, mapped to heFFTe's enum by name
char const *alg_name(int a);

struct Opts { bool explicit_opts = false; bool reorder = true; int alg = A_A2AV; bool pencils = true; int subranks = -1; int subcomm = 0; /*not 0: use_subcomm, bits: the ranks; bit 24: reversed rank order*/ };

struct Case {
    uint64_t seed = 0; int idx = 0;
    int nranks = 1;                 // size of the communicator handed to heFFTe
    std::vector<int> members;       // world ranks in communicator order
    int kind = C2C, backend = B_FFTW, prec = 1 /*0 float 1 double*/, i64 = 0, r2cdir = 0;
    std::array<int, 3> n{{1, 1, 1}};
    std::vector<Box> in, out;
    Opts o;
    int scaling = 0;                // 0 none 1 full 2 symmetric
    int variant = 0;                // 0 plain, 1 workspace, 2 batch+workspace, 3 batch, 4 vector API
    int batch = 1;
    bool inplace = false;
    bool has_empty = false;
    std::string style;
    long long total() const { return (long long)n[0] * n[1] * n[2]; }
    std::array<int, 3> nout() const { auto m = n; if (kind == R2C) m[r2cdir] = m[r2cdir] / 2 + 1; return m; }
    std::string text() const;
    std::string sig() const;        // shape signature: used to count distinct configurations
};

// ---------------------------------------------------------------- plan interface implemented per backend
struct IPlan {
    virtual ~IPlan() = default;
    virtual long long size_inbox() const = 0;
    virtual long long size_outbox() const = 0;
    virtual size_t size_workspace() const = 0;
    virtual size_t size_comm() const = 0;
    virtual double factor(int scaling) const = 0;
    virtual Box inbox() const = 0;
    virtual Box outbox() const = 0;
    virtual void relocate() = 0;   // moves the plan object to another place in memory
    // dir 0 forward 1 backward; ws may be null for variants without workspace
    virtual void exec(int dir, int prec, int variant, int batch, void const *in, void *out, void *ws, int scaling) = 0;
    // vector API on an input of the given number of entries; the result is copied to out, its size returned
    virtual size_t exec_vector(int dir, int prec, void const *in, size_t entries, void *out, size_t max_out, int scaling) = 0;
};
// kind selects fft3d (C2C, R2F, R2R) or fft3d_r2c
std::unique_ptr<IPlan> make_plan(int backend, int i64, int kind, int r2cdir, Box in, Box out, MPI_Comm comm, Opts const &o, int ctor = 0);
std::unique_ptr<IPlan> make_plan_stock(int, int, int, int, Box, Box, MPI_Comm, Opts const &, int);
std::unique_ptr<IPlan> make_plan_fftw(int, int, int, int, Box, Box, MPI_Comm, Opts const &, int);
std::unique_ptr<IPlan> make_plan_mkl(int, int, int, int, Box, Box, MPI_Comm, Opts const &, int);
std::unique_ptr<IPlan> make_plan_r2r1(int, int, int, int, Box, Box, MPI_Comm, Opts const &, int);
std::unique_ptr<IPlan> make_plan_r2r2(int, int, int, int, Box, Box, MPI_Comm, Opts const &, int);
size_t in_elem(int kind, int prec);    // bytes of one element of the input of forward()
size_t out_elem(int kind, int prec);   // bytes of one element of the output of forward()
inline size_t ws_elem(int kind, int prec) { return out_elem(kind, prec); }

// ---------------------------------------------------------------- reference transforms (own code)
typedef std::complex<double> cd;
// natural layout: index = (k*n1 + j)*n0 + i
void dft_dim(std::vector<cd> &a, std::array<int, 3> n, int d, int sign);             // one direction only
void r2r_dim(std::vector<double> &a, std::array<int, 3> n, int d, int backend, bool fwd);
void ref_dft(std::vector<cd> &a, std::array<int, 3> n, int sign);                    // full c2c, sign -1 forward
std::vector<cd> ref_c2r(std::vector<cd> const &half, std::array<int, 3> n, int dir);  // backward r2c, real result stored as complex
void ref_r2r(std::vector<double> &a, std::array<int, 3> n, int backend, bool forward);
double expected_scale(int backend, int kind, std::array<int, 3> n, int scaling);

// ---------------------------------------------------------------- MPI monitor
struct Mon {
    bool enabled = false;
    // perturbation
    int delay_pct = 0; bool sync_send = false; bool any_order = false; bool poison_recv = false; bool check_match = false;
    uint64_t rng = 1;
    // observed
    long long ev_isend = 0, ev_irecv = 0, ev_send = 0, ev_waitany = 0, ev_waitall = 0, ev_a2a = 0, ev_a2av = 0, ev_allgather = 0, ev_comm_new = 0, ev_comm_free = 0, ev_group = 0, ev_group_free = 0, ev_delay = 0, ev_bytes = 0, ev_rbytes = 0;
    long long outstanding = 0;
    long long live_comms = 0, live_groups = 0;
    long long user_comm_calls = 0;
    uint64_t order_sig = 0;      // hash of the completion order chosen in waitany
    // allowed ranges for send/receive buffers: [lo,hi)
    char const *wlo = nullptr, *whi = nullptr;
    std::vector<std::string> errors;
    std::string trace;           // short text of MPI calls, used by the tracing check
    bool keep_trace = false;
    std::vector<std::string> calls;
    void reset_counts();
    void err(std::string const &s) { if (errors.size() < 8) errors.push_back(s); }
};
extern Mon mon;

// ---------------------------------------------------------------- reporting
struct Report {          // collected on every rank, merged on rank 0
    std::string what;    // empty: fine
    std::string key;     // class of violation
};
