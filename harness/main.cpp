#include "engine.h"
#include <unistd.h>
#include <signal.h>
Ctx cx;
void dispatch(std::string const &);
static volatile int cur_case = -1;
static void on_alarm(int) { char b[64]; int n = snprintf(b, 64, "\nHANG case %d\n", cur_case); if (write(2, b, n)) {} _exit(99); }
std::string esc(std::string const &s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }
void start_case(int idx, std::string const &text) {
    cur_case = idx; cx.viol.clear(); cx.worst = 0;
    char const *t = getenv("VH_CASE_SECONDS"); alarm(t ? atoi(t) : 60);
    if (cx.wrank == 0) { fprintf(cx.out, "S\t%d\t%s\n", idx, esc(text).c_str()); fflush(cx.out); }
}
void end_case(int idx, std::string const &sig, std::string const &extra) {
    struct { int bad; int pad; } mine{(int)cx.viol.size(), 0}; int total = 0;
    PMPI_Allreduce(&mine.bad, &total, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
    double worst = 0; PMPI_Reduce(&cx.worst, &worst, 1, MPI_DOUBLE, MPI_MAX, 0, MPI_COMM_WORLD);
    std::string v;
    if (total > 0) {
        static int bad_cases = 0;      // total is the same on all ranks
        if (++bad_cases >= 60) cx.count = std::min(cx.count, idx + 1 - cx.start);    // enough: the launch ends early
        std::vector<char> buf(1200, 0), all; std::string s;
        if (!cx.viol.empty()) s = "rank " + std::to_string(cx.wrank) + "\t" + cx.viol[0];
        strncpy(buf.data(), s.c_str(), 1199);
        if (cx.wrank == 0) all.resize(1200 * cx.wsize);
        PMPI_Gather(buf.data(), 1200, MPI_CHAR, all.data(), 1200, MPI_CHAR, 0, MPI_COMM_WORLD);
        if (cx.wrank == 0) for (int i = 0; i < cx.wsize; i++) if (all[1200 * i]) { v += "V\t" + std::to_string(idx) + "\t" + esc(std::string()) ; std::string t(&all[1200 * i]); for (auto &ch : t) if (ch == '\n') ch = ' '; v += t + "\n"; }
    }
    alarm(0);
    if (cx.wrank == 0) {
        if (!v.empty()) fputs(v.c_str(), cx.out);
        fprintf(cx.out, "R\t%d\t%016llx\t%.3g\t%s\n", idx, (unsigned long long)std::hash<std::string>()(sig), worst, extra.c_str()); fflush(cx.out);
    }
}
double val(uint64_t seed, int b, long long g, int im) { uint64_t z = mix(seed + (uint64_t)b * 7919 + im * 104729, (uint64_t)g); return ((z >> 11) * (1.0 / 9007199254740992.0)) * 2 - 1; }
static double rnd_prec(double x, int prec) { return prec ? x : (double)(float)x; }
std::vector<cd> global_input(Case const &c, int dir, int b) {
    uint64_t s = mix(c.seed + 99, (uint64_t)c.idx * 3 + dir);
    auto m = c.nout(); long long N = c.total(), M = (long long)m[0] * m[1] * m[2];
    std::vector<cd> r;
    bool real = c.kind != C2C;
    bool any = c.kind == R2F && dir == 1 && c.idx % 2 == 0;    // spectra of no real array: the result is the real part
    if (dir == 0 || c.kind == R2R || c.kind == C2C || any) {
        if (any) real = false;
        r.resize(N); for (long long i = 0; i < N; i++) r[i] = cd(rnd_prec(val(s, b, i, 0), c.prec), real ? 0 : rnd_prec(val(s, b, i, 1), c.prec));
        return r;
    }
    std::vector<cd> x(N); for (long long i = 0; i < N; i++) x[i] = cd(val(s, b, i, 0), 0);
    ref_dft(x, c.n, -1);
    if (c.kind == R2F) r = x;
    else { r.resize(M); for (int k = 0; k < m[2]; k++) for (int j = 0; j < m[1]; j++) for (int i = 0; i < m[0]; i++) r[((long long)k * m[1] + j) * m[0] + i] = x[((long long)k * c.n[1] + j) * c.n[0] + i]; }
    for (auto &v : r) v = cd(rnd_prec(v.real(), c.prec), rnd_prec(v.imag(), c.prec));
    return r;
}
std::vector<cd> global_expected(Case const &c, int dir, std::vector<cd> const &in) {
    std::vector<cd> r = in;
    if (c.kind == R2R) { std::vector<double> a(in.size()); for (size_t i = 0; i < a.size(); i++) a[i] = in[i].real(); ref_r2r(a, c.n, c.backend, dir == 0); for (size_t i = 0; i < a.size(); i++) r[i] = a[i]; }
    else if (dir == 0) { ref_dft(r, c.n, -1);
        if (c.kind == R2C) { auto m = c.nout(); std::vector<cd> h((size_t)m[0] * m[1] * m[2]);
            for (int k = 0; k < m[2]; k++) for (int j = 0; j < m[1]; j++) for (int i = 0; i < m[0]; i++) h[((size_t)k * m[1] + j) * m[0] + i] = r[((size_t)k * c.n[1] + j) * c.n[0] + i]; r = h; } }
    else if (c.kind == R2C) r = ref_c2r(in, c.n, c.r2cdir);
    else { ref_dft(r, c.n, +1); if (c.kind == R2F) for (auto &v : r) v = v.real(); }
    double f = expected_scale(c.backend, c.kind, c.n, c.scaling);
    if (f != 1.0) for (auto &v : r) v *= f;
    return r;
}
double tol_for(int prec, int backend, std::array<int, 3> n) {
    double m = std::max({n[0], n[1], n[2], 8});
    bool stock = backend == B_STOCK || (backend >= B_STOCK_COS && backend <= B_STOCK_COS1);
    double t = prec ? 1e-11 : 1e-4;             // relative to the rms of the exact result
    if (stock) t *= 1 + m / 64;                 // the stock backend multiplies twiddle factors up
    return t;
}
void put_local(Box const &b, std::array<int, 3> n, std::vector<cd> const &g, bool cplx, int prec, void *dst) {
    b.each([&](std::array<long long, 3> const &i, long long p) {
        cd v = g[((size_t)i[2] * n[1] + i[1]) * n[0] + i[0]];
        if (cplx) { if (prec) ((cd *)dst)[p] = v; else ((std::complex<float> *)dst)[p] = std::complex<float>((float)v.real(), (float)v.imag()); }
        else { if (prec) ((double *)dst)[p] = v.real(); else ((float *)dst)[p] = (float)v.real(); } });
}
double diff_local(Box const &b, std::array<int, 3> n, std::vector<cd> const &g, bool cplx, int prec, void const *src, std::string &where) {
    double ss = 0; for (auto &v : g) ss += std::norm(v); double rms = std::sqrt(ss / g.size()); if (rms == 0) rms = 1;
    double worst = 0;
    b.each([&](std::array<long long, 3> const &i, long long p) {
        cd v = g[((size_t)i[2] * n[1] + i[1]) * n[0] + i[0]], o;
        if (cplx) o = prec ? ((cd const *)src)[p] : cd(((std::complex<float> const *)src)[p]);
        else o = prec ? cd(((double const *)src)[p], 0) : cd((double)((float const *)src)[p], 0);
        double e = std::abs(o - v) / rms; if (!(e == e)) e = 1e300;
        if (e > worst) { worst = e; if (e > 1e-6) { std::ostringstream s; s << "index (" << i[0] << "," << i[1] << "," << i[2] << ") got " << o.real() << "+" << o.imag() << "i expected " << v.real() << "+" << v.imag() << "i"; where = s.str(); } } });
    return worst;
}
MPI_Comm make_comm(std::vector<int> const &members) {
    int key = -1; for (size_t i = 0; i < members.size(); i++) if (members[i] == cx.wrank) key = (int)i;
    MPI_Comm c; PMPI_Comm_split(MPI_COMM_WORLD, key < 0 ? MPI_UNDEFINED : 0, key < 0 ? 0 : key, &c); return c;
}
size_t in_elem(int kind, int prec) { size_t r = prec ? 8 : 4; return kind == C2C ? 2 * r : r; }
size_t out_elem(int kind, int prec) { size_t r = prec ? 8 : 4; return kind == R2R ? r : 2 * r; }
int main(int argc, char **argv) {
    MPI_Init(&argc, &argv);
    PMPI_Comm_rank(MPI_COMM_WORLD, &cx.wrank); PMPI_Comm_size(MPI_COMM_WORLD, &cx.wsize);
    for (int i = 1; i + 1 < argc; i += 2) { std::string k = argv[i], v = argv[i + 1];
        if (k == "--mode") cx.mode = v; else if (k == "--seed") cx.seed = strtoull(v.c_str(), nullptr, 10); else if (k == "--start") cx.start = atoi(v.c_str());
        else if (k == "--count") cx.count = atoi(v.c_str()); else if (k == "--only") { cx.only = atoi(v.c_str()); } else if (k == "--log") cx.log = v; else if (k == "--tier") cx.tier = atoi(v.c_str()); }
    if (cx.only >= 0) { cx.start = cx.only; cx.count = 1; }
    if (cx.wrank == 0) { cx.out = cx.log.empty() ? stdout : fopen(cx.log.c_str(), "w"); if (!cx.out) { fprintf(stderr, "cannot open log\n"); PMPI_Abort(MPI_COMM_WORLD, 3); } }
    signal(SIGALRM, on_alarm);
    std::string m = cx.mode;
    try {
        dispatch(m);
    } catch (std::exception &e) {
        fprintf(stderr, "EXCEPTION case %d rank %d: %s\n", cur_case, cx.wrank, e.what()); fflush(stderr); _exit(98);
    }
    // totals
    std::vector<std::string> keys; for (auto &k : cx.stat) keys.push_back(k.first);
    if (cx.wrank == 0) { for (auto &k : cx.stat) fprintf(cx.out, "T\t%s\t%.17g\n", k.first.c_str(), k.second); fprintf(cx.out, "E\n"); fflush(cx.out); if (cx.out != stdout) fclose(cx.out); }
    MPI_Finalize();
    return 0;
}
