// The built-in FFT engine: every length up to a bound, then chosen long lengths, in all layouts; Rader nodes of any prime.
#include "exec.h"
#include "heffte.h"
#include <fftw3.h>
#pragma GCC visibility push(hidden)
static std::map<std::string, double> T;
static bool prime(long long n) { if (n < 2) return false; for (long long i = 2; i * i <= n; i++) if (n % i == 0) return false; return true; }
static long long largest_prime(long long n) { long long r = 1; for (long long i = 2; i * i <= n; i++) while (n % i == 0) { r = i; n /= i; } return n > 1 ? std::max(r, n) : r; }
// reference of one line of length N: FFTW in double precision; short ones by definition as well
static void line_ref(std::vector<cd> &x, int sign) {
    int N = (int)x.size(); std::vector<cd> y(N), in = x;
    fftw_plan p = fftw_plan_dft_1d(N, (fftw_complex *)x.data(), (fftw_complex *)y.data(), sign, FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
    fftw_execute(p); fftw_destroy_plan(p);
    if (N <= 64) { dft_dim(in, {N, 1, 1}, 0, sign); for (int i = 0; i < N; i++) if (std::abs(in[i] - y[i]) > 1e-11 * N) { fprintf(stderr, "the oracles disagree for %d\n", N); _Exit(97); } }
    x = y;
}
template<class F> struct Width { static int const value =
#ifdef Heffte_ENABLE_AVX
    heffte::pack_size<F>::size;
#else
    1;
#endif
};
template<class F> static double rader(int p, int sign, Rng &g, std::string &where) {
    namespace st = heffte::stock; int const L = Width<F>::value; typedef st::Complex<F, L> C; int lanes = L == 1 ? 1 : L / 2;
    size_t a = st::primeRoot(p), ainv = st::modPow(a, p - 2, p);
    std::unique_ptr<st::biFuncNode<F, L>[]> root(new st::biFuncNode<F, L>[1 + st::getNumNodes(p - 1)]);
    root[0] = st::biFuncNode<F, L>(p, a, ainv); st::init_fft_tree(root.get() + 1, p - 1); root[0].left = 1; root[0].right = 0;
    st::complex_vector<F, L> x(p), y(p); std::vector<std::vector<cd>> ref(lanes, std::vector<cd>(p));
    for (int i = 0; i < p; i++) { std::vector<std::complex<F>> v(std::max(1, lanes)); for (int l = 0; l < lanes; l++) { v[l] = std::complex<F>((F)(g.unit() * 2 - 1), (F)(g.unit() * 2 - 1)); ref[l][i] = cd(v[l].real(), v[l].imag()); } x[i] = C(v.data()); }
    root[0].fptr(x.data(), y.data(), 1, 1, root.get(), sign < 0 ? heffte::direction::forward : heffte::direction::backward);
    double worst = 0;
    for (int l = 0; l < lanes; l++) { line_ref(ref[l], sign); double s = 0; for (auto &v : ref[l]) s += std::norm(v); double rms = std::sqrt(s / p);
        for (int i = 0; i < p; i++) { std::complex<F> q = y[i][l]; double e = std::abs(cd(q.real(), q.imag()) - ref[l][i]) / rms; if (!(e == e)) e = 1e300; if (e > worst) { worst = e; where = "lane " + std::to_string(l) + " output " + std::to_string(i); } } }
    return worst;
}
#pragma GCC visibility pop
void run_stock() {
    int const EXH = 640; bool show = getenv("VH_STOCK_SHOW");
    for (int idx = cx.start; idx < cx.start + cx.count; idx++) {
        Rng g(mix(cx.seed * 53 + 811, (uint64_t)idx)); std::ostringstream t; std::string where;
        int kind = idx < EXH ? 0 : g.below(10) < 7 ? 1 : 2;
        if (idx == EXH) kind = 3;
        if (kind == 2) {          // Rader's algorithm, used by the library for primes above 100000 only
            int p; do p = g.range(3, g.chance(0.5) ? 60 : cx.tier ? 2500 : 700); while (!prime(p)); int prec = g.below(2), sign = g.chance(0.5) ? -1 : 1;
            t << "Rader prime " << p << (prec ? " double" : " float") << " sign " << sign; start_case(idx, t.str());
            double e = prec ? rader<double>(p, sign, g, where) : rader<float>(p, sign, g, where), tol = (prec ? 2.3e-16 : 1.2e-7) * 8 * (10 + p);
            cx.worst = std::max(cx.worst, e / tol); if (show) fprintf(stderr, "rader %d %d %.3g\n", p, prec, e / (prec ? 2.2e-16 : 1.2e-7));
            if (e > tol) cx.bad("rader", "the result differs by " + std::to_string(e) + " at " + where); T["rader_transforms"]++;
            end_case(idx, t.str(), "ok rader"); continue;
        }
        long long N;
        if (kind == 0) N = idx + 1;
        else if (kind == 3) N = 1217ll * 1217;
        else { long long lim = cx.tier ? (g.chance(0.03) ? 400000 : 40000) : g.chance(0.1) ? 20000 : 6000; for (;;) { int c = g.below(9); N = 1;
            if (c == 0) { long long b = g.pick<int>({2, 3, 4, 5, 7, 11, 13, 16, 17}); while (N * b <= lim && !(N > 200 && g.chance(0.3))) N *= b; }       // prime powers
            else if (c == 1) { long long p; do p = g.range(17, 1300); while (!prime(p)); N = p * g.range(1, 40); }                                // a large prime times something
            else if (c == 2) { N = 1ll << g.range(8, 15); N += g.range(-2, 2); }
            else if (c == 3) { do N = g.range(600, cx.tier ? 9000 : 2500); while (!prime(N)); }
            else if (c == 4) { while (N < lim / 16) N *= g.pick<int>({2, 2, 2, 3, 3, 5, 7}); }
            else if (c == 5) { N = g.range(2, 60); N *= g.range(2, 60); if (N * 60 < lim) N *= g.range(2, 60); }
            else if (c == 6) { long long p, q; do p = g.range(5, 120); while (!prime(p)); do q = g.range(5, 120); while (!prime(q)); N = p * q; }
            else if (c == 7) { N = 1; int m = g.range(1, 3); for (int i = 0; i < m; i++) { long long b = g.pick<int>({2, 3, 5}); int e = g.range(1, 6); while (e--) if (N * b <= lim) N *= b; } }
            else N = g.range(640, (int)lim);
            if (N > 1 && N <= lim) break; } }
        long long P = largest_prime(N); double cost = (double)N * P; int maxmany = kind == 3 ? 1 : cost > 4e6 ? 3 : N > 5000 ? 9 : 19;
        int prec = g.below(2), op = kind == 3 ? 0 : g.below(6);      // 0 forward 1 backward 2 r2c 3 c2r (shortened) 4 real->complex 5 complex->real
        int many = g.range(1, maxmany); std::array<int, 3> ord = rand_order(g); int place = g.below(3), dim = ord[place]; std::array<int, 3> n{{1, 1, 1}}; n[dim] = (int)N;
        { int o1 = ord[(place + 1) % 3], o2 = ord[(place + 2) % 3]; std::vector<int> dv; for (int i = 1; i <= many; i++) if (many % i == 0) dv.push_back(i); n[o1] = g.pick(dv); n[o2] = many / n[o1]; }
        t << "stock " << (prec ? "double" : "float") << " length " << N << " (largest prime factor " << P << ") call " << op << " lines " << many << " box " << n[0] << "x" << n[1] << "x" << n[2] << " order " << ord[0] << ord[1] << ord[2] << " dimension " << dim;
        start_case(idx, t.str());
        ExSpec s; s.backend = B_STOCK; s.type = (op == 2 || op == 3) ? X_R2C : X_1D; s.d1 = dim; s.box.ord = ord; for (int d = 0; d < 3; d++) { s.box.lo[d] = g.range(0, 3); s.box.hi[d] = s.box.lo[d] + n[d] - 1; }
        auto e = make_exec_stock(s);
        Box a = s.box; for (int d = 0; d < 3; d++) { a.lo[d] = 0; a.hi[d] = n[d] - 1; } Box h = a; h.hi[dim] = N / 2;
        bool cin = op == 0 || op == 1 || op == 3 || op == 5, cout_ = op == 0 || op == 1 || op == 2 || op == 4, ip = op < 2; Box const &bi = op == 3 ? h : a, &bo = op == 2 ? h : a; int sign = (op == 0 || op == 2 || op == 4) ? -1 : 1;
        size_t rb = prec ? 8 : 4, ib = rb * (cin ? 2 : 1), ob = rb * (cout_ ? 2 : 1); Guarded A, B; A.alloc(bi.vol() * ib, ib, g, 0); if (!ip) B.alloc(bo.vol() * ob, ob, g, g.below(3));
        auto put = [&](long long p, cd v) { if (cin) { if (prec) A.as<cd>()[p] = v; else A.as<std::complex<float>>()[p] = std::complex<float>((float)v.real(), (float)v.imag()); } else { if (prec) A.as<double>()[p] = v.real(); else A.as<float>()[p] = (float)v.real(); } };
        void *ov = ip ? A.p() : B.p(); auto get = [&](long long p) { return cout_ ? (prec ? ((cd *)ov)[p] : cd(((std::complex<float> *)ov)[p])) : cd(prec ? ((double *)ov)[p] : (double)((float *)ov)[p], 0); };
        auto rp = [&](double x) { return prec ? x : (double)(float)x; };
        std::vector<std::vector<cd>> lines; std::vector<std::array<long long, 3>> at; int o1 = (dim + 1) % 3, o2 = (dim + 2) % 3;
        for (int i = 0; i < n[o1]; i++) for (int j = 0; j < n[o2]; j++) {
            std::vector<cd> x(N); for (auto &v : x) v = cd(rp(g.unit() * 2 - 1), cin ? rp(g.unit() * 2 - 1) : 0);
            if (op == 3) { for (auto &v : x) v = v.real(); line_ref(x, -1); for (auto &v : x) v = cd(rp(v.real()), rp(v.imag())); for (long long k = N / 2 + 1; k < N; k++) x[k] = std::conj(x[N - k]); }
            std::array<long long, 3> q{{0, 0, 0}}; q[o1] = i; q[o2] = j; at.push_back(q);
            for (long long k = 0; k <= bi.hi[dim]; k++) { q[dim] = k; put(bi.pos(q), x[k]); }
            line_ref(x, sign); if (!cout_) for (auto &v : x) v = v.real(); lines.push_back(x);
        }
        e->run(ip ? op : (op == 2 || op == 4) ? 2 : 3, prec, A.p(), ip ? nullptr : B.p(), nullptr);
        double worst = 0;
        for (size_t l = 0; l < lines.size(); l++) { double ss = 0; for (auto &v : lines[l]) ss += std::norm(v); double rms = std::sqrt(ss / N); if (rms == 0) rms = 1;
            for (long long k = 0; k <= bo.hi[dim]; k++) { auto q = at[l]; q[dim] = k; cd v = get(bo.pos(q)); double d = std::abs(v - lines[l][k]) / rms; if (!(d == d)) d = 1e300; if (d > worst) { worst = d; std::ostringstream w; w << "line " << l << " output " << k << ": got " << v.real() << "+" << v.imag() << "i, expected " << lines[l][k].real() << "+" << lines[l][k].imag() << "i"; where = w.str(); } T["values_compared"]++; } }
        double eps = prec ? 2.3e-16 : 1.2e-7, tol = eps * 4 * (50 + N);
        if (show) fprintf(stderr, "len %lld %lld %d %.3g %.3g\n", N, P, prec, worst / eps, worst / tol);
        cx.worst = std::max(cx.worst, worst / tol);
        if (worst > tol) { std::ostringstream m; m << "differs by " << worst << " relative to the rms (allowed " << tol << "), " << where; cx.bad(prec ? "stock-value-double" : "stock-value-float", m.str()); }
        if (!A.intact() || (!ip && !B.intact())) cx.bad("stock-guard", "memory outside the arrays was changed");
        T["transforms"] += (double)lines.size(); T["longest"] = std::max(T["longest"], (double)N);
        end_case(idx, "N=" + std::to_string(N) + " op=" + std::to_string(op) + " prec=" + std::to_string(prec) + " place=" + std::to_string(place) + " lines=" + std::to_string(many), kind == 0 ? "ok short" : kind == 3 ? "ok prime square" : "ok long");
    }
    for (auto &t : T) cx.stat[t.first] = t.second;
}
