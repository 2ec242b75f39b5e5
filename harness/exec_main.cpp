// Each backend's executors on generated boxes (mode exec), and the built-in FFT engine on many lengths (mode stock).
#include "exec.h"
void run_stock();
static std::unique_ptr<IExec> make(ExSpec const &s) {
    switch (s.backend) {
    case B_STOCK: case B_STOCK_COS: case B_STOCK_SIN: case B_STOCK_COS1: return make_exec_stock(s);
    case B_MKL: case B_MKL_COS: case B_MKL_SIN: return make_exec_mkl(s);
    default: return make_exec_fftw(s);
    }
}
static std::map<std::string, long long> T;
static void run_exec_mode() {
    char const *tn[] = {"1-D", "2-D", "3-D", "r2c", "r2r"};
    for (int idx = cx.start; idx < cx.start + cx.count; idx++) {
        Rng g(mix(cx.seed * 31 + 5077 + (uint64_t)cx.wrank * 0, (uint64_t)idx)); ExSpec s;
        int fam = g.below(10);
        if (fam < 4) { s.type = X_1D; s.backend = g.below(3); }
        else if (fam < 5) { s.type = X_2D; s.backend = g.chance(0.5) ? B_FFTW : B_MKL; }
        else if (fam < 6) { s.type = X_3D; s.backend = g.chance(0.5) ? B_FFTW : B_MKL; }
        else if (fam < 8) { s.type = X_R2C; s.backend = g.below(3); }
        else { s.type = X_R2R; s.backend = g.range(B_STOCK_COS, B_MKL_SIN); }
        bool fftw_r2r = s.type == X_R2R && (s.backend == B_FFTW_COS || s.backend == B_FFTW_SIN || s.backend == B_FFTW_COS1 || s.backend == B_FFTW_SIN1);
        bool cos1 = s.backend == B_FFTW_COS1 || s.backend == B_STOCK_COS1;
        s.i64 = g.chance(0.4); auto o = rand_order(g); s.d1 = g.below(3); s.d2 = (s.d1 + 1 + g.below(2)) % 3;
        int dims = 1; if (fftw_r2r) { dims = g.range(1, 3); } else if (s.type == X_2D) dims = 2; else if (s.type == X_3D) dims = 3;
        if (s.type == X_R2R && !fftw_r2r) s.d1 = o[0];
        ExSpec mkspec = s; if (fftw_r2r && dims > 1) mkspec.type = dims == 2 ? X_2D : X_3D;
        std::array<int, 3> n; long long lim = s.type == X_3D ? 3000 : 6000;
        do for (int d = 0; d < 3; d++) { int c = g.below(12); n[d] = c < 3 ? g.range(1, 3) : c < 9 ? g.range(1, 14) : c < 11 ? g.range(1, 40) : g.range(1, 260); } while ((long long)n[0] * n[1] * n[2] > lim);
        std::vector<int> dl; if (dims == 1) dl = {s.d1}; else if (dims == 2) dl = {s.d1, s.d2}; else dl = {0, 1, 2};
        if (cos1) for (int d : dl) n[d] = std::max(n[d], 2);
        bool empty = g.chance(0.02); if (empty) { n[g.below(3)] = 0; }
        Box b; b.ord = o; for (int d = 0; d < 3; d++) { b.lo[d] = g.chance(0.5) ? 0 : g.chance(0.8) ? g.range(0, 50) : s.i64 ? (long long)(g.next() >> 8) : g.range(0, 1000000000); b.hi[d] = b.lo[d] + n[d] - 1; }
        mkspec.box = s.box = b;
        int nops = g.chance(0.4) ? 1 : g.range(2, 5); struct Op { int op, prec; }; std::vector<Op> ops;
        for (int q = 0; q < nops; q++) { int op; if (s.type == X_R2R) op = 4 + g.below(2); else if (s.type == X_R2C) op = 2 + g.below(2); else op = g.below(4); ops.push_back({op, g.chance(0.5)}); }
        std::ostringstream t; t << tn[s.type] << " executor " << backend_name(s.backend) << " " << (s.i64 ? "long long" : "int") << " box=" << str(b) << " dims="; for (int d : dl) t << d; t << " ops="; for (auto &p : ops) t << p.op << (p.prec ? "d" : "f");
        start_case(idx, t.str());
        // spread over the ranks: each of them has all cases; rank r runs the calls at a different alignment and garbage
        Rng h(mix(cx.seed + 17 * cx.wrank, (uint64_t)idx + 99)); std::string outcome = "ok";
        auto e = make(mkspec);
        if (empty) { if (!e->null()) cx.bad("exec-empty", "an executor was made for an empty box"); T["empty_boxes"]++; }
        else if (e->null()) cx.bad("exec-null", "no executor was made");
        else {
            long long N = b.vol(); std::array<int, 3> m = n; if (s.type == X_R2C) m[s.d1] = n[s.d1] / 2 + 1; long long M = (long long)m[0] * m[1] * m[2];
            Box bm = b; bm.hi[s.d1] = b.lo[s.d1] + m[s.d1] - 1;
            if (e->box_size() != N) cx.bad("exec-size", "box_size() is " + std::to_string(e->box_size()));
            if (s.type == X_R2C && e->complex_size() != M) cx.bad("exec-size", "complex_size() is " + std::to_string(e->complex_size()));
            Box nat = b, natm = bm; for (int d = 0; d < 3; d++) { nat.lo[d] = 0; nat.hi[d] = n[d] - 1; natm.lo[d] = 0; natm.hi[d] = m[d] - 1; }
            for (auto &p : ops) {
                if (!cx.viol.empty()) break;
                bool cin = p.op == 0 || p.op == 1 || p.op == 3, cout_ = p.op <= 2; double eps = p.prec;
                (void)eps; uint64_t vs = h.next(); auto rp = [&](double x) { return p.prec ? x : (double)(float)x; };
                // natural-layout input
                bool half = s.type == X_R2C && p.op == 3; std::vector<cd> in, ex;
                if (half) { in.resize(N); for (long long i = 0; i < N; i++) in[i] = val(vs, 0, i, 0); dft_dim(in, n, s.d1, -1); std::vector<cd> c(M);
                    for (int k = 0; k < m[2]; k++) for (int j = 0; j < m[1]; j++) for (int i = 0; i < m[0]; i++) { cd v = in[((long long)k * n[1] + j) * n[0] + i]; c[((long long)k * m[1] + j) * m[0] + i] = cd(rp(v.real()), rp(v.imag())); } 
                    in = c; // expected: conjugate-even extension along the direction
                    ex.assign(N, 0); int L = n[s.d1]; for (int k = 0; k < n[2]; k++) for (int j = 0; j < n[1]; j++) for (int i = 0; i < n[0]; i++) { std::array<int, 3> q{i, j, k}; bool cj = q[s.d1] >= m[s.d1]; if (cj) q[s.d1] = L - q[s.d1]; cd v = c[((long long)q[2] * m[1] + q[1]) * m[0] + q[0]]; ex[((long long)k * n[1] + j) * n[0] + i] = cj ? std::conj(v) : v; }
                    dft_dim(ex, n, s.d1, +1); for (auto &v : ex) v = v.real();
                } else {
                    in.resize(N); for (long long i = 0; i < N; i++) in[i] = cd(rp(val(vs, 0, i, 0)), cin ? rp(val(vs, 0, i, 1)) : 0); ex = in;
                    if (p.op >= 4) { std::vector<double> a(N); for (long long i = 0; i < N; i++) a[i] = in[i].real(); for (int d : dl) r2r_dim(a, n, d, s.backend, p.op == 4); for (long long i = 0; i < N; i++) ex[i] = a[i]; }
                    else { for (int d : dl) dft_dim(ex, n, d, (p.op == 0 || p.op == 2) ? -1 : 1); if (p.op == 3) for (auto &v : ex) v = v.real(); }
                    if (s.type == X_R2C) { std::vector<cd> c(M); for (int k = 0; k < m[2]; k++) for (int j = 0; j < m[1]; j++) for (int i = 0; i < m[0]; i++) c[((long long)k * m[1] + j) * m[0] + i] = ex[((long long)k * n[1] + j) * n[0] + i]; ex = c; }
                }
                size_t rb = p.prec ? 8 : 4, ib = (cin ? 2 : 1) * rb, ob = (cout_ ? 2 : 1) * rb; bool inplace = p.op == 0 || p.op == 1 || p.op >= 4;
                Guarded A, B, W; long long nin = half ? M : N, nout = (s.type == X_R2C && p.op == 2) ? M : N;
                // the element type is the natural alignment of each array
                A.alloc(nin * ib, ib, h, h.below(3)); if (!inplace) B.alloc(nout * ob, ob, h, h.below(3));
                size_t we = p.op >= 4 ? rb : 2 * rb; W.alloc(e->workspace_size() * we, we, h, h.below(3));
                put_local(half ? natm : nat, half ? m : n, in, cin, p.prec, A.p()); std::vector<unsigned char> keep((unsigned char *)A.p(), (unsigned char *)A.p() + A.bytes);
                e->run(p.op, p.prec, A.p(), inplace ? nullptr : B.p(), W.p());
                std::string where; std::array<int, 3> on = nout == M && s.type == X_R2C && p.op == 2 ? m : n; Box onat = on == m && s.type == X_R2C && p.op == 2 ? natm : nat;
                double tol = tol_for(p.prec, s.backend, n), d = diff_local(onat, on, ex, cout_, p.prec, inplace ? A.p() : B.p(), where);
                cx.worst = std::max(cx.worst, d / tol); T["values_compared"] += nout;
                if (d > tol) { std::ostringstream m; m << "call " << p.op << (p.prec ? " double" : " float") << " differs from the reference by " << d << " (allowed " << tol << ") at " << where; cx.bad("exec-value", m.str()); }
                if (p.op == 2 && memcmp(A.p(), keep.data(), A.bytes)) cx.bad("exec-input", "the constant real input was modified");
                if (!A.intact() || (!inplace && !B.intact())) cx.bad("exec-guard", "memory outside the array was changed, offset " + std::to_string(A.intact() ? B.damaged() : A.damaged()));
                if (!W.intact()) cx.bad("exec-guard", "memory outside the workspace was changed, offset " + std::to_string(W.damaged()));
                T[std::string("calls_") + tn[s.type]]++;
            }
        }
        end_case(idx, t.str(), std::string(empty ? "ok empty " : "ok ") + tn[s.type] + " " + backend_name(s.backend));
    }
    for (auto &t : T) cx.stat[t.first] = (double)t.second;
}
void dispatch(std::string const &m) { if (m == "stock") run_stock(); else run_exec_mode(); }
