#include "vh.h"
#include "casegen.h"
char const *backend_name(int b) { static char const *n[] = {"stock", "fftw", "mkl", "stock_cos", "stock_sin", "stock_cos1", "fftw_cos", "fftw_sin", "fftw_cos1", "fftw_sin1", "mkl_cos", "mkl_sin"}; return n[b]; }
char const *alg_name(int a) { static char const *n[] = {"alltoallv", "alltoall", "p2p_plined", "p2p"}; return n[a]; }
std::string str(Box const &b) {
    std::ostringstream o; o << "[" << b.lo[0] << ":" << b.hi[0] << "," << b.lo[1] << ":" << b.hi[1] << "," << b.lo[2] << ":" << b.hi[2] << " o" << b.ord[0] << b.ord[1] << b.ord[2] << "]"; return o.str(); }
std::string str(std::vector<Box> const &v) { std::string s; for (auto &b : v) s += str(b); return s; }
std::string Case::text() const {
    std::ostringstream o; static char const *kn[] = {"c2c", "real->full", "r2c", "r2r"}; static char const *sn[] = {"none", "full", "symmetric"};
    o << kn[kind] << " " << backend_name(backend) << " " << (prec ? "double" : "float") << " " << (i64 ? "long long" : "int");
    if (kind == R2C) o << " r2cdir=" << r2cdir;
    o << " n=" << n[0] << "x" << n[1] << "x" << n[2] << " ranks=" << nranks << " members="; for (auto m : members) o << m << ".";
    o << " style=" << style << " in=" << str(in) << " out=" << str(out);
    if (this->o.explicit_opts) o << " alg=" << alg_name(this->o.alg) << " reorder=" << this->o.reorder << " pencils=" << this->o.pencils << " subranks=" << this->o.subranks << " subcomm=" << this->o.subcomm; else o << " default-options";
    o << " scale=" << sn[scaling] << " variant=" << variant << " batch=" << batch << " inplace=" << inplace;
    return o.str(); }
std::string Case::sig() const {
    std::ostringstream s; s << kind << backend << prec << i64 << r2cdir << "|" << n[0] << "," << n[1] << "," << n[2] << "|" << nranks << str(in) << str(out) << o.explicit_opts << o.alg << o.reorder << o.pencils << o.subranks << o.subcomm << "|" << scaling << variant << batch << inplace;
    return s.str(); }

static void cut1(Rng &g, long long lo, long long hi, int parts, bool even, std::vector<std::pair<long long, long long>> &r) {
    long long n = hi - lo + 1; std::vector<long long> c{lo};
    if (even) { for (int i = 1; i < parts; i++) c.push_back(lo + n * i / parts); }
    else { std::set<long long> s; while ((int)s.size() < parts - 1) s.insert(lo + 1 + (long long)(g.next() % (uint64_t)(n - 1))); for (auto x : s) c.push_back(x); }
    c.push_back(hi + 1);
    for (int i = 0; i < parts; i++) r.push_back({c[i], c[i + 1] - 1});
}
static void kd(Rng &g, Box b, int k, bool skew, std::vector<Box> &r) {
    if (k == 1) { r.push_back(b); return; }
    for (int t = 0; t < 200; t++) {
        int d = g.below(3); if (b.n(d) < 2) continue;
        int k1 = g.range(1, k - 1);
        long long at = b.lo[d] + (skew ? (g.chance(0.5) ? 0 : b.n(d) - 2) : (long long)(g.next() % (uint64_t)(b.n(d) - 1)));  // last index of the first half
        Box x = b, y = b; x.hi[d] = at; y.lo[d] = at + 1;
        if (x.vol() < k1 || y.vol() < k - k1) { k1 = (int)std::max(1ll, std::min((long long)k - 1, x.vol())); if (x.vol() < k1 || y.vol() < k - k1) continue; }
        kd(g, x, k1, skew, r); kd(g, y, k - k1, skew, r); return;
    }
    // fall back: peel single indices along any divisible direction
    for (int d = 0; d < 3; d++) if (b.n(d) >= 2) {
        Box x = b, y = b; x.hi[d] = b.lo[d]; y.lo[d] = b.lo[d] + 1;
        int k1 = (int)std::max(1ll, std::min(x.vol(), (long long)k - 1)); if (y.vol() < k - k1) k1 = (int)(k - y.vol());
        kd(g, x, k1, false, r); kd(g, y, k - k1, false, r); return;
    }
    throw std::logic_error("harness: cannot split");
}
std::vector<Box> decompose(Rng &g, std::array<int, 3> n, int k, std::string &style, int want) {
    Box w; for (int d = 0; d < 3; d++) { w.lo[d] = 0; w.hi[d] = n[d] - 1; }
    std::vector<Box> r;
    int s = want >= 0 ? want : g.below(10);   // 0-1 slab 2-4 pencil 5-6 grid 7-8 kd 9 skewed kd
    std::vector<std::array<int, 3>> grids;
    for (int a = 1; a <= k; a++) if (k % a == 0) for (int b = 1; b <= k / a; b++) if ((k / a) % b == 0) { std::array<int, 3> p{a, b, k / a / b}; if (p[0] <= n[0] && p[1] <= n[1] && p[2] <= n[2]) grids.push_back(p); }
    std::vector<std::array<int, 3>> sel;
    for (auto &p : grids) { int ones = (p[0] == 1) + (p[1] == 1) + (p[2] == 1); if ((s <= 1 && ones >= 2) || (s >= 2 && s <= 4 && ones == 1) || (s >= 5 && s <= 6)) sel.push_back(p); }
    if (sel.empty() && s <= 6) sel = grids;
    if (s <= 6 && !sel.empty()) {
        auto p = g.pick(sel); bool even = g.chance(0.4);
        std::vector<std::pair<long long, long long>> c[3];
        for (int d = 0; d < 3; d++) cut1(g, 0, n[d] - 1, p[d], even, c[d]);
        for (auto &z : c[2]) for (auto &y : c[1]) for (auto &x : c[0]) { Box b; b.lo = {x.first, y.first, z.first}; b.hi = {x.second, y.second, z.second}; r.push_back(b); }
        style += "g" + std::to_string(p[0]) + std::to_string(p[1]) + std::to_string(p[2]) + (even ? "e" : "u");
    } else { bool skew = s == 9; kd(g, w, k, skew, r); style += skew ? "kdskew" : "kd"; }
    if (g.chance(0.4)) { for (int i = (int)r.size() - 1; i > 0; i--) std::swap(r[i], r[g.below(i + 1)]); style += "p"; }
    return r;
}
std::array<int, 3> rand_order(Rng &g) { static int const p[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; int i = g.below(6); return {p[i][0], p[i][1], p[i][2]}; }
std::array<int, 3> gen_size(Rng &g, long long maxn, int min_each) {
    std::array<int, 3> n;
    for (int t = 0;; t++) {
        int c = g.below(100); bool large = maxn >= 20000;
        static std::vector<int> const primes{2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37}, pows{1, 2, 4, 8, 16, 32}, comp{6, 9, 10, 12, 14, 15, 18, 20, 21, 24, 25, 27, 28, 30, 33, 35, 36, 40, 48};
        for (int d = 0; d < 3; d++) {
            if (c < 40) n[d] = g.chance(0.1) ? 1 : g.range(1, 12);
            else if (c < 62) n[d] = g.range(4, 26);
            else if (c < 74) n[d] = g.pick(pows);
            else if (c < 84) n[d] = g.pick(primes);
            else if (c < 92) n[d] = g.pick(comp);
            else n[d] = g.range(1, 6);
            n[d] = std::max(n[d], min_each);
        }
        if (large) { for (int d = 0; d < 3; d++) n[d] = g.range(20, 150); if (c < 85) n[g.below(3)] = g.range(min_each, 9); }
        else if (c >= 92) n[g.below(3)] = g.range(30, 160);
        if ((long long)n[0] * n[1] * n[2] <= maxn) return n;
    }
}
bool splittable(std::array<int, 3> n, int procs) {   // every direction has a processor grid for its pencils
    for (int d = 0; d < 3; d++) {
        int a = n[(d + 1) % 3], b = n[(d + 2) % 3]; bool ok = false;
        for (int i = 1; i <= procs; i++) if (procs % i == 0 && i <= a && procs / i <= b) ok = true;
        if (!ok) return false;
    }
    return true;
}
bool is_worker(Case const &c, int r) {
    if (!c.o.explicit_opts) return true;
    if (c.o.subcomm) return (c.o.subcomm >> r) & 1;
    return c.o.subranks <= 0 || r < c.o.subranks;
}
int work_ranks(Case const &c) { int k = 0; for (int r = 0; r < c.nranks; r++) k += is_worker(c, r); return k; }
Case gen_case(uint64_t seed, int idx, int world, GenOpt const &go) {
    Rng g(mix(seed, (uint64_t)idx * 2654435761u + 17));
    Case c; c.seed = seed; c.idx = idx;
    c.nranks = g.chance(0.55) ? world : g.range(1, world);
    if (go.fixed_ranks) c.nranks = world;
    std::vector<int> all(world); for (int i = 0; i < world; i++) all[i] = i;
    if (g.chance(0.35)) for (int i = world - 1; i > 0; i--) std::swap(all[i], all[g.below(i + 1)]);
    c.members.assign(all.begin(), all.begin() + c.nranks);
    c.backend = g.pick(go.backends);
    c.kind = is_r2r(c.backend) ? R2R : g.pick(go.kinds);
    c.prec = g.chance(0.6); c.i64 = g.chance(0.3); c.r2cdir = g.below(3);
    if (go.fixed_r2cdir >= 0) c.r2cdir = go.fixed_r2cdir;
    if (go.fixed_prec >= 0) c.prec = go.fixed_prec;
    int min_each = (c.backend == B_STOCK_COS1 || c.backend == B_FFTW_COS1) ? 2 : 1;
    bool explicit_o = !g.chance(0.12);
    c.o.explicit_opts = explicit_o;
    c.o.alg = g.pick(go.algs); c.o.reorder = g.chance(0.5); c.o.pencils = g.chance(0.6);
    c.o.subranks = g.chance(go.p_subranks) ? g.range(1, c.nranks + 1) : -1;
    if (go.no_subcomm == false && g.chance(go.p_subcomm)) { c.o.subcomm = g.range(1, (1 << c.nranks) - 1) | (g.chance(0.3) ? 1 << 24 : 0); if (g.chance(0.8)) c.o.subranks = -1; }
    if (go.force_explicit) c.o.explicit_opts = true;
    long long maxn = g.chance(go.p_large) ? go.maxn_large : go.maxn;
    bool lng = g.chance(go.p_long); int lmax = is_r2r(c.backend) ? std::min(go.long_max, 700) : go.long_max;
    for (int t = 0;; t++) {
        c.n = gen_size(g, maxn, min_each);
        if (lng) { int d = g.below(3); for (int i = 0; i < 3; i++) c.n[i] = i == d ? (g.chance(0.3) ? g.pick(std::vector<int>{256, 257, 512, 1024, 1025, 2048, 4096, 4097, 16384, 32768, 65536, 65537}) : (int)std::exp(std::log(160.0) + g.unit() * std::log(lmax / 160.0))) : g.range(std::max(1, min_each), c.nranks > 6 ? 5 : 3); if (c.n[d] > lmax) continue; }
        if (go.fixed_n[0] > 0) { c.n = go.fixed_n; break; }
        auto m = c.nout();
        if (c.total() < c.nranks || (long long)m[0] * m[1] * m[2] < c.nranks) continue;
        if (t < 60 && (!splittable(c.n, c.nranks) || !splittable(m, c.nranks)) && !g.chance(0.02)) continue;
        break;
    }
    c.has_empty = g.chance(go.p_empty) && c.nranks > 1;
    int kin = c.nranks, kout = c.nranks;
    if (c.has_empty) { if (g.chance(0.6)) kin = g.range(1, c.nranks - 1); if (kin == c.nranks || g.chance(0.5)) kout = g.range(1, c.nranks - 1); }
    auto pad = [&](std::vector<Box> &v) { while ((int)v.size() < c.nranks) v.push_back(Box()); if (g.chance(0.5)) for (int i = (int)v.size() - 1; i > 0; i--) std::swap(v[i], v[g.below(i + 1)]); };
    c.style = "in:"; c.in = decompose(g, c.n, kin, c.style, -1); if (kin < c.nranks) pad(c.in);
    auto m = c.nout();
    bool same = false;
    if (g.chance(0.25)) {   // same distribution on both sides when the geometry allows it
        if (c.kind != R2C) { c.out = c.in; same = true; }
        else {
            bool pencil = true; for (auto &b : c.in) if (b.vol() > 0 && b.n(c.r2cdir) != c.n[c.r2cdir]) pencil = false;
            if (pencil) { c.out = c.in; for (auto &b : c.out) if (b.vol() > 0) b.hi[c.r2cdir] = m[c.r2cdir] - 1; same = true; }
        }
    }
    if (same) c.style += " out:same"; else { c.style += " out:"; c.out = decompose(g, m, kout, c.style, -1); if (kout < c.nranks) pad(c.out); }
    std::array<int, 3> oi{{0, 1, 2}}, oo{{0, 1, 2}};
    if (g.chance(0.6)) { oi = rand_order(g); oo = g.chance(0.4) ? oi : rand_order(g); }
    for (auto &b : c.in) b.ord = oi; for (auto &b : c.out) b.ord = oo;
    c.scaling = g.below(3);
    c.variant = g.pick(go.variants);
    c.batch = (c.variant >= 2 && c.variant < 4) ? g.range(1, go.max_batch) : 1;
    if (go.min_batch > 1 && c.variant >= 2) c.batch = g.range(go.min_batch, go.max_batch);
    if (c.batch > 1 && go.max_batch > 2 && c.total() <= 900 && g.chance(0.07)) c.batch = g.range(go.max_batch + 1, 20);
    c.inplace = (c.kind == C2C || c.kind == R2R) && c.variant != 4 && g.chance(go.p_inplace);
    return c;
}
