// Geometry helpers and the logic of the transform plan on generated (also huge) worlds; no communication.
#include "engine.h"
#include "heffte.h"
#pragma GCC visibility push(hidden)
template<class I> static heffte::box3d<I> hb(Box const &b) { return heffte::box3d<I>(std::array<I, 3>{(I)b.lo[0], (I)b.lo[1], (I)b.lo[2]}, std::array<I, 3>{(I)b.hi[0], (I)b.hi[1], (I)b.hi[2]}, b.ord); }
template<class I> static Box fb(heffte::box3d<I> const &b) { Box r; for (int i = 0; i < 3; i++) { r.lo[i] = b.low[i]; r.hi[i] = b.high[i]; r.ord[i] = b.order[i]; } return r; }
template<class I> static std::vector<Box> fv(std::vector<heffte::box3d<I>> const &v) { std::vector<Box> r; for (auto &b : v) r.push_back(fb(b)); return r; }
static Box cut(Box const &a, Box const &b) { Box r = a; for (int d = 0; d < 3; d++) { r.lo[d] = std::max(a.lo[d], b.lo[d]); r.hi[d] = std::min(a.hi[d], b.hi[d]); } return r; }
typedef __int128 i128;
static i128 vol(Box const &b) { return (i128)b.n(0) * b.n(1) * b.n(2); }
static bool same(Box const &a, Box const &b) { return (a.vol() == 0 && b.vol() == 0) || (a.lo == b.lo && a.hi == b.hi); }
static bool same(std::vector<Box> const &a, std::vector<Box> const &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!same(a[i], b[i])) return false; return true; }
// empty: the boxes are an exact partition of the world
static std::string partition(std::vector<Box> const &v, Box const &w) {
    i128 s = 0; for (auto &b : v) { if (b.vol() == 0) continue; s += vol(b); for (int d = 0; d < 3; d++) if (b.lo[d] < w.lo[d] || b.hi[d] > w.hi[d]) return "box " + str(b) + " is not inside the world " + str(w); }
    if (s != vol(w)) return "the boxes hold " + std::to_string((double)s) + " indexes, the world " + std::to_string((double)vol(w));
    for (size_t i = 0; i < v.size(); i++) for (size_t j = 0; j < i; j++) if (v[i].vol() && v[j].vol() && vol(cut(v[i], v[j])) > 0) return "boxes " + str(v[i]) + " and " + str(v[j]) + " overlap";
    return "";
}
static Box world_of(std::array<long long, 3> n) { Box w; for (int d = 0; d < 3; d++) { w.lo[d] = 0; w.hi[d] = n[d] - 1; } return w; }
static std::vector<Box> big_split(Rng &g, std::array<long long, 3> n, int k) {   // decomposition of a possibly huge world
    std::vector<Box> r{world_of(n)};
    while ((int)r.size() < k) { int i = g.below((int)r.size()), d = g.below(3); Box b = r[i]; if (b.n(d) < 2) { bool ok = false; for (auto &x : r) if (vol(x) > 1) ok = true; if (!ok) break; continue; }
        long long at = g.chance(0.5) ? b.lo[d] + b.n(d) / 2 - 1 : b.lo[d] + (long long)(g.next() % (uint64_t)(b.n(d) - 1)); Box x = b, y = b; x.hi[d] = at; y.lo[d] = at + 1; r[i] = x; r.push_back(y); }
    for (int i = (int)r.size() - 1; i > 0; i--) if (g.chance(0.5)) std::swap(r[i], r[g.below(i + 1)]);
    return r;
}
static std::vector<Box> grid_split(Rng &g, std::array<long long, 3> n, int k, int want) { // slabs / pencils / grids, empty when impossible
    std::vector<std::array<int, 3>> gr; for (int a = 1; a <= k; a++) if (k % a == 0) for (int b = 1; b <= k / a; b++) if ((k / a) % b == 0) { std::array<int, 3> p{a, b, k / a / b}; int ones = (a == 1) + (b == 1) + (p[2] == 1); if (p[0] <= n[0] && p[1] <= n[1] && p[2] <= n[2] && (want == 0 ? ones >= 2 : want == 1 ? ones >= 1 : true)) gr.push_back(p); }
    if (gr.empty()) return {}; auto p = g.pick(gr); std::vector<Box> r;
    std::vector<long long> c[3]; for (int d = 0; d < 3; d++) { std::set<long long> s{0, n[d]}; if (g.chance(0.5)) for (int i = 1; i < p[d]; i++) s.insert(n[d] / p[d] * i); while ((int)s.size() < p[d] + 1) s.insert((long long)(g.next() % (uint64_t)n[d])); c[d].assign(s.begin(), s.end()); }
    for (int z = 0; z < p[2]; z++) for (int y = 0; y < p[1]; y++) for (int x = 0; x < p[0]; x++) { Box b; b.lo = {c[0][x], c[1][y], c[2][z]}; b.hi = {c[0][x + 1] - 1, c[1][y + 1] - 1, c[2][z + 1] - 1}; r.push_back(b); }
    if (g.chance(0.3)) for (int i = (int)r.size() - 1; i > 0; i--) std::swap(r[i], r[g.below(i + 1)]);
    return r;
}
static std::array<long long, 3> big_size(Rng &g, bool i64, int k) {
    for (;;) {
        std::array<long long, 3> n; int c = g.below(10);
        for (int d = 0; d < 3; d++) n[d] = c < 4 ? g.range(1, 40) : c < 6 ? g.range(1, 300) : c < 7 ? (g.chance(0.5) ? 1 : g.range(1, 30000)) : i64 ? (long long)std::exp(g.unit() * (c < 9 ? 9.5 : 21)) : g.range(1, 1290);
        i128 v = (i128)n[0] * n[1] * n[2]; if (v < k || v > (i64 ? (i128)1 << 58 : (i128)2000000000)) continue;
        return n;
    }
}
static std::map<std::string, long long> T;
static std::string dims(std::array<long long, 3> n) { return std::to_string(n[0]) + "x" + std::to_string(n[1]) + "x" + std::to_string(n[2]); }
template<class I> static void plan_case(int idx, Rng &g) {
    int k = g.chance(0.15) ? 1 : g.chance(0.8) ? g.range(2, 24) : g.range(25, 96); auto n = big_size(g, sizeof(I) == 8, k);
    int r2c = g.chance(0.4) ? g.below(3) : -1; auto m = n; if (r2c >= 0) m[r2c] = n[r2c] / 2 + 1;
    if ((i128)m[0] * m[1] * m[2] < k) { r2c = -1; m = n; }
    auto dec = [&](std::array<long long, 3> s) { int w = g.below(10); std::vector<Box> r; if (w < 3) r = grid_split(g, s, k, 0); else if (w < 6) r = grid_split(g, s, k, 1); else if (w < 8) r = grid_split(g, s, k, 2); if (r.empty()) r = big_split(g, s, k); return r; };
    std::vector<Box> in = dec(n), out; if (r2c < 0 && g.chance(0.25)) out = in; else out = dec(m);
    if (g.chance(0.1) && k > 1) { in = big_split(g, n, g.range(1, k - 1)); in.resize(k); for (int i = k - 1; i > 0; i--) std::swap(in[i], in[g.below(i + 1)]); }
    if (g.chance(0.1) && k > 1) { out = big_split(g, m, g.range(1, k - 1)); out.resize(k); for (int i = k - 1; i > 0; i--) std::swap(out[i], out[g.below(i + 1)]); }
    auto oi = g.chance(0.5) ? std::array<int, 3>{0, 1, 2} : rand_order(g), oo = g.chance(0.5) ? oi : rand_order(g); for (auto &b : in) b.ord = oi; for (auto &b : out) b.ord = oo;
    heffte::plan_options o = heffte::default_options<heffte::backend::stock>(); o.use_reorder = g.chance(0.5); o.use_pencils = g.chance(0.5); int sub = g.chance(0.25) ? g.range(1, k + 1) : -1; if (sub > 0) o.use_num_subranks(sub);
    std::ostringstream t; t << "plan " << (sizeof(I) == 8 ? "long long" : "int") << " world=" << dims(n) << " r2c=" << r2c << " ranks=" << k << " reorder=" << o.use_reorder << " pencils=" << o.use_pencils << " subranks=" << sub << " in=" << str(in).substr(0, 500) << " out=" << str(out).substr(0, 500);
    start_case(idx, t.str());
    Box win = world_of(n), wout = world_of(m);
    heffte::ioboxes<I> bx; for (auto &b : in) bx.in.push_back(hb<I>(b)); for (auto &b : out) bx.out.push_back(hb<I>(b));
    int ks = (sub > 0 && sub < k) ? sub : k; std::string outcome = "ok";
    try {
        auto p = heffte::plan_operations(bx, r2c, o, 0);
        std::vector<Box> s_in[4], s_out[4]; for (int i = 0; i < 4; i++) { s_in[i] = fv(p.in_shape[i]); s_out[i] = fv(p.out_shape[i]); }
        auto bad = [&](std::string const &key, std::string const &m) { cx.bad(key, m); };
        if (!same(s_in[0], in)) bad("plan-input", "the first stage does not start from the input boxes");
        if (!same(s_out[3], out)) bad("plan-output", "the last stage does not end with the output boxes");
        for (int i = 0; i < k; i++) { if (in[i].vol() && s_in[0][i].ord != oi) bad("plan-input", "the order of the input boxes is lost"); if (out[i].vol() && s_out[3][i].ord != oo) bad("plan-output", "the order of the output boxes is lost"); }
        std::set<int> dd(p.fft_direction.begin(), p.fft_direction.end());
        if (dd != std::set<int>{0, 1, 2}) bad("plan-directions", "the directions of the 1-D transforms are not a permutation");
        else {
            if (r2c >= 0 && p.fft_direction[0] != r2c) bad("plan-directions", "the reduced direction is not transformed first");
            for (int i = 0; i < 4; i++) {
                Box const &wi = i == 0 ? win : wout, &wo = i == 0 ? win : wout;
                std::string e = partition(s_in[i], wi); if (!e.empty()) bad("plan-partition", "stage " + std::to_string(i) + " input: " + e);
                e = partition(s_out[i], wo); if (!e.empty()) bad("plan-partition", "stage " + std::to_string(i) + " output: " + e);
                for (auto *v : {&s_in[i], &s_out[i]}) for (auto &b : *v) { std::set<int> q(b.ord.begin(), b.ord.end()); if (q != std::set<int>{0, 1, 2}) bad("plan-order", "a box has no valid order"); if (b.vol() && b.ord != (*v)[0].ord) bad("plan-order", "the boxes of one stage differ in their order"); }
            }
            for (int i = 0; i < 3; i++) {
                Box const &w = i == 0 ? win : wout; int d = p.fft_direction[i];
                for (auto &b : s_out[i]) if (b.vol() && (b.lo[d] != w.lo[d] || b.hi[d] != w.hi[d])) { bad("plan-pencil", "transform " + std::to_string(i) + " runs along direction " + std::to_string(d) + " that is split: " + str(b)); break; }
                if (o.use_reorder) for (auto &b : s_out[i]) if (b.vol() && b.ord[0] != d) { bad("plan-contiguous", "with use_reorder the lines of transform " + std::to_string(i) + " are not contiguous"); break; }
                std::vector<Box> next = s_out[i]; if (i == 0 && r2c >= 0) for (auto &b : next) if (b.vol()) b.hi[r2c] = wout.hi[r2c];
                if (!same(next, s_in[i + 1])) bad("plan-chain", "stage " + std::to_string(i + 1) + " does not start where stage " + std::to_string(i) + " ends");
                if (next[0].ord != s_in[i + 1][0].ord) bad("plan-chain", "the order changes between the stages");
                if (ks < k) { // only the first ranks take part, unless the geometry of the user is already suitable
                    std::vector<Box> oi2 = in; if (i > 0 && r2c >= 0) for (auto &b : oi2) if (b.vol()) b.hi[r2c] = wout.hi[r2c];
                    std::vector<Box> oo2 = out; if (i == 0 && r2c >= 0) for (auto &b : oo2) if (b.vol()) b.hi[r2c] = win.hi[r2c];
                    if (!same(s_out[i], oi2) && !same(s_out[i], oo2)) for (int q = ks; q < k; q++) if (s_out[i][q].vol()) { bad("plan-subranks", "rank " + std::to_string(q) + " takes part in transform " + std::to_string(i) + " although only " + std::to_string(ks) + " ranks were asked for"); break; }
                    T["stages_with_subranks"]++;
                }
            }
            for (int d = 0; d < 3; d++) if ((long long)p.fft_sizes[d] != n[d]) bad("plan-sizes", "the size of the 1-D transforms is wrong");
            if ((i128)p.index_count != vol(win)) bad("plan-count", "the number of indexes used for scaling is wrong");
            for (int r = 1; r < std::min(k, 4); r++) { auto q = heffte::plan_operations(bx, r2c, o, r); bool eq = q.fft_direction == p.fft_direction; for (int i = 0; i < 4; i++) { auto a = fv(q.in_shape[i]), b = fv(q.out_shape[i]); for (int j = 0; j < k; j++) eq = eq && str(a[j]) == str(s_in[i][j]) && str(b[j]) == str(s_out[i][j]); } if (!eq) bad("plan-ranks", "two ranks compute different plans"); }
            auto grids = heffte::compute_grids(p); if (grids.size() != 5) bad("plan-grids", "compute_grids does not describe the five layouts");
            else for (int i = 0; i < 5; i++) { // distinct intervals per direction; boxes without indexes count as long as they are written as usual
                auto const &v = i < 4 ? s_in[i] : s_out[3]; std::set<std::pair<long long, long long>> iv[3]; bool odd = false;
                for (auto &b : v) for (int d = 0; d < 3; d++) { if (b.vol() == 0) { if (b.lo[d] != 0 || b.hi[d] != -1) odd = true; } else iv[d].insert({b.lo[d], b.hi[d]}); }
                if (!odd) { T["grids_described"]++; for (int d = 0; d < 3; d++) if (grids[i][d] != (int)iv[d].size()) bad("plan-grids", "compute_grids finds " + std::to_string(grids[i][d]) + " intervals in direction " + std::to_string(d) + " of layout " + std::to_string(i) + ", there are " + std::to_string(iv[d].size())); }
            }
            T["plans_checked"]++; if ((double)n[0] * n[1] * n[2] > 2147483647.0) T["plans_beyond_2^31_indexes"]++;
        }
    } catch (std::runtime_error &e) {
        bool can = true; auto one = [&](std::array<long long, 3> s) { for (int d = 0; d < 3; d++) { long long a = s[(d + 1) % 3], b = s[(d + 2) % 3]; bool ok = false; for (int i = 1; i <= ks; i++) if (ks % i == 0 && i <= a && ks / i <= b) ok = true; if (!ok) can = false; } };
        one(n); one(m); if (can) cx.bad("plan-refused", std::string("a valid geometry was refused: ") + e.what()); outcome = "refused"; T["plans_refused"]++;
    }
    end_case(idx, t.str(), outcome + " plan");
}
template<class I> static void tools_case(int idx, Rng &g) {
    int what = g.below(6); std::ostringstream t; static char const *nm[] = {"split_world", "min_surface", "procgrid", "box", "pencils", "complete"};
    int k = g.chance(0.8) ? g.range(1, 48) : g.range(49, 600); auto n = big_size(g, sizeof(I) == 8, 1); Box w = world_of(n); w.ord = rand_order(g);
    if (what == 0) for (int d = 0; d < 3; d++) { if (g.chance(0.4)) { long long s = g.range(0, 50); w.lo[d] += s; w.hi[d] += s; } }
    t << nm[what] << (sizeof(I) == 8 ? " long long" : " int") << " world=" << str(w) << " n=" << k;
    std::array<int, 3> p{1, 1, 1};
    if (what == 0) { for (int d = 0; d < 3; d++) p[d] = g.chance(0.3) ? 1 : g.range(1, g.chance(0.7) ? (int)std::min(8ll, n[d]) : 9); t << " grid " << p[0] << "x" << p[1] << "x" << p[2]; }
    start_case(idx, t.str()); auto hw = hb<I>(w);
    if (what == 0) {
        auto v = fv(heffte::split_world(hw, p)); if ((int)v.size() != p[0] * p[1] * p[2]) cx.bad("split-count", "wrong number of boxes");
        else {
            std::string e = partition(v, w); if (!e.empty()) cx.bad("split-partition", e);
            long long mn[3] = {1ll << 60, 1ll << 60, 1ll << 60}, mx[3] = {0, 0, 0}; for (auto &b : v) for (int d = 0; d < 3; d++) { mn[d] = std::min(mn[d], b.n(d)); mx[d] = std::max(mx[d], b.n(d)); }
            for (int d = 0; d < 3; d++) if (mx[d] - mn[d] > 1) cx.bad("split-balance", "the parts of one direction differ by more than one index");
            for (size_t i = 0; i < v.size(); i++) { if (v[i].ord != w.ord) cx.bad("split-order", "the order of the world is not kept"); if ((int)(i % p[0]) > 0 && v[i].vol() && v[i - 1].vol() && v[i].lo[0] != v[i - 1].hi[0] + 1) cx.bad("split-rank-order", "the first direction does not move fastest with the rank"); }
            std::vector<heffte::box3d<I>> hv; for (auto &b : v) if (b.vol()) hv.push_back(hb<I>(b)); Box f = fb(heffte::find_world(hv)); if (!same(f, w)) cx.bad("find-world", "find_world does not recover the world");
        }
    } else if (what == 1) {
        double vv = (double)n[0] * n[1] * n[2]; std::vector<std::array<int, 3>> valid; for (int a = 1; a <= k; a++) if (k % a == 0) for (int b = 1; b <= k / a; b++) if ((k / a) % b == 0) { std::array<int, 3> c{a, b, k / a / b}; if (c[0] <= n[0] && c[1] <= n[1] && c[2] <= n[2]) valid.push_back(c); }
        if (!valid.empty() && vv >= k) {
            auto r = heffte::proc_setup_min_surface(hw, k);
            if (std::find(valid.begin(), valid.end(), r) == valid.end()) cx.bad("min-surface-grid", "the grid " + std::to_string(r[0]) + "x" + std::to_string(r[1]) + "x" + std::to_string(r[2]) + " is not a valid factorization");
            else if (k > 1) {
                bool best = false; for (int metric = 0; metric < 3 && !best; metric++) {
                    auto surf = [&](std::array<int, 3> c) { long double s[3]; for (int d = 0; d < 3; d++) s[d] = metric == 0 ? (long double)(n[d] / c[d]) : metric == 1 ? (long double)((n[d] + c[d] - 1) / c[d]) : (long double)n[d] / c[d]; return s[0] * s[1] + s[1] * s[2] + s[2] * s[0]; };
                    long double mn = 1e30L; for (auto &c : valid) mn = std::min(mn, surf(c)); if (surf(r) <= mn * (1 + 1e-12L)) best = true; }
                if (!best) cx.bad("min-surface", "the grid " + std::to_string(r[0]) + "x" + std::to_string(r[1]) + "x" + std::to_string(r[2]) + " does not have the least surface");
            }
            T["grids_checked"]++;
        }
    } else if (what == 2) {
        auto r = heffte::make_procgrid(k); long long mn = 1ll << 60; for (int a = 1; a <= k; a++) if (k % a == 0) mn = std::min(mn, (long long)a + k / a);
        if ((long long)r[0] * r[1] != k) cx.bad("procgrid", "the grid has the wrong number of ranks"); else if (r[0] + r[1] != mn) cx.bad("procgrid", "the grid is not the most square one");
        auto f = heffte::get_factors(k); std::set<std::array<int, 2>> s(f.begin(), f.end()), s2; for (int a = 1; a <= k; a++) if (k % a == 0) s2.insert({a, k / a}); if (s != s2) cx.bad("factors", "get_factors is incomplete or wrong");
        int d = g.below(3); bool can = false; for (auto &a : s2) { long long q[2]; int c = 0; for (int e = 0; e < 3; e++) if (e != d) q[c++] = n[e]; if (a[0] <= q[0] && a[1] <= q[1]) can = true; }
        try { auto p2 = heffte::make_procgrid2d(hw, d, r); if (!can) cx.bad("procgrid2d", "a grid was made where none fits"); if ((long long)p2[0] * p2[1] * p2[2] != k || p2[d] != 1) cx.bad("procgrid2d", "wrong grid"); for (int e = 0; e < 3; e++) if (p2[e] > n[e]) cx.bad("procgrid2d", "more ranks than indexes in a direction"); }
        catch (std::runtime_error &) { if (can) cx.bad("procgrid2d", "no grid was found although one exists"); }
    } else if (what == 3) {
        auto rb = [&]() { Box b; for (int d = 0; d < 3; d++) { b.lo[d] = g.range(0, 9); b.hi[d] = b.lo[d] + g.range(-1, 6); } b.ord = rand_order(g); return b; };
        for (int q = 0; q < 40; q++) {
            Box a = rb(), b = rb(); auto ha = hb<I>(a), hbx = hb<I>(b);
            if (ha.count() != a.vol() || ha.empty() != (a.vol() == 0)) cx.bad("box-count", "count/empty of " + str(a));
            Box c = fb(ha.collide(hbx)); long long v = 0; a.each([&](std::array<long long, 3> const &x, long long) { if (b.has(x[0], x[1], x[2])) { v++; if (!c.has(x[0], x[1], x[2])) cx.bad("box-collide", "collide misses an index of " + str(a) + " and " + str(b)); } }); if (c.vol() != v) cx.bad("box-collide", "collide has extra indexes");
            if (a.vol() && b.vol() && v && c.ord != a.ord) cx.bad("box-collide", "collide loses the order");
            if ((ha == hbx) != (a.lo == b.lo && a.hi == b.hi) || (ha != hbx) == (ha == hbx)) cx.bad("box-equal", "comparison of boxes");
            if (ha.ordered_same_as(hbx) != (a.ord == b.ord)) cx.bad("box-order", "ordered_same_as");
            for (int d = 0; d < 3; d++) { if (ha.osize(d) != (I)(a.hi[a.ord[d]] - a.lo[a.ord[d]] + 1)) cx.bad("box-osize", "osize"); if (a.ord[ha.find_order(a.ord[d])] != a.ord[d]) cx.bad("box-find-order", "find_order");
                Box h = fb(ha.r2c(d)), e = a; e.hi[d] = a.lo[d] + a.n(d) / 2; if (a.vol() && (!same(h, e) || h.ord != a.ord)) cx.bad("box-r2c", "r2c of " + str(a) + " in direction " + std::to_string(d) + " is " + str(h)); if (!a.vol() && h.vol()) cx.bad("box-r2c", "r2c of an empty box is not empty"); }
            T["boxes_checked"]++;
        }
    } else if (what == 4) {
        int d = g.below(3); k = g.range(1, 30); std::vector<Box> src = big_split(g, n, k); if ((int)src.size() == k) {
            std::vector<heffte::box3d<I>> hs; for (auto &b : src) hs.push_back(hb<I>(b)); auto o = rand_order(g); auto grid = heffte::make_procgrid(k);
            try { auto v = fv(heffte::make_pencils(hb<I>(world_of(n)), grid, d, hs, o)); std::string e = partition(v, world_of(n)); if (!e.empty()) cx.bad("pencils-partition", e); for (auto &b : v) { if (b.vol() && b.n(d) != n[d]) cx.bad("pencils", "a box is not a pencil"); if (b.ord != o) cx.bad("pencils-order", "the requested order is not used"); } }
            catch (std::runtime_error &) { bool can = false; long long q[2]; int c = 0; for (int e = 0; e < 3; e++) if (e != d) q[c++] = n[e]; for (int a = 1; a <= k; a++) if (k % a == 0 && a <= q[0] && k / a <= q[1]) can = true; if (can) cx.bad("pencils-refused", "make_pencils refused a possible grid"); }
            T["pencils_checked"]++;
        }
    } else {   // world_complete must accept exactly the partitions of worlds that start at 0
        k = g.range(1, 20); std::array<long long, 3> m{{g.range(1, 12), g.range(1, 12), g.range(1, 12)}}; std::vector<Box> v = big_split(g, m, k); int defect = g.below(5); std::string want;
        if (defect == 1) { int i = g.below((int)v.size()), d = g.below(3); if (v[i].hi[d] < m[d] - 1) v[i].hi[d]++; else v[i].lo[d] -= v[i].lo[d] > 0; }
        if (defect == 2) { int i = g.below((int)v.size()), d = g.below(3); v[i].hi[d]--; }
        if (defect == 3) { int d = g.below(3), s = g.range(1, 5); for (auto &b : v) { b.lo[d] += s; b.hi[d] += s; } }
        if (defect == 4 && v.size() > 1) { v[0] = v.back(); }
        Box f = v[0]; for (auto &b : v) for (int d = 0; d < 3; d++) { f.lo[d] = std::min(f.lo[d], b.lo[d]); f.hi[d] = std::max(f.hi[d], b.hi[d]); }
        bool ok = partition(v, f).empty() && f.lo == std::array<long long, 3>{0, 0, 0}; std::vector<heffte::box3d<I>> hv; for (auto &b : v) hv.push_back(hb<I>(b));
        auto hwld = heffte::find_world(hv); if (!same(fb(hwld), f)) cx.bad("find-world", "find_world is not the bounding box");
        bool got; try { got = heffte::world_complete(hv, hwld); } catch (std::invalid_argument &) { got = false; }
        if (got != ok) cx.bad("world-complete", std::string("world_complete ") + (got ? "accepts" : "refuses") + " " + str(v)); T[ok ? "complete_worlds" : "defective_worlds"]++;
    }
    end_case(idx, t.str(), std::string("ok ") + nm[what]);
}
#pragma GCC visibility pop
void dispatch(std::string const &) {
    for (int idx = cx.start; idx < cx.start + cx.count; idx++) {
        Rng g(mix(cx.seed + 4021, (uint64_t)idx)); bool l = g.chance(0.5), plan = g.chance(0.65);
        if (plan) { if (l) plan_case<long long>(idx, g); else plan_case<int>(idx, g); } else { if (l) tools_case<long long>(idx, g); else tools_case<int>(idx, g); }
    }
    for (auto &t : T) cx.stat[t.first] = (double)t.second;
}
