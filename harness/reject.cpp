// P13: invalid requests are refused with the documented exception on every rank, valid neighbours of them are not.
#include "engine.h"
// exact partition of its own bounding box, which starts at 0?  (own code, by enumeration of counts and pairs)
static bool valid_set(std::vector<Box> const &v, Box &w) {
    w = v[0]; for (auto &b : v) for (int d = 0; d < 3; d++) { w.lo[d] = std::min(w.lo[d], b.lo[d]); w.hi[d] = std::max(w.hi[d], b.hi[d]); }
    for (int d = 0; d < 3; d++) if (w.lo[d] != 0) return false;
    long long s = 0; for (auto &b : v) s += b.vol(); if (s != w.vol()) return false;
    for (size_t i = 0; i < v.size(); i++) for (size_t j = i + 1; j < v.size(); j++) { bool hit = v[i].vol() && v[j].vol(); for (int d = 0; d < 3; d++) hit = hit && v[i].lo[d] <= v[j].hi[d] && v[j].lo[d] <= v[i].hi[d]; if (hit) return false; }
    return true;
}
static std::string mutate(Rng &g, std::vector<Box> &v) {   // one defect
    std::vector<int> full; for (size_t i = 0; i < v.size(); i++) if (v[i].vol()) full.push_back((int)i);
    if (full.empty()) return "none";
    int i = g.pick(full), d = g.below(3);
    switch (g.below(8)) {
    case 0: v[i].hi[d]++; return "grow-high";
    case 1: v[i].lo[d]--; return "grow-low";
    case 2: v[i].hi[d]--; return "shrink-high";
    case 3: v[i].lo[d]++; return "shrink-low";
    case 4: { long long s = g.range(1, 3); for (auto &b : v) if (b.vol()) { b.lo[d] += s; b.hi[d] += s; } return "all-shifted"; }
    case 5: { int s = g.chance(0.5) ? 1 : -1; v[i].lo[d] += s; v[i].hi[d] += s; return "one-shifted"; }
    case 6: { int j = g.pick(full); auto o = v[i].ord; v[i] = v[j]; v[i].ord = o; return "duplicate"; }
    default: v[i].hi = {{-1, -1, -1}}; v[i].lo = {{0, 0, 0}}; return "missing";
    }
}
void run_reject() {
    long long refused = 0, accepted = 0, shortv = 0, T[5];
    GenOpt go; go.kinds = {C2C, R2F, R2C}; go.backends = {B_STOCK, B_FFTW, B_MKL, B_FFTW_COS, B_MKL_SIN, B_STOCK_COS}; go.maxn = 700; go.p_large = 0; go.p_empty = 0.15; go.max_batch = 2; go.variants = {0, 1, 4};
    for (int idx = cx.start; idx < cx.start + cx.count; idx++) {
        Rng gs(mix(cx.seed + 61, (uint64_t)idx * 7)), g(mix(cx.seed + 62, (uint64_t)idx * 11 + cx.wrank));
        int what = gs.below(10);      // 0..5 box sets, 6..8 short vectors, 9 worlds too small
        GenOpt o2 = go; if (what >= 6) o2.p_empty = 0;
        Case c = gen_case(cx.seed + 1000, idx, cx.wsize, o2), bad = c; std::string kind; Box w;
        if (what <= 5) {
            for (int t = 0; t < 100; t++) {
                bad = c; int side = gs.below(3); kind = "";
                if (side != 1) { kind += "in:" + mutate(gs, bad.in) + " "; if (gs.chance(0.25)) kind += mutate(gs, bad.in) + " "; }
                if (side != 0) { kind += "out:" + mutate(gs, bad.out); if (gs.chance(0.25)) kind += " " + mutate(gs, bad.out); }
                bool vi = valid_set(bad.in, w), vo = valid_set(bad.out, w);
                // a set that happens to be a partition of another world is a mismatch of worlds, which ends in an assertion, not in an exception
                bool worlds_differ = false;
                if (vi && !vo) { Box wi; valid_set(bad.in, wi); for (int d = 0; d < 3; d++) if (wi.n(d) != c.n[d]) worlds_differ = true; }
                if ((!vi || !vo) && !worlds_differ) break;
                kind = "";
            }
            if (kind.empty()) what = 6;
        }
        if (what == 9) { int a = gs.below(3); for (int d = 0; d < 3; d++) c.n[d] = d == a ? gs.range(cx.wsize, 3 * cx.wsize) : gs.range(1, 2);   // nearly one-dimensional
            if (c.kind == R2C) c.kind = C2C; c.nranks = cx.wsize; c.members.clear(); for (int i = 0; i < cx.wsize; i++) c.members.push_back(i);
            c.o.subranks = -1; c.o.subcomm = 0; std::string st; Rng g2(gs.next()); c.in = decompose(g2, c.n, c.nranks, st, -1); c.out = decompose(g2, c.n, c.nranks, st, -1); c.style = st; if (c.backend == B_STOCK_COS1 || c.backend == B_FFTW_COS1) c.backend = B_FFTW; }
        int ctor = gs.below(4), dir = gs.below(2);
        start_case(idx, (what <= 5 ? "invalid boxes (" + kind + ") in=" + str(bad.in) + " out=" + str(bad.out) + " of " : what <= 8 ? std::string("short vector ") : std::string("small world ")) + c.text() + " dir=" + std::to_string(dir));
        MPI_Comm comm = make_comm(c.members); int me = 0; for (size_t i = 0; i < c.members.size(); i++) if (c.members[i] == cx.wrank) me = (int)i;
        std::string outcome = "ok";
        if (comm != MPI_COMM_NULL) {
            mon.reset_counts(); mon.enabled = true; long long c0 = mon.live_comms, g0 = mon.live_groups; mon.wlo = mon.whi = nullptr; mon.sync_send = mon.any_order = mon.check_match = mon.poison_recv = false; mon.delay_pct = 0;
            if (what <= 5) {
                std::unique_ptr<IPlan> p; std::string got = "no exception";
                try { p = make_plan(c.backend, c.i64, c.kind, c.r2cdir, bad.in[me], bad.out[me], comm, c.o, ctor); }
                catch (std::invalid_argument &e) { got = ""; } catch (std::exception &e) { got = std::string("an exception of another type: ") + e.what(); } catch (...) { got = "an unknown exception"; }
                if (!got.empty()) cx.bad("accepted", "boxes that are no partition (" + kind + ") gave " + got); else refused++;
                p.reset();
                if (mon.live_comms != c0 || mon.live_groups != g0) cx.bad("leak", "a refused plan leaves communicators or groups behind");
            }
            // the valid request on the same communicator works
            std::unique_ptr<IPlan> p; int st = 0; std::string why;
            try { p = make_plan(c.backend, c.i64, c.kind, c.r2cdir, c.in[me], c.out[me], comm, c.o, ctor); } catch (std::exception &e) { st = 1; why = e.what(); }
            int k = work_ranks(c);
            bool can = splittable(c.n, k) && splittable(c.nout(), k);
            if (st && can) cx.bad("refused", "valid boxes were refused: " + why);
            int all[2] = {st, -st}; PMPI_Allreduce(MPI_IN_PLACE, all, 2, MPI_INT, MPI_MAX, comm);
            if (all[0] != -all[1]) cx.bad("mismatch", "only some ranks refused: " + why);
            if (all[0]) { p.reset(); outcome = "refused"; refused++; PMPI_Barrier(comm);
                // the communicator is fine: a plan with everything on rank 0's neighbours still works on a friendlier world
                Case f = c; f.o = Opts(); f.n = {{12, 13, 12}}; if (c.nranks > 12) f.n = {{c.nranks, c.nranks + 1, c.nranks}}; f.kind = C2C; f.backend = B_FFTW; f.inplace = false; f.variant = 0; f.batch = 1; std::string sty; Rng g3(gs.s ^ 5); Rng g4 = g3; (void)g4;
                f.in = decompose(g3, f.n, c.nranks, sty, 5); f.out = f.in; f.has_empty = false;
                try { p = make_plan(f.backend, 0, f.kind, 0, f.in[me], f.out[me], comm, f.o, 0); exec_check(*p, f, me, dir, g, nullptr, "after a refusal"); accepted++; } catch (std::exception &e) { cx.bad("refused", std::string("after a refusal: ") + e.what()); }
            } else {
                if (what <= 8 && what >= 6) for (int step = 0; step < 4; step++) {
                    // lengths below the box size have to be refused before anything is read or sent, by every rank
                    size_t li = (size_t)(dir == 0 ? c.in[me].vol() : c.out[me].vol()), lo = (size_t)(dir == 0 ? c.out[me].vol() : c.in[me].vol());
                    int mode = gs.below(4); size_t len = li == 0 ? 0 : mode == 0 ? li - 1 : mode == 1 ? 0 : mode == 2 ? li / 2 : (size_t)g.below((int)li);
                    std::vector<char> src((li + 8) * 16, 0x3f), dst((lo + 8) * 16); bool ok = false; std::string got = "no exception";
                    try { p->exec_vector(dir, c.prec, src.data(), len, dst.data(), lo, c.scaling); } catch (std::invalid_argument &) { ok = true; } catch (std::exception &e) { got = std::string("another exception: ") + e.what(); }
                    if (li && !ok) cx.bad("short", "a vector of " + std::to_string(len) + " entries for " + std::to_string(li) + " gave " + got); else shortv++;
                    dir = 1 - dir;
                }
                if (what <= 8 && what >= 6 && c.variant == 4) {    // longer than needed is fine
                    size_t li = (size_t)c.in[me].vol(), lo = (size_t)c.out[me].vol(); std::vector<char> src((li + 40) * 16, 0), dst((lo + 8) * 16);
                    try { size_t n = p->exec_vector(0, c.prec, src.data(), li + (size_t)g.below(20), dst.data(), lo, 0); if (n != lo) cx.bad("vector-size", "wrong number of entries"); } catch (std::exception &e) { cx.bad("refused", std::string("a long enough vector was refused: ") + e.what()); }
                }
                exec_check(*p, c, me, dir, g, nullptr, "valid request"); accepted++;
            }
            p.reset();
            if (mon.live_comms != c0 || mon.live_groups != g0) cx.bad("leak", "communicators or groups are left behind");
            mon.enabled = false; mon.errors.clear(); PMPI_Comm_free(&comm);
        }
        end_case(idx, std::to_string(what) + kind + c.sig(), outcome + " " + (what <= 5 ? kind : what <= 8 ? "short" : "small"));
    }
    long long v[5] = {refused, accepted, shortv, ec_values, ec_calls}; PMPI_Reduce(v, T, 5, MPI_LONG_LONG, MPI_SUM, 0, MPI_COMM_WORLD);
    cx.stat["refused"] = (double)T[0]; cx.stat["accepted"] = (double)T[1]; cx.stat["short_vectors_refused"] = (double)T[2]; cx.stat["values_compared"] = (double)T[3]; cx.stat["transform_calls_all_ranks"] = (double)T[4];
}
