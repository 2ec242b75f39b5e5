// P14: the C interface against the reference and against the C++ plan of the same description, and its failures.
#include "engine.h"
#include "capi_shim.h"
#include "heffte.h"
struct CPlan : IPlan {
    void *h = nullptr; bool cplx; int r2c;
    ~CPlan() { if (h) shim_destroy(h); }
    long long size_inbox() const override { return shim_info(h, 0); }
    long long size_outbox() const override { return shim_info(h, 1); }
    size_t size_workspace() const override { return (size_t)shim_info(h, 2); }
    size_t size_comm() const override { return 0; }
    double factor(int) const override { return 1; }
    Box inbox() const override { return Box(); }
    Box outbox() const override { return Box(); }
    void relocate() override {}
    void exec(int dir, int prec, int variant, int, void const *in, void *out, void *ws, int sc) override { char dummy[16]; shim_exec(h, dir, prec, cplx, in, out, variant == 1 ? (ws ? ws : dummy) : nullptr, shim_scale(sc)); }
    size_t exec_vector(int, int, void const *, size_t, void *, size_t, int) override { return 0; }
};
template<class B> static heffte::plan_options dopt() { return heffte::default_options<B>(); }
void dispatch(std::string const &) {
    GenOpt go; go.kinds = {C2C, C2C, R2F, R2C, R2C}; go.algs = {A_A2AV, A_P2PP, A_P2P}; go.maxn = 900; go.p_large = 0; go.p_empty = 0.15; go.variants = {0, 1}; go.p_subranks = 0; go.no_subcomm = true; go.p_inplace = 0.25;
    long long created = 0, failures = 0, profiles = 0, T[5];
    for (int idx = cx.start; idx < cx.start + cx.count; idx++) {
        Rng gs(mix(cx.seed + 91, (uint64_t)idx * 7)), g(mix(cx.seed + 92, (uint64_t)idx * 11 + cx.wrank));
        Case c = gen_case(cx.seed + 4000, idx, cx.wsize, go); c.i64 = 0; bool gpu = gs.chance(0.5); int fail = gs.below(6), badbe = gs.pick(std::vector<int>{-1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 100, 999, -100}), badalg = gs.pick(std::vector<int>{-1, 3, 4, 5, 77, 1 << 30});
        start_case(idx, c.text() + " failure=" + std::to_string(fail) + " backend=" + std::to_string(badbe) + " algorithm=" + std::to_string(badalg));
        MPI_Comm comm = make_comm(c.members); int me = 0; for (size_t i = 0; i < c.members.size(); i++) if (c.members[i] == cx.wrank) me = (int)i; std::string outcome = "ok";
        if (comm != MPI_COMM_NULL) {
            mon.reset_counts(); mon.enabled = true; long long c0 = mon.live_comms, g0 = mon.live_groups; mon.wlo = mon.whi = nullptr;
            int be = shim_backend(c.backend), il[3], ih[3], ol[3], oh[3];
            auto fill = [&](Box const &a, Box const &b) { for (int d = 0; d < 3; d++) { il[d] = (int)a.lo[d]; ih[d] = (int)a.hi[d]; ol[d] = (int)b.lo[d]; oh[d] = (int)b.hi[d]; } };
            auto defo = [](Box const &b) { return b.ord[0] == 0 && b.ord[1] == 1; };
            int const *io = defo(c.in[me]) && gs.chance(0.7) ? nullptr : c.in[me].ord.data(), *oo = defo(c.out[me]) && gs.chance(0.7) ? nullptr : c.out[me].ord.data();
            shim_opts o{c.o.reorder ? 1 + gs.below(3) * 7 : 0, shim_alg(c.o.alg), c.o.pencils ? 1 - gs.below(3) * 9 : 0, gpu ? 1 : 0}; if (c.o.pencils && o.pencils == 0) o.pencils = 1;
            int dirr = c.kind == R2C ? c.r2cdir : -1; void *h = nullptr;
            // failures first: they leave nothing behind and the next call works
            if (fail == 0) {
                bool known = badbe == shim_backend(0) || badbe == shim_backend(1) || badbe == shim_backend(2);
                if (!known) {
                    shim_opts t; int rc = shim_default_options(badbe, &t, 0x33); if (rc != 1) cx.bad("code", "heffte_set_default_options of backend " + std::to_string(badbe) + " returned " + std::to_string(rc) + " instead of 1");
                    fill(c.in[me], c.out[me]); rc = shim_create(badbe, il, ih, io, ol, oh, oo, dirr, comm, gs.chance(0.5) ? &o : nullptr, &h); if (rc != 1) cx.bad("code", "plan creation with backend " + std::to_string(badbe) + " returned " + std::to_string(rc) + " instead of 1"); failures++;
                }
            } else if (fail == 1) {
                shim_opts t = o; t.algorithm = badalg; bool known = badalg == shim_alg(0) || badalg == shim_alg(2) || badalg == shim_alg(3);
                if (!known) { fill(c.in[me], c.out[me]); int rc = shim_create(be, il, ih, io, ol, oh, oo, dirr, comm, &t, &h); if (rc != 2) cx.bad("code", "plan creation with algorithm " + std::to_string(badalg) + " returned " + std::to_string(rc) + " instead of 2"); failures++; }
            } else if (fail == 2) {
                Case b = c; int d = gs.below(3); for (auto &x : b.in) if (x.vol()) { x.lo[d] += 2; x.hi[d] += 2; } for (auto &x : b.out) if (x.vol()) { x.lo[d] += 2; x.hi[d] += 2; }
                bool empties = false; for (auto &x : c.in) empties = empties || !x.vol(); for (auto &x : c.out) empties = empties || !x.vol();
                fill(b.in[me], b.out[me]); if (!empties) { int rc = shim_create(be, il, ih, io, ol, oh, oo, dirr, comm, &o, &h); if (rc != 2) cx.bad("code", "boxes that do not start at 0 returned " + std::to_string(rc) + " instead of 2"); failures++; }
            } else if (fail == 3) {
                std::vector<int> f; for (int i = 0; i < c.nranks; i++) if (c.in[i].vol()) f.push_back(i); int w = gs.pick(f); Box b = c.in[me]; if (me == w) { b.lo = {{0, 0, 0}}; b.hi = {{c.n[0] - 1, c.n[1] - 1, c.n[2] - 1}}; }
                fill(b, c.out[me]); if (f.size() > 1) { int rc = shim_create(be, il, ih, io, ol, oh, oo, dirr, comm, &o, &h); if (rc != 2) cx.bad("code", "overlapping boxes returned " + std::to_string(rc) + " instead of 2"); failures++; }
            }
            // defaults equal those of C++
            { shim_opts t; int rc = shim_default_options(be, &t, gs.below(2) ? 0x77 : 0); heffte::plan_options w = c.backend == B_STOCK ? dopt<heffte::backend::stock>() : c.backend == B_FFTW ? dopt<heffte::backend::fftw>() : dopt<heffte::backend::mkl>();
              if (rc != shim_success()) cx.bad("code", "heffte_set_default_options failed"); if ((t.reorder != 0) != w.use_reorder || (t.pencils != 0) != w.use_pencils || (t.gpu_aware != 0) != w.use_gpu_aware) cx.bad("defaults", "default options differ from those of C++");
              if (w.algorithm == heffte::reshape_algorithm::alltoallv && t.algorithm != shim_alg(A_A2AV)) cx.bad("defaults", "the default algorithm differs from that of C++"); }
            CPlan p; p.cplx = c.kind == C2C; fill(c.in[me], c.out[me]);
            int rc = shim_create(be, il, ih, io, ol, oh, oo, dirr, comm, c.o.explicit_opts ? &o : nullptr, &p.h);
            std::unique_ptr<IPlan> q; std::string why; int st = 0; try { q = make_plan(c.backend, 0, c.kind, c.r2cdir, c.in[me], c.out[me], comm, c.o, 0); } catch (std::exception &e) { st = 2; why = e.what(); }
            if (rc != st) cx.bad("create", "the C interface returned " + std::to_string(rc) + ", C++ " + (st ? "threw " + why : "succeeded"));
            int all = rc != 0 || st != 0; PMPI_Allreduce(MPI_IN_PLACE, &all, 1, MPI_INT, MPI_MAX, comm);
            if (all) outcome = "refused";
            else {
                created++;
                if (p.size_inbox() != q->size_inbox() || p.size_outbox() != q->size_outbox() || p.size_workspace() != q->size_workspace()) cx.bad("sizes", "sizes differ from those of C++");
                if (shim_info(p.h, 3) != be || shim_info(p.h, 4) != (c.kind == R2C)) cx.bad("info", "backend or r2c flag of the plan is wrong");
                if (fail == 4) { int rd = shim_destroy_corrupted(p.h); if (rd != 3) cx.bad("code", "destroying a corrupted plan returned " + std::to_string(rd) + " instead of 3"); failures++; if (rd == 0) p.h = nullptr; }
                for (int t = 0; p.h && t < 3; t++) { Case x = c; x.prec = gs.below(2); x.variant = gs.below(2); x.scaling = gs.below(3); x.inplace = c.kind == C2C && gs.chance(0.25); x.idx = idx * 4 + t; x.batch = 1; exec_check(p, x, me, gs.below(2), g, nullptr, "C call " + std::to_string(t)); }
            }
            if (!all && p.h) { std::string d = profile_diff(p, *q, c.kind); if (!d.empty()) cx.bad("profile", d); profiles++; }   // an option that is lost on the way shows here and nowhere else
            q.reset(); if (p.h) { int rd = shim_destroy(p.h); p.h = nullptr; if (rd != shim_success()) cx.bad("code", "heffte_plan_destroy returned " + std::to_string(rd)); }
            if (mon.live_comms != c0 || mon.live_groups != g0) cx.bad("leak", "communicators or groups are left behind");
            mon.enabled = false; mon.errors.clear(); mon.live_comms = c0; mon.live_groups = g0; PMPI_Comm_free(&comm);
        }
        end_case(idx, std::to_string(fail) + c.sig(), outcome);
    }
    long long v[5] = {created, failures, ec_values, ec_calls, profiles}; PMPI_Reduce(v, T, 5, MPI_LONG_LONG, MPI_SUM, 0, MPI_COMM_WORLD);
    cx.stat["plans_created"] = (double)T[0]; cx.stat["failing_calls"] = (double)T[1]; cx.stat["values_compared"] = (double)T[2]; cx.stat["transform_calls_all_ranks"] = (double)T[3]; cx.stat["mpi_profiles_compared"] = (double)T[4];
}
