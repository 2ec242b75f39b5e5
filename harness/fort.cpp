// P16: the Fortran interface against the reference and against the C++ plan of the same description.
#include "engine.h"
extern "C" {
void fshim_create(int slot, int r2c, int form, int *b, int dir, int comm, int reorder, int alg, int pencils);
void fshim_release(int slot, int r2c); void fshim_assign(int to, int from, int r2c);
long long fshim_info(int slot, int r2c, int what); double fshim_factor(int slot, int r2c, int sc);
void fshim_exec(int slot, int kind, int prec, int dir, int variant, int batch, void const *in, void *out, void *ws, long long nin, long long nout, long long nws, int sc, int omit);
}
static int alg_number(int a) { return a == A_A2AV ? 0 : a == A_P2PP ? 1 : a == A_P2P ? 2 : 3; }     // as the documentation of reshape_algorithm numbers them
struct FPlan : IPlan {
    int slot = 1, kind = 0, r2c = 0; Rng *g = nullptr;
    long long size_inbox() const override { return fshim_info(slot, r2c, 0); }
    long long size_outbox() const override { return fshim_info(slot, r2c, 1); }
    size_t size_workspace() const override { return (size_t)fshim_info(slot, r2c, 2); }
    size_t size_comm() const override { return (size_t)fshim_info(slot, r2c, 3); }
    double factor(int s) const override { return fshim_factor(slot, r2c, s); }
    Box inbox() const override { return Box(); }
    Box outbox() const override { return Box(); }
    void relocate() override {}
    void exec(int dir, int prec, int variant, int batch, void const *in, void *out, void *ws, int sc) override {
        static char dummy[64]; long long ni = dir == 0 ? size_inbox() : size_outbox(), no = dir == 0 ? size_outbox() : size_inbox();
        fshim_exec(slot, kind, prec, dir, variant, batch, in, out, ws ? ws : dummy, batch * ni, batch * no, batch * (long long)size_workspace(), sc, sc == 0 && g->chance(0.5)); }
    size_t exec_vector(int, int, void const *, size_t, void *, size_t, int) override { return 0; }
};
void dispatch(std::string const &mode) {
    int backend = mode == "fort_stock" ? B_STOCK : mode == "fort_mkl" ? B_MKL : B_FFTW;
    GenOpt go; go.kinds = {C2C, C2C, R2F, R2C, R2C}; go.backends = {backend}; go.algs = {0, 1, 2, 3}; go.maxn = 900; go.p_large = 0; go.p_empty = 0.15; go.variants = {0}; go.p_subranks = 0; go.no_subcomm = true;
    long long created = 0, assigned = 0, profiles = 0, T[5];
    for (int idx = cx.start; idx < cx.start + cx.count; idx++) {
        Rng gs(mix(cx.seed + 81, (uint64_t)idx * 7)), g(mix(cx.seed + 82, (uint64_t)idx * 11 + cx.wrank));
        Case c = gen_case(cx.seed + 7000, idx, cx.wsize, go); c.i64 = 0; auto defo = [](std::vector<Box> const &v) { for (auto &b : v) if (b.ord[0] != 0 || b.ord[1] != 1) return false; return true; };
        int form = c.o.explicit_opts ? 2 : defo(c.in) && defo(c.out) && gs.chance(0.7) ? 0 : 1; bool reassign = gs.chance(0.3), alias = gs.chance(0.3);
        start_case(idx, c.text() + " constructor=" + std::to_string(form));
        MPI_Comm comm = make_comm(c.members); int me = 0; for (size_t i = 0; i < c.members.size(); i++) if (c.members[i] == cx.wrank) me = (int)i; std::string outcome = "ok";
        int k = c.nranks; bool can = splittable(c.n, k) && splittable(c.nout(), k);    // the generated wrappers turn an exception into an abort
        if (!can) outcome = "refused";
        else if (comm != MPI_COMM_NULL) {
            mon.reset_counts(); mon.enabled = true; long long c0 = mon.live_comms, g0 = mon.live_groups; mon.wlo = mon.whi = nullptr; mon.poison_recv = true; mon.sync_send = gs.chance(0.3); mon.any_order = gs.chance(0.5); mon.delay_pct = 0;
            int b[18], fc = (int)MPI_Comm_c2f(comm); for (int d = 0; d < 3; d++) { b[d] = (int)c.in[me].lo[d]; b[3 + d] = (int)c.in[me].hi[d]; b[6 + d] = c.in[me].ord[d]; b[9 + d] = (int)c.out[me].lo[d]; b[12 + d] = (int)c.out[me].hi[d]; b[15 + d] = c.out[me].ord[d]; }
            FPlan p; p.kind = c.kind; p.r2c = c.kind == R2C; p.g = &g; p.slot = 1 + gs.below(8);
            fshim_create(p.slot, p.r2c, form, b, c.r2cdir, fc, c.o.reorder, alg_number(c.o.alg), c.o.pencils); created++;
            if (reassign) { fshim_create(p.slot, p.r2c, form, b, c.r2cdir, fc, c.o.reorder, alg_number(c.o.alg), c.o.pencils); assigned++; }   // over a live plan
            auto q = make_plan(c.backend, 0, c.kind, c.r2cdir, c.in[me], c.out[me], comm, c.o, 0);
            if (p.size_inbox() != q->size_inbox() || p.size_outbox() != q->size_outbox() || p.size_workspace() != q->size_workspace() || p.size_comm() != q->size_comm()) cx.bad("sizes", "sizes differ from those of C++");
            for (int s = 1; s < 3; s++) { double e = expected_scale(c.backend, c.kind, c.n, s); if (std::fabs(p.factor(s) - e) > 1e-14 * e) cx.bad("scale", "get_scale_factor is wrong"); }
            for (int t = 0; t < 4; t++) { Case x = c; x.prec = gs.below(2); x.variant = gs.below(4); x.batch = x.variant >= 2 ? gs.chance(0.04) ? gs.range(4, 16) : gs.range(1, 3) : 1; x.scaling = gs.below(3); x.inplace = c.kind == C2C && gs.chance(0.25); x.idx = idx * 4 + t; int own = p.slot;
                if (alias && t == 1) { p.slot = own + 8; fshim_assign(p.slot, own, p.r2c); assigned++; }
                exec_check(p, x, me, gs.below(2), g, nullptr, "Fortran call " + std::to_string(t));
                if (p.slot != own) { fshim_release(p.slot, p.r2c); p.slot = own; } }
            { auto errs = mon.errors; std::string d = profile_diff(p, *q, c.kind); if (!d.empty()) cx.bad("profile", d); mon.errors.insert(mon.errors.end(), errs.begin(), errs.end()); profiles++; }   // an option that is lost on the way shows here and nowhere else
            fshim_release(p.slot, p.r2c); if (gs.chance(0.3)) fshim_release(p.slot, p.r2c); q.reset();
            if (mon.live_comms != c0 || mon.live_groups != g0) cx.bad("leak", "communicators or groups are left behind");
            for (auto &e : mon.errors) cx.bad("mpi", e);
            mon.enabled = false; mon.errors.clear(); mon.live_comms = c0; mon.live_groups = g0;
        }
        if (comm != MPI_COMM_NULL) PMPI_Comm_free(&comm);
        end_case(idx, std::to_string(form) + c.sig(), outcome);
    }
    long long v[5] = {created, assigned, ec_values, ec_calls, profiles}; PMPI_Reduce(v, T, 5, MPI_LONG_LONG, MPI_SUM, 0, MPI_COMM_WORLD);
    cx.stat["plans_created"] = (double)T[0]; cx.stat["assignments"] = (double)T[1]; cx.stat["values_compared"] = (double)T[2]; cx.stat["transform_calls_all_ranks"] = (double)T[3]; cx.stat["mpi_profiles_compared"] = (double)T[4];
}
