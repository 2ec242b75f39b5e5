// Plans over worlds with more indexes than an int can count: creation, sizes and scale factors (no transform is run).
#include "engine.h"
void run_huge(std::string const &what) {
    long long built = 0, S = 0;
    for (int idx = cx.start; idx < cx.start + cx.count; idx++) {
        Rng g(mix(cx.seed + 61, (uint64_t)idx * 29 + 3)); Case c; c.seed = cx.seed; c.idx = idx; c.nranks = cx.wsize; c.batch = 1; std::vector<int> kinds{C2C, R2F, R2C};   // the sine and cosine transforms extend the local array by four, its size does not fit into an int then
        for (int i = 0; i < cx.wsize; i++) c.members.push_back(i); if (g.chance(0.4)) for (int i = cx.wsize - 1; i > 0; i--) std::swap(c.members[i], c.members[g.below(i + 1)]);
        c.kind = what == "c2c" ? g.below(2) : what == "r2c" ? R2C : what == "r2r" ? R2R : g.pick(kinds);
        c.backend = c.kind == R2R ? g.range(B_STOCK_COS, B_NUM - 1) : g.below(3); c.i64 = g.below(2); c.r2cdir = g.below(3); c.scaling = 1 + g.below(2);
        c.o.explicit_opts = g.chance(0.85); c.o.alg = g.below(4); c.o.reorder = g.chance(0.5); c.o.pencils = g.chance(0.5);
        long long const cap = 1ll << 30; double const most = (double)(1ll << 29) * c.nranks;
        for (;;) {
            for (int d = 0; d < 3; d++) c.n[d] = 3 + (int)std::exp(g.unit() * (g.chance(0.2) ? 17 : 8.5)); auto m = c.nout(); double t = (double)c.n[0] * c.n[1] * c.n[2];
            if (t < 2147483648.0 || t > most || !splittable(c.n, c.nranks) || !splittable(m, c.nranks)) continue;
            std::string a, b; c.in = decompose(g, c.n, c.nranks, a, -1); c.out = decompose(g, m, c.nranks, b, -1); if (c.kind != R2C && g.chance(0.15)) c.out = c.in; c.style = a + ">" + b;
            bool big = false; for (auto &x : c.in) big = big || x.vol() > cap; for (auto &x : c.out) big = big || x.vol() > cap; if (!big) break;
        }
        auto oi = rand_order(g), oo = g.chance(0.5) ? oi : rand_order(g); for (auto &x : c.in) x.ord = oi; for (auto &x : c.out) x.ord = oo;
        int ctor = g.below(4);
        start_case(idx, "plan only: " + c.text()); std::string outcome = "ok";
        MPI_Comm comm = make_comm(c.members); int me; PMPI_Comm_rank(comm, &me);
        try {
            std::unique_ptr<IPlan> p = make_plan(c.backend, c.i64, c.kind, c.r2cdir, c.in[me], c.out[me], comm, c.o, ctor); built++;
            if (p->size_inbox() != c.in[me].vol() || p->size_outbox() != c.out[me].vol()) cx.bad("sizes", "size_inbox/size_outbox " + std::to_string(p->size_inbox()) + " " + std::to_string(p->size_outbox()) + " disagree with the boxes given to the constructor");
            if (str(p->inbox()) != str(c.in[me]) || str(p->outbox()) != str(c.out[me])) cx.bad("boxes", "inbox()/outbox() differ from the constructor arguments");
            for (int s = 0; s < 3; s++) { double f = p->factor(s), e = expected_scale(c.backend, c.kind, c.n, s); if (!(std::fabs(f - e) <= 1e-14 * e)) { std::ostringstream o; o.precision(17); o << "get_scale_factor returns " << f << " instead of " << e; cx.bad("scale", o.str()); } }
            if (c.kind != R2R && p->size_workspace() > ((size_t)1 << 35)) cx.bad("workspace", "the workspace of " + std::to_string(p->size_workspace()) + " entries is absurd");
        } catch (std::exception &e) { cx.bad("reject", std::string("the constructor refused a valid geometry: ") + e.what()); }
        PMPI_Comm_free(&comm);
        end_case(idx, "huge" + c.sig(), outcome);
    }
    PMPI_Reduce(&built, &S, 1, MPI_LONG_LONG, MPI_SUM, 0, MPI_COMM_WORLD); cx.stat["plans_beyond_2^31_indexes_all_ranks"] = (double)S;
}
