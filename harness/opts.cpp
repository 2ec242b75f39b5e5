// P09: the same global data through many configurations; all results agree with that of a plan on one rank.
#include "engine.h"
void run_opts() {
    long long T[4], configs = 0, values = 0, refused = 0;
    for (int idx = cx.start; idx < cx.start + cx.count; idx++) {
        Rng gs(mix(cx.seed + 81, (uint64_t)idx * 7)), g(mix(cx.seed + 82, (uint64_t)idx * 11 + cx.wrank));
        GenOpt go; go.kinds = {C2C, R2F, R2C, R2C}; go.backends = {B_STOCK, B_FFTW, B_MKL, B_STOCK, B_FFTW, B_MKL, B_FFTW_COS, B_FFTW_SIN, B_FFTW_COS1, B_FFTW_SIN1, B_MKL_COS, B_MKL_SIN, B_STOCK_COS}; go.maxn = 19000; go.maxn_large = 60000; go.p_large = 0.3; go.fixed_ranks = true;
        Case base = gen_case(cx.seed + 3000, idx, cx.wsize, go); int dir = gs.below(2), K = gs.range(4, 7);
        GenOpt gv = go; gv.fixed_ranks = false; gv.fixed_n = base.n; gv.fixed_r2cdir = base.r2cdir; gv.fixed_prec = base.prec; gv.kinds = {base.kind}; gv.p_subranks = 0.3; gv.p_empty = 0.15; gv.variants = {0, 1}; gv.p_inplace = 0.2;
        gv.backends = is_r2r(base.backend) ? std::vector<int>{base.backend} : gs.chance(0.5) ? std::vector<int>{base.backend} : std::vector<int>{B_STOCK, B_FFTW, B_MKL};
        std::vector<Case> v; for (int j = 0; j < K; j++) { Case c = gen_case(cx.seed + 3001, idx * 16 + j, cx.wsize, gv); c.seed = base.seed; c.idx = base.idx; c.scaling = base.scaling; v.push_back(c); }
        std::string text = "dir=" + std::to_string(dir) + " base " + base.text(); for (auto &c : v) text += " || " + c.text();
        start_case(idx, text.substr(0, 9000));
        auto ni = dir == 0 ? base.n : base.nout(), no = dir == 0 ? base.nout() : base.n;
        size_t ei = dir == 0 ? in_elem(base.kind, base.prec) : out_elem(base.kind, base.prec), eo = dir == 0 ? out_elem(base.kind, base.prec) : in_elem(base.kind, base.prec);
        bool ci = dir == 0 ? base.kind == C2C : base.kind != R2R, co = dir == 0 ? base.kind != R2R : base.kind == C2C;
        auto gin = global_input(base, dir, 0);
        // the plan on one rank with default options
        Box wi, wo; for (int d = 0; d < 3; d++) { wi.hi[d] = base.n[d] - 1; wo.hi[d] = base.nout()[d] - 1; }
        Box const &bi0 = dir == 0 ? wi : wo, &bo0 = dir == 0 ? wo : wi;
        std::vector<cd> ref((size_t)no[0] * no[1] * no[2]);
        {
            auto p = make_plan(base.backend, 0, base.kind, base.r2cdir, wi, wo, MPI_COMM_SELF, Opts(), 0);
            Guarded in, out; in.alloc((size_t)bi0.vol() * ei, ei, g, 1); out.alloc((size_t)bo0.vol() * eo, eo, g, 0); put_local(bi0, ni, gin, ci, base.prec, in.p());
            p->exec(dir, base.prec, 0, 1, in.p(), out.p(), nullptr, base.scaling);
            for (size_t i = 0; i < ref.size(); i++) ref[i] = co ? (base.prec ? out.as<cd>()[i] : cd(out.as<std::complex<float>>()[i])) : cd(base.prec ? out.as<double>()[i] : (double)out.as<float>()[i], 0);
        }
        int ran = 0;
        for (int j = 0; j < K; j++) {
            Case &c = v[j]; MPI_Comm comm = make_comm(c.members); if (comm == MPI_COMM_NULL) continue;
            int me = 0; for (size_t i = 0; i < c.members.size(); i++) if (c.members[i] == cx.wrank) me = (int)i;
            std::unique_ptr<IPlan> p; int st = 0; std::string why;
            try { p = make_plan(c.backend, c.i64, c.kind, c.r2cdir, c.in[me], c.out[me], comm, c.o, 0); } catch (std::exception &e) { st = 1; why = e.what(); }
            int k = work_ranks(c);
            if (st && splittable(c.n, k) && splittable(c.nout(), k)) cx.bad("refused", "configuration " + std::to_string(j) + ": " + why);
            PMPI_Allreduce(MPI_IN_PLACE, &st, 1, MPI_INT, MPI_MAX, comm);
            if (st) { p.reset(); refused++; PMPI_Comm_free(&comm); continue; }
            Box const &bi = dir == 0 ? c.in[me] : c.out[me], &bo = dir == 0 ? c.out[me] : c.in[me];
            Guarded in, out, ws; size_t ib = (size_t)bi.vol() * ei, ob = (size_t)bo.vol() * eo; in.alloc(c.inplace ? std::max(ib, ob) : ib, ei, g, g.below(3)); out.alloc(ob, eo, g, g.below(3)); if (c.variant == 1) ws.alloc(p->size_workspace() * ws_elem(c.kind, c.prec), 16, g, 0);
            put_local(bi, ni, gin, ci, c.prec, in.p()); void *o = c.inplace ? in.p() : out.p();
            p->exec(dir, c.prec, c.variant, 1, in.p(), o, c.variant == 1 ? ws.p() : nullptr, c.scaling);
            std::string where; double e = diff_local(bo, no, ref, co, c.prec, o, where), tol = 2 * std::max(tol_for(c.prec, c.backend, c.n), tol_for(c.prec, base.backend, c.n)); values += bo.vol(); configs++; ran++;
            if (e / tol > cx.worst) cx.worst = e / tol;
            if (e > tol) { std::ostringstream s; s << "configuration " << j << " differs from the plan on one rank: " << where << " relative error " << e << " (" << c.text().substr(0, 700) << ")"; cx.bad("differs", s.str()); }
            p.reset(); PMPI_Comm_free(&comm);
        }
        PMPI_Allreduce(MPI_IN_PLACE, &ran, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
        std::string sig = std::to_string(dir); for (auto &c : v) sig += c.sig();
        end_case(idx, sig.substr(0, 4000), ran > 1 ? "ok" : "nothing to compare");
    }
    long long w[3] = {configs, values, refused}; PMPI_Reduce(w, T, 3, MPI_LONG_LONG, MPI_SUM, 0, MPI_COMM_WORLD);
    cx.stat["configurations_all_ranks"] = (double)T[0]; cx.stat["values_compared"] = (double)T[1]; cx.stat["constructor_refused"] = (double)T[2];
}
