// P10: random histories over several live plans; every result is judged on its own.
#include "engine.h"
struct Slot { Case c; MPI_Comm comm = MPI_COMM_NULL; int me = -1; std::unique_ptr<IPlan> plan; bool alive = false; int uses = 0; };
void run_reuse() {
    GenOpt go; go.kinds = {C2C, C2C, R2F, R2C}; go.backends = {B_STOCK, B_FFTW, B_FFTW, B_MKL, B_FFTW_COS, B_MKL_SIN, B_STOCK_COS, B_FFTW_SIN, B_FFTW_COS1}; go.maxn = 600; go.p_large = 0; go.p_empty = 0.15; go.max_batch = 3; go.p_inplace = 0.3;
    long long T[6], creates = 0, moves = 0, destroys = 0, commdup = 0; std::set<std::string> hist;
    for (int idx = cx.start; idx < cx.start + cx.count; idx++) {
        Rng gs(mix(cx.seed + 71, (uint64_t)idx * 7)), g(mix(cx.seed + 72, (uint64_t)idx * 11 + cx.wrank));
        int K = gs.range(1, 4), L = gs.chance(0.012) ? gs.range(60, 160) : gs.range(6, 16); std::vector<Slot> s(K); std::string text = "history:", sig; int serial = 0;
        bool same_comm = gs.chance(0.4);
        std::vector<Case> made;
        // the whole history is drawn first: the text names it before anything runs
        struct Op { int what, slot, dir, prec, variant, batch, scaling, inplace, share, data; Case c; }; std::vector<Op> ops; std::vector<char> live(K, 0), used(K, 0); std::vector<Case> cur(K);
        for (int t = 0; t < L; t++) {
            Op o; o.slot = gs.below(K); int k = gs.below(100);
            if (!live[o.slot]) { o.what = 0; GenOpt g2 = go; if (same_comm) g2.fixed_ranks = true;
                if (!made.empty() && gs.chance(0.35)) { o.c = gs.pick(made); if (gs.chance(0.5)) { o.c.backend = o.c.kind == R2R ? o.c.backend : gs.pick(std::vector<int>{B_STOCK, B_FFTW, B_MKL}); o.c.i64 = gs.below(2); } }   // the same plan again, or its twin
                else o.c = gen_case(cx.seed + 2000, idx * 32 + serial, cx.wsize, g2);
                serial++; made.push_back(o.c); cur[o.slot] = o.c; live[o.slot] = 1; text += " create" + std::to_string(o.slot) + "{" + o.c.text() + "}"; }
            else if (k < 8) { o.what = 2; live[o.slot] = 0; text += " destroy" + std::to_string(o.slot); }
            else if (k < 18) { o.what = 3; text += " move" + std::to_string(o.slot); }
            else { o.what = 1; Case &c = cur[o.slot]; o.dir = gs.below(2); o.prec = gs.chance(0.7) ? c.prec : 1 - c.prec; o.variant = gs.below(5); o.batch = (o.variant == 2 || o.variant == 3) ? gs.chance(0.05) ? gs.range(4, 16) : gs.range(1, 3) : 1; o.scaling = gs.below(3);
                o.inplace = (c.kind == C2C || c.kind == R2R) && o.variant != 4 && gs.chance(0.3); o.share = gs.chance(0.5); o.data = gs.below(1000);
                text += " exec" + std::to_string(o.slot) + (o.dir ? "b" : "f") + (o.prec ? "d" : "s") + "v" + std::to_string(o.variant) + "b" + std::to_string(o.batch) + "x" + std::to_string(o.scaling) + (o.inplace ? "i" : "") + (o.share ? "w" : ""); }
            ops.push_back(o); sig += std::to_string(o.what) + std::to_string(o.slot);
        }
        start_case(idx, text.substr(0, 6000));
        mon.reset_counts(); mon.enabled = true; long long c0 = mon.live_comms, g0 = mon.live_groups; mon.wlo = mon.whi = nullptr; mon.check_match = false; mon.poison_recv = true; mon.sync_send = gs.chance(0.3); mon.any_order = gs.chance(0.5); mon.delay_pct = 0; mon.rng = g.next();
        Guarded shared; shared.alloc((size_t)g.range(20000, 60000), 16, g, 0); int execs = 0;
        for (auto &o : ops) {
            Slot &z = s[o.slot];
            if (o.what == 0) {
                z.c = o.c; z.comm = make_comm(z.c.members); z.me = -1; for (size_t i = 0; i < z.c.members.size(); i++) if (z.c.members[i] == cx.wrank) z.me = (int)i;
                z.alive = true; int st = 0;
                if (z.comm != MPI_COMM_NULL) { try { z.plan = make_plan(z.c.backend, z.c.i64, z.c.kind, z.c.r2cdir, z.c.in[z.me], z.c.out[z.me], z.comm, z.c.o, o.c.idx % 4); creates++; } catch (std::exception &) { st = 1; }
                    PMPI_Allreduce(MPI_IN_PLACE, &st, 1, MPI_INT, MPI_MAX, z.comm); if (st) z.plan.reset(); }
            } else if (o.what == 2) { if (z.comm != MPI_COMM_NULL) { z.plan.reset(); PMPI_Comm_free(&z.comm); destroys++; } z.comm = MPI_COMM_NULL; z.alive = false; }
            else if (o.what == 3) { if (z.plan) { z.plan->relocate(); moves++; } }
            else if (z.plan) {
                Case c = z.c; c.prec = o.prec; c.variant = o.variant; c.batch = o.batch; c.scaling = o.scaling; c.inplace = o.inplace; c.idx = o.data;
                mon.wlo = mon.whi = nullptr; exec_check(*z.plan, c, z.me, o.dir, g, o.share ? &shared : nullptr, "operation " + std::to_string(&o - ops.data())); execs++; z.uses++;
                if (mon.outstanding != 0) cx.bad("requests", "MPI requests are pending after the transform");
            }
        }
        for (int i = K - 1; i >= 0; i--) { int k = (i + idx) % K; s[k].plan.reset(); if (s[k].comm != MPI_COMM_NULL) PMPI_Comm_free(&s[k].comm); }
        if (mon.live_comms != c0 || mon.live_groups != g0) cx.bad("leak", std::to_string(mon.live_comms - c0) + " communicators and " + std::to_string(mon.live_groups - g0) + " groups are left after the destruction of all plans");
        for (auto &e : mon.errors) cx.bad("mpi", e);
        mon.enabled = false; mon.errors.clear(); mon.live_comms = c0; mon.live_groups = g0;
        int any = execs; PMPI_Allreduce(MPI_IN_PLACE, &any, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
        end_case(idx, sig + text.substr(0, 2000), any ? "ok" : "nothing ran");
    }
    long long v[6] = {creates, moves, destroys, commdup, ec_values, ec_calls}; PMPI_Reduce(v, T, 6, MPI_LONG_LONG, MPI_SUM, 0, MPI_COMM_WORLD);
    cx.stat["plans_created"] = (double)T[0]; cx.stat["plans_moved"] = (double)T[1]; cx.stat["plans_destroyed_midway"] = (double)T[2]; cx.stat["values_compared"] = (double)T[4]; cx.stat["transform_calls_all_ranks"] = (double)T[5];
}
