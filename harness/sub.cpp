// P23: with a sub-rank count or a sub-communicator only the chosen ranks hold intermediate data; the others send their input box and receive their output box.
#include "engine.h"
static bool no_pencils(std::vector<Box> const &v, std::array<int, 3> n) {   // the boxes form pencils in no direction
    for (int d = 0; d < 3; d++) { bool cut = false; for (auto &b : v) if (b.vol() && b.n(d) != n[d]) cut = true; if (!cut) return false; }
    return true;
}
void run_sub() {
    long long T[6], restricted = 0, outside = 0, idle = 0, strict = 0, sent = 0; std::set<std::string> sets;
    for (int idx = cx.start; idx < cx.start + cx.count; idx++) {
        Rng gs(mix(cx.seed + 91, (uint64_t)idx * 7)), g(mix(cx.seed + 92, (uint64_t)idx * 11 + cx.wrank));
        GenOpt go; go.kinds = {C2C, C2C, R2F, R2C, R2C}; go.backends = {B_STOCK, B_FFTW, B_MKL, B_STOCK, B_FFTW, B_MKL, B_FFTW_COS, B_FFTW_SIN, B_FFTW_COS1, B_MKL_COS, B_MKL_SIN, B_STOCK_COS};
        go.maxn = 4000; go.p_large = 0; go.p_subranks = 1; go.p_subcomm = 0.6; go.force_explicit = true; go.p_empty = 0.2; go.algs = {A_A2AV, A_P2P, A_P2PP, A_A2AV, A_A2A};
        Case c; bool np = false; int want = gs.below(10);
        for (int t = 0; t < 400; t++) { c = gen_case(cx.seed + 4000, idx * 400 + t, cx.wsize, go); np = no_pencils(c.in, c.n) && no_pencils(c.out, c.nout()); if (c.nranks > 1 && work_ranks(c) < c.nranks && (np || want == 0)) break; }
        c.batch = 1; if (c.variant == 2 || c.variant == 3) c.variant -= 2;
        int dir = gs.below(2), k = work_ranks(c); std::string sb; for (int r = 0; r < c.nranks; r++) sb += is_worker(c, r) ? 'x' : '.';
        start_case(idx, c.text() + " dir=" + std::to_string(dir) + " work=" + sb);
        MPI_Comm comm = make_comm(c.members); int st = 0;
        if (comm != MPI_COMM_NULL) {
            int me = 0; for (size_t i = 0; i < c.members.size(); i++) if (c.members[i] == cx.wrank) me = (int)i;
            std::unique_ptr<IPlan> p; std::string why;
            try { p = make_plan(c.backend, c.i64, c.kind, c.r2cdir, c.in[me], c.out[me], comm, c.o, gs.below(2) * 2); } catch (std::exception &e) { st = 1; why = e.what(); }
            if (st && splittable(c.n, k) && splittable(c.nout(), k)) cx.bad("refused", why);
            PMPI_Allreduce(MPI_IN_PLACE, &st, 1, MPI_INT, MPI_MAX, comm);
            if (!st) {
                mon.reset_counts(); mon.enabled = true; mon.wlo = mon.whi = nullptr; mon.check_match = mon.sync_send = mon.any_order = false; mon.poison_recv = true; mon.delay_pct = 0; mon.rng = g.next();
                exec_check(*p, c, me, dir, g, nullptr, "transform with " + std::to_string(k) + " of " + std::to_string(c.nranks) + " ranks");
                mon.enabled = false;
                long long vi = (dir == 0 ? c.in : c.out)[me].vol(), vo = (dir == 0 ? c.out : c.in)[me].vol(), ea = c.prec ? 8 : 4, eb = ea * 2;
                if (c.kind == C2C) ea = eb; else if (c.kind == R2R) eb = ea;
                sent += mon.ev_bytes;
                if (np && c.o.alg != A_A2A && k < c.nranks) {
                    strict++; auto in = [](long long x, long long v, long long a, long long b) { return x >= v * a && x <= v * b; };
                    auto say = [&](char const *verb, long long x, long long v) { return "rank " + std::to_string(me) + " " + verb + " " + std::to_string(x) + " bytes, its box has " + std::to_string(v) + " entries of " + std::to_string(ea) + (ea == eb ? "" : ".." + std::to_string(eb)) + " bytes; working ranks " + sb; };
                    if (!is_worker(c, me)) { outside++;
                        if (!in(mon.ev_bytes, vi, ea, eb)) cx.bad("outside-sends", say("is not chosen but sends", mon.ev_bytes, vi));
                        if (!in(mon.ev_rbytes, vo, ea, eb)) cx.bad("outside-receives", say("is not chosen but receives", mon.ev_rbytes, vo));
                    } else if (vi == 0 && vo == 0) { idle++; if (mon.ev_bytes == 0 || mon.ev_rbytes == 0) cx.bad("chosen-idle", "rank " + std::to_string(me) + " is chosen but takes no part; working ranks " + sb); }
                }
                if (k < c.nranks) restricted++;
            }
            p.reset(); PMPI_Comm_free(&comm);
        }
        sets.insert(sb); PMPI_Allreduce(MPI_IN_PLACE, &st, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
        end_case(idx, c.sig() + sb + std::to_string(dir), st ? "refused" : k < c.nranks ? np ? c.o.alg == A_A2A ? "ok padded" : "ok strict" : "ok pencils" : "all ranks");
    }
    long long w[6] = {restricted, outside, idle, strict, ec_values, sent}; PMPI_Reduce(w, T, 6, MPI_LONG_LONG, MPI_SUM, 0, MPI_COMM_WORLD);
    cx.stat["restricted_transforms_all_ranks"] = (double)T[0]; cx.stat["unchosen_ranks_checked"] = (double)T[1]; cx.stat["chosen_ranks_without_boxes"] = (double)T[2]; cx.stat["traffic_checked_all_ranks"] = (double)T[3]; cx.stat["values_compared"] = (double)T[4]; cx.stat["message_bytes"] = (double)T[5]; cx.stat["distinct_rank_sets"] = (double)sets.size();
}
