// Runs transforms on generated cases and checks them against the reference and the buffer / MPI monitors.
#include "engine.h"
struct Profile { GenOpt g; std::vector<int> dirs{0, 1}; bool values = true, buffers = false, hygiene = false, perturb = false, metamorph = false, cross_batch = false; };
static Profile profile(std::string const &p) {
    Profile r; std::vector<int> r2r{B_STOCK_COS, B_STOCK_SIN, B_STOCK_COS1, B_FFTW_COS, B_FFTW_SIN, B_FFTW_COS1, B_FFTW_SIN1, B_MKL_COS, B_MKL_SIN};
    std::vector<int> allb{B_STOCK, B_FFTW, B_MKL, B_STOCK, B_FFTW, B_MKL}; for (auto b : r2r) if (b != B_STOCK_SIN) allb.push_back(b);
    if (p == "fwd") { r.dirs = {0}; r.g.kinds = {C2C, C2C, R2F}; r.g.variants = {0, 1, 1, 4}; }
    else if (p == "bwd") { r.dirs = {1}; r.g.kinds = {C2C, C2C, R2F}; r.g.variants = {0, 1, 1, 4}; }
    else if (p == "r2c") { r.g.kinds = {R2C}; r.g.variants = {0, 1, 1, 4}; }
    else if (p == "r2r") { r.g.backends = r2r; r.g.variants = {0, 1, 1, 4}; r.g.maxn = 2500; r.g.maxn_large = 20000; }
    else if (p == "batch") { r.g.kinds = {C2C, R2F, R2C, R2C}; r.g.backends = allb; r.g.variants = {2, 2, 3}; r.g.min_batch = 2; r.g.max_batch = 5; r.g.maxn = 1500; r.cross_batch = true; }
    else if (p == "buf") { r.g.kinds = {C2C, C2C, R2F, R2C}; r.g.backends = allb; r.g.variants = {1, 1, 2, 0, 3}; r.g.max_batch = 3; r.g.maxn = 1800; r.g.p_inplace = 0.45; r.buffers = true; }
    else if (p == "mpi") { r.g.kinds = {C2C, R2F, R2C}; r.g.backends = {B_FFTW, B_STOCK, B_MKL, B_FFTW_COS}; r.g.variants = {0, 1, 2}; r.g.maxn = 900; r.g.max_batch = 3; r.hygiene = true; r.values = false; }
    else if (p == "progress") { r.g.kinds = {C2C, R2F, R2C}; r.g.backends = {B_FFTW, B_FFTW, B_STOCK, B_MKL}; r.g.algs = {0, 1, 2, 2, 2, 3, 3, 3}; r.g.variants = {1, 2}; r.g.maxn = 1200; r.g.max_batch = 3; r.g.force_explicit = true; r.perturb = true; }
    else if (p == "san") { r.g.maxn_large = 20000; r.g.p_large = 0.01; r.g.kinds = {C2C, R2F, R2C}; r.g.backends = allb; r.g.variants = {0, 1, 2, 2, 3, 4}; r.g.maxn = 700; r.g.max_batch = 3; r.g.p_inplace = 0.3; r.values = false; }
    else if (p == "empty") { r.g.kinds = {C2C, R2F, R2C}; r.g.backends = allb; r.g.p_empty = 0.9; r.g.maxn = 1500; r.buffers = true; }
    else throw std::runtime_error("unknown profile " + p);
    return r;
}
void run_xform(std::string const &pname) {
    Profile const P = profile(pname);
    std::set<std::string> masks; std::map<std::string, long long> T; long long execs = 0, rejected = 0, compared = 0, letters_seen = 0;
    std::set<uint64_t> orders;
    for (int idx = cx.start; idx < cx.start + cx.count; idx++) {
        Case c = gen_case(cx.seed, idx, cx.wsize, P.g);
        Rng g(mix(cx.seed + 5, (uint64_t)idx * 11 + cx.wrank));      // rank-local choices (garbage, alignment)
        Rng gs(mix(cx.seed + 6, (uint64_t)idx * 13));                // shared choices
        int dir = gs.pick(P.dirs); int ctor = gs.below(4); bool both = P.dirs.size() > 1 && gs.chance(0.3);
        std::string mask = plan_mask(c);
        start_case(idx, c.text() + " dir=" + (dir ? "backward" : "forward") + (both ? "+other" : "") + " reshapes=" + mask);
        MPI_Comm comm = make_comm(c.members); int r = -1; int status = 0; std::string why;   // status 1: constructor refused
        int me = 0; for (size_t i = 0; i < c.members.size(); i++) if (c.members[i] == cx.wrank) me = (int)i;
        if (comm != MPI_COMM_NULL) {
            PMPI_Comm_rank(comm, &r);
            mon.reset_counts(); mon.enabled = true; mon.wlo = mon.whi = nullptr; mon.check_match = P.hygiene; mon.poison_recv = P.hygiene || P.perturb || P.buffers;
            mon.sync_send = P.perturb || (P.hygiene && gs.chance(0.5)); mon.any_order = P.perturb || P.hygiene; mon.delay_pct = P.perturb ? gs.pick(std::vector<int>{0, 20, 60}) : 0; mon.rng = g.next();
            long long comms0 = mon.live_comms, groups0 = mon.live_groups;
            // a message of the user is on its way, on a tag of the user, while the plan is made, used and destroyed
            bool letters = (P.hygiene || P.perturb) && gs.chance(0.6); int const nr = (int)c.members.size(), tag = 31337; int mail[4] = {me, idx, 77, (int)c.members.size()}, got[4] = {-1, -1, -1, -1}; MPI_Request rs = MPI_REQUEST_NULL, rr = MPI_REQUEST_NULL;
            bool early = letters && gs.chance(0.3);
            if (letters) { PMPI_Isend(mail, 4, MPI_INT, (me + 1) % nr, tag, comm, &rs); if (early) PMPI_Irecv(got, 4, MPI_INT, (me + nr - 1) % nr, tag, comm, &rr); }
            std::unique_ptr<IPlan> plan;
            try { plan = make_plan(c.backend, c.i64, c.kind, c.r2cdir, c.in[me], c.out[me], comm, c.o, ctor); }
            catch (std::exception &e) { status = 1; why = e.what(); }
            int st[2] = {status, -status}; PMPI_Allreduce(MPI_IN_PLACE, st, 2, MPI_INT, MPI_MAX, comm);
            if (st[0] != -st[1]) cx.bad("reject-mismatch", "the constructor failed on some ranks only: " + why);
            if (st[0] && !status) plan.reset();
            if (status && st[0] == -st[1]) {
                int k = work_ranks(c);
                if (splittable(c.n, k) && splittable(c.nout(), k)) cx.bad("reject", "the constructor refused a valid geometry: " + why);
            }
            if (!st[0]) for (int step = 0; step < (both ? 2 : 1); step++) {
                int d = step == 0 ? dir : 1 - dir;
                Box const &bi = d == 0 ? c.in[me] : c.out[me], &bo = d == 0 ? c.out[me] : c.in[me];
                auto ni = d == 0 ? c.n : c.nout(), no = d == 0 ? c.nout() : c.n;
                size_t ei = d == 0 ? in_elem(c.kind, c.prec) : out_elem(c.kind, c.prec), eo = d == 0 ? out_elem(c.kind, c.prec) : in_elem(c.kind, c.prec), ew = ws_elem(c.kind, c.prec);
                bool ci = d == 0 ? c.kind == C2C : c.kind != R2R, co = d == 0 ? c.kind != R2R : c.kind == C2C;
                if (plan->size_inbox() != c.in[me].vol() || plan->size_outbox() != c.out[me].vol()) cx.bad("sizes", "size_inbox/size_outbox disagree with the boxes given to the constructor");
                if (str(plan->inbox()) != str(c.in[me]) || str(plan->outbox()) != str(c.out[me])) { if (c.in[me].vol() && c.out[me].vol()) cx.bad("boxes", "inbox()/outbox() differ from the constructor arguments"); }
                double f = plan->factor(c.scaling), fe = expected_scale(c.backend, c.kind, c.n, c.scaling);
                if (std::fabs(f - fe) > 1e-14 * fe) cx.bad("scale", "get_scale_factor returns " + std::to_string(f) + " expected " + std::to_string(fe));
                size_t li = (size_t)bi.vol(), lo = (size_t)bo.vol(); int B = c.batch;
                std::vector<std::vector<cd>> gin(B), gexp(B);
                for (int b = 0; b < B; b++) { gin[b] = global_input(c, d, b); if (P.values || P.perturb || P.buffers) gexp[b] = global_expected(c, d, gin[b]); }
                Guarded in, out, ws; int garbage = g.below(3);
                size_t in_bytes = c.inplace ? (size_t)B * std::max(li * ei, lo * eo) : B * li * ei;
                in.alloc(in_bytes, ei, g, garbage); if (!c.inplace) out.alloc(B * lo * eo, eo, g, garbage);
                size_t wn = plan->size_workspace() * B; bool usews = c.variant == 1 || c.variant == 2;
                if (usews) ws.alloc(wn * ew, ew, g, garbage);
                for (int b = 0; b < B; b++) put_local(bi, ni, gin[b], ci, c.prec, in.as<char>() + (size_t)b * li * ei);
                std::vector<unsigned char> saved; if (!c.inplace) saved.assign(in.as<unsigned char>(), in.as<unsigned char>() + in_bytes);
                void *o = c.inplace ? in.p() : out.p();
                if (usews) { mon.wlo = (char *)ws.p(); mon.whi = mon.wlo + wn * ew; } else mon.wlo = mon.whi = nullptr;
                if (c.variant == 4) { size_t got = plan->exec_vector(d, c.prec, in.p(), li, o, lo, c.scaling); if (got != lo) cx.bad("vector-size", "the vector API returned " + std::to_string(got) + " entries instead of " + std::to_string(lo)); }
                else plan->exec(d, c.prec, c.variant, B, in.p(), o, usews ? ws.p() : nullptr, c.scaling);
                mon.wlo = mon.whi = nullptr; execs++;
                if (mon.outstanding != 0) cx.bad("requests", std::to_string(mon.outstanding) + " MPI requests are still pending when the transform returns");
                if (P.values || P.perturb || P.buffers) for (int b = 0; b < B; b++) {
                    std::string where; double e = diff_local(bo, no, gexp[b], co, c.prec, (char *)o + (size_t)b * lo * eo, where); double tol = tol_for(c.prec, c.backend, c.n);
                    compared += (long long)lo; if (e / tol > cx.worst) cx.worst = e / tol;
                    if (e > tol) { std::ostringstream s; s << "batch entry " << b << " direction " << d << ": " << where << " relative error " << e; cx.bad(e > 1e-3 ? "value" : "accuracy", s.str()); break; }
                }
                if (P.buffers || pname == "san") {
                    if (!in.intact()) cx.bad("guard-input", "bytes around the input buffer were written, offset " + std::to_string(in.damaged()) + " of " + std::to_string(in.bytes));
                    if (!c.inplace && !out.intact()) cx.bad("guard-output", "bytes around the output buffer were written, offset " + std::to_string(out.damaged()) + " of " + std::to_string(out.bytes));
                    if (usews && !ws.intact()) cx.bad("guard-workspace", "bytes around the workspace were written, offset " + std::to_string(ws.damaged()) + " of " + std::to_string(ws.bytes));
                    if (!c.inplace && in_bytes && memcmp(saved.data(), in.p(), in_bytes) != 0) cx.bad("const-input", "the input array was modified by an out-of-place transform");
                }
                if (P.cross_batch && !c.inplace && B > 1) {   // entry by entry with the single-transform API of the same plan
                    Guarded o1; o1.alloc(lo * eo, eo, g, 1); int b = gs.below(B);
                    plan->exec(d, c.prec, 0, 1, in.as<char>() + (size_t)b * li * ei, o1.p(), nullptr, c.scaling); execs++;
                    std::vector<cd> const &ref = gexp[b]; std::string where; double e = diff_local(bo, no, ref, co, c.prec, o1.p(), where);
                    if (e > tol_for(c.prec, c.backend, c.n)) cx.bad("value-single", "the single transform of batch entry " + std::to_string(b) + " is wrong: " + where);
                }
            }
            orders.insert(mon.order_sig);
            plan.reset();
            if (P.hygiene || P.perturb) {
                for (auto &e : mon.errors) cx.bad("mpi", e);
                if (mon.live_comms != comms0) cx.bad("comm-leak", std::to_string(mon.live_comms - comms0) + " communicators created by the plan are alive after its destruction");
                if (mon.live_groups != groups0) cx.bad("group-leak", std::to_string(mon.live_groups - groups0) + " MPI groups are alive after the destruction of the plan");
                if (mon.ev_comm_new != mon.ev_comm_free) cx.bad("comm-balance", "communicators created " + std::to_string(mon.ev_comm_new) + " freed " + std::to_string(mon.ev_comm_free));
                if (letters) {
                    if (!early) PMPI_Irecv(got, 4, MPI_INT, (me + nr - 1) % nr, tag, comm, &rr);
                    int done = 0; for (double t0 = MPI_Wtime(); !done && MPI_Wtime() - t0 < 10.0;) PMPI_Test(&rr, &done, MPI_STATUS_IGNORE);
                    if (!done || got[0] != (me + nr - 1) % nr || got[1] != idx || got[2] != 77 || got[3] != nr) cx.bad("user-message", !done ? "a message of the user, with a tag of its own, never arrived" : "a message of the user arrived altered");
                    if (!done) { PMPI_Cancel(&rr); PMPI_Wait(&rr, MPI_STATUS_IGNORE); }
                    PMPI_Wait(&rs, MPI_STATUS_IGNORE); letters_seen++;
                }
                int flag = 0; MPI_Status s; PMPI_Iprobe(MPI_ANY_SOURCE, MPI_ANY_TAG, comm, &flag, &s);
                PMPI_Barrier(comm); if (!flag) PMPI_Iprobe(MPI_ANY_SOURCE, MPI_ANY_TAG, comm, &flag, &s);
                if (flag) cx.bad("stray-message", "a message was left in the communicator of the user");
                int sz; PMPI_Comm_size(comm, &sz); if (sz != c.nranks) cx.bad("user-comm", "the user communicator changed");
            }
            mon.live_comms = comms0; mon.live_groups = groups0;
            T["user_messages_kept"] = letters_seen; T["mpi_isend"] += mon.ev_isend; T["mpi_irecv"] += mon.ev_irecv; T["mpi_send"] += mon.ev_send; T["mpi_waitany"] += mon.ev_waitany; T["mpi_alltoallv"] += mon.ev_a2av; T["mpi_alltoall"] += mon.ev_a2a; T["comm_created"] += mon.ev_comm_new; T["comm_freed"] += mon.ev_comm_free; T["injected_delays"] += mon.ev_delay; T["message_bytes"] += mon.ev_bytes;
            mon.enabled = false; mon.errors.clear();
            PMPI_Comm_free(&comm);
        }
        int rej = status; PMPI_Allreduce(MPI_IN_PLACE, &rej, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD); rejected += rej ? 1 : 0;
        masks.insert(mask);
        end_case(idx, c.sig() + std::to_string(dir), (rej ? "rejected" : "ok") + std::string(" ") + mask);
    }
    // totals over ranks
    std::vector<std::string> names{"mpi_isend", "mpi_irecv", "mpi_send", "mpi_waitany", "mpi_alltoallv", "mpi_alltoall", "comm_created", "comm_freed", "injected_delays", "message_bytes", "user_messages_kept"};
    for (auto &n : names) { long long v = T[n], s = 0; PMPI_Reduce(&v, &s, 1, MPI_LONG_LONG, MPI_SUM, 0, MPI_COMM_WORLD); cx.stat[n] = (double)s; }
    long long v[3] = {execs, compared, (long long)orders.size()}, s[3] = {0, 0, 0}; PMPI_Reduce(v, s, 3, MPI_LONG_LONG, MPI_SUM, 0, MPI_COMM_WORLD);
    cx.stat["transform_calls_all_ranks"] = (double)s[0]; cx.stat["values_compared"] = (double)s[1]; cx.stat["distinct_completion_orders_summed_over_ranks"] = (double)s[2]; cx.stat["constructor_refused"] = (double)rejected; cx.stat["distinct_reshape_patterns"] = (double)masks.size();
}
