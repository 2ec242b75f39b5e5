// P17: traces of transforms, compared with what the MPI monitor saw and with the caller's own clock.
#include "engine.h"
#include "heffte.h"
#include <fstream>
#include <unistd.h>
struct Ev { std::string name; double start, dur; };
static bool read_trace(std::string const &file, std::vector<Ev> &r, std::string &why) {
    std::ifstream f(file); if (!f) { why = "the trace file " + file + " does not exist"; return false; }
    std::string l;
    while (std::getline(f, l)) {
        std::istringstream is(l); std::vector<std::string> w; std::string t; while (is >> t) w.push_back(t);
        if (w.size() < 3) { why = "a line of the trace has no name, start and duration: '" + l + "'"; return false; }
        char *e1, *e2; Ev e; e.start = strtod(w[w.size() - 2].c_str(), &e1); e.dur = strtod(w.back().c_str(), &e2);
        if (*e1 || *e2) { why = "start or duration is no number: '" + l + "'"; return false; }
        for (size_t i = 0; i + 2 < w.size(); i++) e.name += (i ? " " : "") + w[i];
        r.push_back(e);
    }
    return true;
}
static bool mpi_event(std::string const &n) { return n == "all2all" || n == "all2allv" || n == "waitany" || n.compare(0, 6, "irecv ") == 0 || n.compare(0, 6, "isend ") == 0 || n.compare(0, 5, "send ") == 0; }
void dispatch(std::string const &) {
    GenOpt go; go.kinds = {C2C, C2C, R2F, R2C}; go.backends = {B_STOCK, B_FFTW, B_FFTW, B_MKL, B_FFTW_COS}; go.maxn = 600; go.p_large = 0; go.p_empty = 0.15; go.max_batch = 3; go.p_inplace = 0.3; go.force_explicit = true; go.algs = {0, 1, 2, 3};
    long long T[6], events = 0, mpiev = 0, traces = 0, scales = 0; double res = MPI_Wtick();
    for (int idx = cx.start; idx < cx.start + cx.count; idx++) {
        Rng gs(mix(cx.seed + 51, (uint64_t)idx * 7)), g(mix(cx.seed + 52, (uint64_t)idx * 11 + cx.wrank));
        int K = gs.range(1, 2), R = gs.range(1, 3); std::vector<Case> cs; for (int k = 0; k < K; k++) cs.push_back(gen_case(cx.seed + 6000, idx * 4 + k, cx.wsize, go));
        struct Op { int k, dir, prec, variant, batch, scaling; bool inplace; int repeat; };
        bool tiny = cx.wsize <= 6; for (auto &q : cs) if (q.total() > 150) tiny = false;
        bool lengthy = gs.chance(0.08) && tiny;      // one transform several hundred times: thousands of events
        std::vector<std::vector<Op>> rounds(2 * R);     // even: traced, odd: after the end of the trace
        std::string text = "traces: " + std::to_string(R) + " ";
        for (int r = 0; r < 2 * R; r++) { int n = r % 2 == 0 ? gs.range(0, 4) : gs.below(2); for (int t = 0; t < n; t++) { Op o; o.k = gs.below(K); o.dir = gs.below(2); o.prec = gs.below(2); o.variant = gs.below(5); o.batch = o.variant == 2 || o.variant == 3 ? gs.range(1, 3) : 1; o.scaling = gs.below(3); auto kd = cs[o.k].kind; o.inplace = (kd == C2C || kd == R2R) && o.variant != 4 && gs.chance(0.3); o.repeat = gs.chance(0.5); if (lengthy && r % 2 == 0) { o.repeat = gs.range(350, 650); lengthy = false; } rounds[r].push_back(o);
            text += (r % 2 ? " untraced:" : " r" + std::to_string(r / 2) + ":") + std::to_string(o.k) + (o.dir ? "b" : "f") + "v" + std::to_string(o.variant) + "b" + std::to_string(o.batch) + "x" + std::to_string(o.scaling); } }
        for (auto &c : cs) text += " {" + c.text() + "}";
        start_case(idx, text.substr(0, 6000));
        mon.reset_counts(); mon.enabled = true; mon.wlo = mon.whi = nullptr; mon.check_match = false; mon.poison_recv = true; mon.sync_send = gs.chance(0.3); mon.any_order = gs.chance(0.5); mon.delay_pct = gs.pick(std::vector<int>{0, 0, 15}); mon.rng = g.next();
        long long c0 = mon.live_comms, g0 = mon.live_groups;
        std::vector<MPI_Comm> comm(K, MPI_COMM_NULL); std::vector<std::unique_ptr<IPlan>> plan(K); std::vector<int> me(K, -1); int execs = 0; std::string previous_file, previous;
        std::vector<char> made(K, 0); bool early = gs.chance(0.5);
        auto make = [&](int k) { Case &c = cs[k]; made[k] = 1; comm[k] = make_comm(c.members); for (size_t i = 0; i < c.members.size(); i++) if (c.members[i] == cx.wrank) me[k] = (int)i;
            if (comm[k] != MPI_COMM_NULL) { int st = 0; try { plan[k] = make_plan(c.backend, c.i64, c.kind, c.r2cdir, c.in[me[k]], c.out[me[k]], comm[k], c.o, 0); } catch (std::exception &) { st = 1; } PMPI_Allreduce(MPI_IN_PLACE, &st, 1, MPI_INT, MPI_MAX, comm[k]); if (st) plan[k].reset(); } };
        if (early) for (int k = 0; k < K; k++) make(k);
        auto runop = [&](Op const &o) { Case c = cs[o.k]; c.prec = o.prec; c.variant = o.variant; c.batch = o.batch; c.scaling = o.scaling; c.inplace = o.inplace; c.idx = idx; exec_check(*plan[o.k], c, me[o.k], o.dir, g, nullptr, "transform of a traced program"); };
        for (int r = 0; r < R; r++) {
            // one directory per launch: VH_WORK is the working directory
            std::string root = "trace" + std::to_string(r) + (gs.chance(0.3) ? "_with_underscores.and.dots" : ""), file = root + "_" + std::to_string(cx.wrank) + ".log"; unlink(file.c_str());
            heffte::init_tracing(root); mon.calls.clear(); double t0 = MPI_Wtime(); long long want_scale = 0, want_fft = 0, transforms = 0; bool multi = false;
            if (!early && r == 0) { for (int k = 0; k < K; k++) make(k); }
            if (!heffte::event_log.empty()) cx.bad("stale", "init_tracing keeps events of an earlier trace, or creating a plan logs transforms: " + heffte::event_log.front().name);
            mon.keep_trace = true;
            for (auto &o : rounds[2 * r]) if (plan[o.k]) {
                std::vector<std::vector<std::string>> names;
                for (int q = 0; q <= o.repeat; q++) {
                    size_t before = heffte::event_log.size(); runop(o); execs++; transforms++;
                    std::vector<std::string> nm; for (size_t i = before; i < heffte::event_log.size(); i++) nm.push_back(heffte::event_log[i].name); std::sort(nm.begin(), nm.end()); names.push_back(nm);
                    if (o.scaling) { want_scale++; if (o.batch > 1) multi = true; } want_fft++;
                    int fft = 0; for (auto &x : nm) fft += x.compare(0, 6, "fft-1d") == 0; if (!fft) cx.bad("lost", "a transform left no fft event");
                }
                for (size_t q = 1; q < names.size(); q++) if (names[0] != names[q]) { cx.bad("repeat", "the same transform run again gave different events: " + std::to_string(names[0].size()) + " and " + std::to_string(names[q].size())); break; }
            }
            mon.keep_trace = false; double t1 = MPI_Wtime();
            std::vector<std::string> calls = mon.calls; std::vector<heffte::event> mem(heffte::event_log.begin(), heffte::event_log.end());
            heffte::finalize_tracing(); if (gs.chance(0.2)) heffte::finalize_tracing();
            traces++;
            std::vector<Ev> ev; std::string why; if (!read_trace(file, ev, why)) cx.bad("file", why);
            else {
                if (ev.size() != mem.size()) cx.bad("file", "the file has " + std::to_string(ev.size()) + " events, the log " + std::to_string(mem.size()));
                double scale_ev = 0; std::vector<std::string> seen; double last_end = 0;
                for (size_t i = 0; i < ev.size() && i < mem.size(); i++) {
                    auto &e = ev[i]; auto &m = mem[i]; events++;
                    double tol = 1e-10 * std::fabs(m.start_time) + 1e-12;
                    if (e.name != m.name || std::fabs(e.start - m.start_time) > tol || std::fabs(e.dur - m.duration) > 1e-10 * std::fabs(m.duration) + 1e-15) { cx.bad("file", "event " + std::to_string(i) + " of the file (" + e.name + ") differs from the log (" + m.name + ")"); break; }
                    if (!(m.duration >= 0)) cx.bad("duration", "negative duration of " + m.name);
                    if (m.start_time < t0 - res || m.start_time + m.duration > t1 + res + 1e-9 * t1) { std::ostringstream o; o << "event " << m.name << " at " << m.start_time - t0 << " lasting " << m.duration << " is outside the traced interval of " << t1 - t0; cx.bad("time", o.str()); }
                    double end = m.start_time + m.duration; if (end < last_end - 1e-9 * end - res) cx.bad("order", "events are not logged in the order in which they end"); last_end = std::max(last_end, end);
                    if (m.name == "scale") scale_ev++;
                    if (mpi_event(m.name)) seen.push_back(m.name);
                }
                std::vector<std::string> exp; for (auto &c : calls) if (mpi_event(c)) exp.push_back(c);
                mpiev += (long long)exp.size(); scales += want_scale;
                if (seen != exp) { size_t i = 0; while (i < seen.size() && i < exp.size() && seen[i] == exp[i]) i++; cx.bad("calls", "communication event " + std::to_string(i) + " of " + std::to_string(seen.size()) + " is '" + (i < seen.size() ? seen[i] : "-") + "', the MPI call was '" + (i < exp.size() ? exp[i] : "-") + "' of " + std::to_string(exp.size())); }
                std::vector<std::string> from, unp; for (auto &c : calls) if (c.compare(0, 6, "irecv ") == 0) from.push_back(c.substr(c.find(" from ") + 6)); for (auto &m : mem) if (m.name.compare(0, 15, "unpacking from ") == 0) unp.push_back(m.name.substr(15));
                std::sort(from.begin(), from.end()); std::sort(unp.begin(), unp.end());
                if (from != unp) cx.bad("unpack", "the ranks named by the unpacking events are not the ranks the messages came from");
                if (multi ? scale_ev < want_scale : scale_ev != want_scale) cx.bad("scale", std::to_string((long long)scale_ev) + " scale events for " + std::to_string(want_scale) + " scaled transforms");
            }
            for (auto &o : rounds[2 * r + 1]) if (plan[o.k]) { runop(o); execs++; }
            if (!previous_file.empty() && previous_file != file) { std::ifstream f(previous_file); std::stringstream b; b << f.rdbuf(); if (b.str() != previous) cx.bad("file", "the file of an earlier trace has changed"); unlink(previous_file.c_str()); }
            { std::ifstream f(file); std::stringstream b; b << f.rdbuf(); previous = b.str(); previous_file = file; }
        }
        if (!previous_file.empty()) unlink(previous_file.c_str());
        for (int k = 0; k < K; k++) { if (!made[k]) make(k); plan[k].reset(); if (comm[k] != MPI_COMM_NULL) PMPI_Comm_free(&comm[k]); }
        mon.enabled = false; mon.errors.clear(); mon.live_comms = c0; mon.live_groups = g0; mon.calls.clear();
        int any = execs; PMPI_Allreduce(MPI_IN_PLACE, &any, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
        end_case(idx, text, any ? "ok" : "nothing ran");
    }
    long long v[6] = {events, mpiev, traces, scales, ec_values, ec_calls}; PMPI_Reduce(v, T, 6, MPI_LONG_LONG, MPI_SUM, 0, MPI_COMM_WORLD);
    cx.stat["trace_events"] = (double)T[0]; cx.stat["mpi_calls_matched"] = (double)T[1]; cx.stat["traces"] = (double)T[2]; cx.stat["scale_events"] = (double)T[3]; cx.stat["values_compared"] = (double)T[4]; cx.stat["transform_calls_all_ranks"] = (double)T[5];
}
