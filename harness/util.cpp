#include "engine.h"
long long ec_calls = 0, ec_values = 0;
void exec_check(IPlan &plan, Case const &c, int me, int d, Rng &g, Guarded *sw, std::string const &what) {
    Box const &bi = d == 0 ? c.in[me] : c.out[me], &bo = d == 0 ? c.out[me] : c.in[me];
    auto ni = d == 0 ? c.n : c.nout(), no = d == 0 ? c.nout() : c.n;
    size_t ei = d == 0 ? in_elem(c.kind, c.prec) : out_elem(c.kind, c.prec), eo = d == 0 ? out_elem(c.kind, c.prec) : in_elem(c.kind, c.prec), ew = ws_elem(c.kind, c.prec);
    bool ci = d == 0 ? c.kind == C2C : c.kind != R2R, co = d == 0 ? c.kind != R2R : c.kind == C2C;
    size_t li = (size_t)bi.vol(), lo = (size_t)bo.vol(); int B = c.batch;
    std::vector<std::vector<cd>> gexp(B); Guarded in, out, own; int garbage = g.below(3);
    size_t in_bytes = c.inplace ? (size_t)B * std::max(li * ei, lo * eo) : B * li * ei;
    in.alloc(in_bytes, ei, g, garbage); if (!c.inplace) out.alloc(B * lo * eo, eo, g, garbage);
    bool usews = c.variant == 1 || c.variant == 2; size_t need = plan.size_workspace() * B * ew; Guarded *ws = nullptr;
    if (usews) { if (sw && sw->bytes >= need) ws = sw; else { own.alloc(need, ew, g, garbage); ws = &own; } }
    for (int b = 0; b < B; b++) { auto gin = global_input(c, d, b); gexp[b] = global_expected(c, d, gin); put_local(bi, ni, gin, ci, c.prec, in.as<char>() + (size_t)b * li * ei); }
    std::vector<unsigned char> saved; if (!c.inplace) saved.assign(in.as<unsigned char>(), in.as<unsigned char>() + in_bytes);
    void *o = c.inplace ? in.p() : out.p();
    if (c.variant == 4) { size_t got = plan.exec_vector(d, c.prec, in.p(), li, o, lo, c.scaling); if (got != lo) cx.bad("vector-size", what + ": the vector API returned " + std::to_string(got) + " entries instead of " + std::to_string(lo)); }
    else plan.exec(d, c.prec, c.variant, B, in.p(), o, ws ? ws->p() : nullptr, c.scaling);
    ec_calls++;
    for (int b = 0; b < B; b++) {
        std::string where; double e = diff_local(bo, no, gexp[b], co, c.prec, (char *)o + (size_t)b * lo * eo, where); double tol = tol_for(c.prec, c.backend, c.n);
        ec_values += (long long)lo; if (e / tol > cx.worst) cx.worst = e / tol;
        if (e > tol) { std::ostringstream s; s << what << ": batch entry " << b << " direction " << d << ": " << where << " relative error " << e; cx.bad(e > 1e-3 ? "value" : "accuracy", s.str()); break; }
    }
    if (!in.intact() || (!c.inplace && !out.intact()) || (ws && !ws->intact())) cx.bad("guard", what + ": bytes around a buffer were written");
    if (!c.inplace && in_bytes && memcmp(saved.data(), in.p(), in_bytes) != 0) cx.bad("const-input", what + ": the input array was modified by an out-of-place transform");
}
// runs one forward transform with each of two plans of the same description: "" or how their MPI calls differ
std::string profile_diff(IPlan &a, IPlan &b, int kind) {
    long long pr[2][9]; int const prec = 1;
    for (int k = 0; k < 2; k++) {
        IPlan &x = k ? b : a; std::vector<char> in((size_t)x.size_inbox() * in_elem(kind, prec) + 64), out((size_t)x.size_outbox() * out_elem(kind, prec) + 64), ws(x.size_workspace() * ws_elem(kind, prec) + 64);
        mon.reset_counts(); x.exec(0, prec, 1, 1, in.data(), out.data(), ws.data(), 0);
        long long v[9] = {mon.ev_isend, mon.ev_send, mon.ev_irecv, mon.ev_waitany, mon.ev_waitall, mon.ev_a2a, mon.ev_a2av, mon.ev_bytes, mon.ev_rbytes}; memcpy(pr[k], v, sizeof v);
    }
    if (!memcmp(pr[0], pr[1], sizeof pr[0])) return "";
    std::ostringstream o; o << "the MPI calls of the plan differ from those of the C++ plan (isend, send, irecv, waitany, waitall, alltoall, alltoallv, bytes sent, received):"; for (auto &r : pr) { for (auto v : r) o << " " << v; o << " /"; }
    return o.str();
}
