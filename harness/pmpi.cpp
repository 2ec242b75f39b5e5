// MPI monitor: interposes the MPI calls heFFTe makes, checks them, optionally perturbs timing / completion order.
#include "vh.h"
#include <unistd.h>
#include <time.h>
Mon mon;
void Mon::reset_counts() {
    ev_isend = ev_irecv = ev_send = ev_waitany = ev_waitall = ev_a2a = ev_a2av = ev_allgather = ev_comm_new = ev_comm_free = ev_group = ev_group_free = ev_delay = ev_bytes = ev_rbytes = 0;
    order_sig = 0; errors.clear(); calls.clear();
}
namespace {
struct ReqInfo { int kind; char *buf; size_t bytes; uint64_t hash; int count; MPI_Datatype type; };
std::multimap<MPI_Request, ReqInfo> reqs;   // Open MPI hands out one shared handle for sends that are complete at once
std::set<MPI_Comm> comms;
void add_req(MPI_Request q, ReqInfo i) { auto r = reqs.equal_range(q); if (r.first != r.second) { for (auto it = r.first; it != r.second; ++it) it->second.kind = 2; i.kind = 2; } reqs.insert({q, i}); mon.outstanding = (long long)reqs.size(); }
uint64_t rnd() { Rng r(mon.rng); mon.rng = r.next(); return mon.rng; }
uint64_t fnv(void const *p, size_t n) { uint64_t h = 1469598103934665603ull; unsigned char const *c = (unsigned char const *)p; for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; } return h; }
void delay() {
    if (!mon.enabled || mon.delay_pct == 0) return;
    if ((int)(rnd() % 100) < mon.delay_pct) { mon.ev_delay++; struct timespec t = {0, (long)(rnd() % 400000)}; nanosleep(&t, nullptr); }
}
size_t tsize(MPI_Datatype t) { int s; PMPI_Type_size(t, &s); return (size_t)s; }
void inrange(char const *what, void const *p, size_t bytes) {
    if (!mon.wlo || bytes == 0) return;
    char const *c = (char const *)p;
    if (c < mon.wlo || c + bytes > mon.whi) {
        std::ostringstream o; o << what << " buffer of " << bytes << " bytes at offset " << (c - mon.wlo) << " is outside the workspace of " << (mon.whi - mon.wlo) << " bytes"; mon.err(o.str()); }
}
template<class F> void call_(F f) { if (mon.keep_trace) mon.calls.push_back(f()); }
#define call(x) call_([&]() -> std::string { return x; })
}
extern "C" {
int MPI_Comm_create(MPI_Comm c, MPI_Group g, MPI_Comm *n) {
    delay(); int r = PMPI_Comm_create(c, g, n);
    if (mon.enabled && *n != MPI_COMM_NULL) { mon.ev_comm_new++; mon.live_comms++; comms.insert(*n); } return r; }
int MPI_Comm_create_group(MPI_Comm c, MPI_Group g, int tag, MPI_Comm *n) {
    int r = PMPI_Comm_create_group(c, g, tag, n);
    if (mon.enabled && *n != MPI_COMM_NULL) { mon.ev_comm_new++; mon.live_comms++; comms.insert(*n); } return r; }
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm *n) {
    int r = PMPI_Comm_split(c, color, key, n);
    if (mon.enabled && *n != MPI_COMM_NULL) { mon.ev_comm_new++; mon.live_comms++; comms.insert(*n); } return r; }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm *n) {
    int r = PMPI_Comm_dup(c, n);
    if (mon.enabled && *n != MPI_COMM_NULL) { mon.ev_comm_new++; mon.live_comms++; comms.insert(*n); } return r; }
int MPI_Comm_free(MPI_Comm *c) {
    if (mon.enabled) {
        mon.ev_comm_free++;
        if (!comms.count(*c)) { mon.err("MPI_Comm_free called on a communicator heFFTe did not create, or twice"); *c = MPI_COMM_NULL; return MPI_SUCCESS; }
        comms.erase(*c); mon.live_comms--;
    }
    return PMPI_Comm_free(c); }
// the predefined empty group is no resource: neither getting it nor giving it back counts
static int counted_group(int rc, MPI_Group *g) { if (mon.enabled) { mon.ev_group++; if (*g != MPI_GROUP_EMPTY) mon.live_groups++; } return rc; }
int MPI_Comm_group(MPI_Comm c, MPI_Group *g) { int rc = PMPI_Comm_group(c, g); return counted_group(rc, g); }
int MPI_Group_incl(MPI_Group g, int n, const int r[], MPI_Group *o) { int rc = PMPI_Group_incl(g, n, r, o); return counted_group(rc, o); }
int MPI_Group_excl(MPI_Group g, int n, const int r[], MPI_Group *o) { int rc = PMPI_Group_excl(g, n, r, o); return counted_group(rc, o); }
int MPI_Group_free(MPI_Group *g) { if (mon.enabled) { mon.ev_group_free++; if (*g != MPI_GROUP_EMPTY) mon.live_groups--; } return PMPI_Group_free(g); }
int MPI_Allgather(const void *s, int sc, MPI_Datatype st, void *r, int rc, MPI_Datatype rt, MPI_Comm c) {
    if (mon.enabled) mon.ev_allgather++; delay(); return PMPI_Allgather(s, sc, st, r, rc, rt, c); }
int MPI_Alltoall(const void *s, int sc, MPI_Datatype st, void *r, int rc, MPI_Datatype rt, MPI_Comm c) {
    if (mon.enabled) {
        mon.ev_a2a++; call("all2all"); delay();
        int n; PMPI_Comm_size(c, &n);
        size_t sb = tsize(st) * (size_t)sc * n, rb = tsize(rt) * (size_t)rc * n; mon.ev_bytes += sb; mon.ev_rbytes += rb;
        inrange("MPI_Alltoall send", s, sb); inrange("MPI_Alltoall receive", r, rb);
        if (sb && rb && (char const *)s < (char *)r + rb && (char *)r < (char const *)s + sb) mon.err("MPI_Alltoall: send and receive buffers overlap");
        if (mon.check_match) {
            long long me[2] = {(long long)tsize(st) * sc, (long long)tsize(rt) * rc}; std::vector<long long> all(2 * n);
            PMPI_Allgather(me, 2, MPI_LONG_LONG, all.data(), 2, MPI_LONG_LONG, c);
            for (auto x : all) if (x != me[0]) { mon.err("MPI_Alltoall: the ranks disagree on the block size"); break; }
        }
        if (mon.poison_recv && rb) memset(r, 0xff, rb);
    }
    return PMPI_Alltoall(s, sc, st, r, rc, rt, c); }
int MPI_Alltoallv(const void *s, const int sc[], const int sd[], MPI_Datatype st, void *r, const int rc[], const int rd[], MPI_Datatype rt, MPI_Comm c) {
    if (mon.enabled) {
        mon.ev_a2av++; call("all2allv"); delay();
        int n; PMPI_Comm_size(c, &n);
        size_t ts = tsize(st), tr = tsize(rt);
        std::vector<std::pair<char const *, char const *>> rr, ss;
        for (int i = 0; i < n; i++) {
            if (sc[i] > 0) { ss.push_back({(char const *)s + ts * (long long)sd[i], (char const *)s + ts * ((long long)sd[i] + sc[i])}); inrange("MPI_Alltoallv send", ss.back().first, ts * sc[i]); mon.ev_bytes += ts * sc[i]; }
            if (rc[i] > 0) { mon.ev_rbytes += tr * rc[i]; rr.push_back({(char const *)r + tr * (long long)rd[i], (char const *)r + tr * ((long long)rd[i] + rc[i])}); inrange("MPI_Alltoallv receive", rr.back().first, tr * rc[i]); }
            if (sc[i] < 0 || rc[i] < 0) mon.err("MPI_Alltoallv: negative count");
        }
        for (size_t i = 0; i < rr.size(); i++) {
            for (size_t j = 0; j < i; j++) if (rr[i].first < rr[j].second && rr[j].first < rr[i].second) mon.err("MPI_Alltoallv: two receive blocks overlap");
            for (auto &x : ss) if (rr[i].first < x.second && x.first < rr[i].second) mon.err("MPI_Alltoallv: a receive block overlaps a send block");
        }
        if (mon.check_match) {
            std::vector<long long> mine(n), theirs(n);
            for (int i = 0; i < n; i++) mine[i] = (long long)ts * sc[i];
            PMPI_Alltoall(mine.data(), 1, MPI_LONG_LONG, theirs.data(), 1, MPI_LONG_LONG, c);
            for (int i = 0; i < n; i++) if (theirs[i] != (long long)tr * rc[i]) { std::ostringstream o; o << "MPI_Alltoallv: rank " << i << " sends " << theirs[i] << " bytes where " << (long long)tr * rc[i] << " are expected"; mon.err(o.str()); }
        }
        if (mon.poison_recv) for (auto &x : rr) memset((void *)x.first, 0xff, x.second - x.first);
    }
    return PMPI_Alltoallv(s, sc, sd, st, r, rc, rd, rt, c); }
int MPI_Irecv(void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Request *q) {
    if (!mon.enabled) return PMPI_Irecv(b, n, t, src, tag, c, q);
    mon.ev_irecv++; call("irecv " + std::to_string(n) + " from " + std::to_string(src)); delay();
    size_t bytes = tsize(t) * (size_t)n; inrange("MPI_Irecv", b, bytes); mon.ev_rbytes += bytes;
    for (auto &x : reqs) if (bytes && x.second.bytes && (char *)b < x.second.buf + x.second.bytes && x.second.buf < (char *)b + bytes) mon.err("MPI_Irecv: buffer overlaps the buffer of a pending request");
    if (mon.poison_recv && bytes) memset(b, 0xff, bytes);
    int r = PMPI_Irecv(b, n, t, src, tag, c, q);
    add_req(*q, ReqInfo{0, (char *)b, bytes, 0, n, t});
    return r; }
int MPI_Isend(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request *q) {
    if (!mon.enabled) return PMPI_Isend(b, n, t, dst, tag, c, q);
    mon.ev_isend++; call("isend " + std::to_string(n) + " for " + std::to_string(dst)); delay();
    size_t bytes = tsize(t) * (size_t)n; inrange("MPI_Isend", b, bytes); mon.ev_bytes += bytes;
    for (auto &x : reqs) if (x.second.kind == 0 && bytes && x.second.bytes && (char *)b < x.second.buf + x.second.bytes && x.second.buf < (char *)b + bytes) mon.err("MPI_Isend: buffer overlaps a pending receive");
    int r = mon.sync_send ? PMPI_Issend(b, n, t, dst, tag, c, q) : PMPI_Isend(b, n, t, dst, tag, c, q);
    add_req(*q, ReqInfo{1, (char *)b, bytes, fnv(b, bytes), n, t});
    return r; }
int MPI_Send(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c) {
    if (!mon.enabled) return PMPI_Send(b, n, t, dst, tag, c);
    mon.ev_send++; call("send " + std::to_string(n) + " for " + std::to_string(dst)); delay();
    size_t bytes = tsize(t) * (size_t)n; inrange("MPI_Send", b, bytes); mon.ev_bytes += bytes;
    for (auto &x : reqs) if (x.second.kind == 0 && bytes && x.second.bytes && (char *)b < x.second.buf + x.second.bytes && x.second.buf < (char *)b + bytes) mon.err("MPI_Send: buffer overlaps a pending receive");
    return mon.sync_send ? PMPI_Ssend(b, n, t, dst, tag, c) : PMPI_Send(b, n, t, dst, tag, c); }
static void done(MPI_Request q, MPI_Status *st) {
    auto it = reqs.find(q); if (it == reqs.end()) { mon.err("waiting for a request that was not posted"); return; }
    if (it->second.kind == 1) { if (fnv(it->second.buf, it->second.bytes) != it->second.hash) mon.err("the buffer of an MPI_Isend was modified before the send completed"); }
    else if (it->second.kind == 0) { int n; PMPI_Get_count(st, it->second.type, &n); if (n != it->second.count) { std::ostringstream o; o << "a receive posted for " << it->second.count << " entries got " << n; mon.err(o.str()); } }
    reqs.erase(it); mon.outstanding = (long long)reqs.size();
}
int MPI_Wait(MPI_Request *q, MPI_Status *s) {
    if (!mon.enabled) return PMPI_Wait(q, s);
    delay(); MPI_Status st; MPI_Request h = *q; if (h == MPI_REQUEST_NULL) return PMPI_Wait(q, s);
    int r = PMPI_Wait(q, &st); done(h, &st); if (s != MPI_STATUS_IGNORE) *s = st; return r; }
int MPI_Waitany(int n, MPI_Request q[], int *idx, MPI_Status *s) {
    if (!mon.enabled) return PMPI_Waitany(n, q, idx, s);
    mon.ev_waitany++; call("waitany"); delay();
    std::vector<int> act; for (int i = 0; i < n; i++) if (q[i] != MPI_REQUEST_NULL) act.push_back(i);
    if (act.empty()) return PMPI_Waitany(n, q, idx, s);
    MPI_Status st; int r;
    if (mon.any_order) {  // any request may legally complete first: pick one, wait for exactly that one
        *idx = act[rnd() % act.size()]; MPI_Request h = q[*idx];
        r = PMPI_Wait(&q[*idx], &st); done(h, &st);
    } else {
        std::vector<MPI_Request> cp(q, q + n);
        r = PMPI_Waitany(n, q, idx, &st); done(cp[*idx], &st);
    }
    mon.order_sig = mix(mon.order_sig + 1, (uint64_t)*idx * 131 + n);
    if (s != MPI_STATUS_IGNORE) *s = st; return r; }
int MPI_Waitall(int n, MPI_Request q[], MPI_Status *s) {
    if (!mon.enabled) return PMPI_Waitall(n, q, s);
    mon.ev_waitall++; call("waitall"); delay();
    std::vector<MPI_Request> cp(q, q + n); std::vector<MPI_Status> st(n + 1);
    int r = PMPI_Waitall(n, q, st.data());
    for (int i = 0; i < n; i++) if (cp[i] != MPI_REQUEST_NULL) done(cp[i], &st[i]);
    return r; }
int MPI_Waitsome(int n, MPI_Request q[], int *cnt, int *ids, MPI_Status *s) {
    if (!mon.enabled) return PMPI_Waitsome(n, q, cnt, ids, s);
    std::vector<MPI_Request> cp(q, q + n); std::vector<MPI_Status> st(n + 1);
    int r = PMPI_Waitsome(n, q, cnt, ids, st.data());
    if (*cnt != MPI_UNDEFINED) for (int i = 0; i < *cnt; i++) { done(cp[ids[i]], &st[i]); if (s != MPI_STATUSES_IGNORE) s[i] = st[i]; }
    return r; }
int MPI_Test(MPI_Request *q, int *flag, MPI_Status *s) {
    if (!mon.enabled || *q == MPI_REQUEST_NULL) return PMPI_Test(q, flag, s);
    MPI_Status st; MPI_Request h = *q; int r = PMPI_Test(q, flag, &st);
    if (*flag) { done(h, &st); if (s != MPI_STATUS_IGNORE) *s = st; } return r; }
int MPI_Testany(int n, MPI_Request q[], int *idx, int *flag, MPI_Status *s) {
    if (!mon.enabled) return PMPI_Testany(n, q, idx, flag, s);
    std::vector<MPI_Request> cp(q, q + n); MPI_Status st; int r = PMPI_Testany(n, q, idx, flag, &st);
    if (*flag && *idx != MPI_UNDEFINED) { done(cp[*idx], &st); if (s != MPI_STATUS_IGNORE) *s = st; } return r; }
int MPI_Testall(int n, MPI_Request q[], int *flag, MPI_Status *s) {
    if (!mon.enabled) return PMPI_Testall(n, q, flag, s);
    std::vector<MPI_Request> cp(q, q + n); std::vector<MPI_Status> st(n + 1); int r = PMPI_Testall(n, q, flag, st.data());
    if (*flag) for (int i = 0; i < n; i++) if (cp[i] != MPI_REQUEST_NULL) done(cp[i], &st[i]); return r; }
int MPI_Testsome(int n, MPI_Request q[], int *cnt, int *ids, MPI_Status *s) {
    if (!mon.enabled) return PMPI_Testsome(n, q, cnt, ids, s);
    std::vector<MPI_Request> cp(q, q + n); std::vector<MPI_Status> st(n + 1);
    int r = PMPI_Testsome(n, q, cnt, ids, st.data());
    if (*cnt != MPI_UNDEFINED) for (int i = 0; i < *cnt; i++) { done(cp[ids[i]], &st[i]); if (s != MPI_STATUSES_IGNORE) s[i] = st[i]; }
    return r; }
int MPI_Issend(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request *q) { return mon.enabled ? MPI_Isend(b, n, t, dst, tag, c, q) : PMPI_Issend(b, n, t, dst, tag, c, q); }
int MPI_Ssend(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c) { return MPI_Send(b, n, t, dst, tag, c); }
}
