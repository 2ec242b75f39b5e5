// Reshape operations on generated pairs of decompositions: every entry must arrive exactly once at its place.
#include "engine.h"
#include "heffte.h"
#pragma GCC visibility push(hidden)
template<class I> static heffte::box3d<I> hb(Box const &b) { return heffte::box3d<I>(std::array<I, 3>{(I)b.lo[0], (I)b.lo[1], (I)b.lo[2]}, std::array<I, 3>{(I)b.hi[0], (I)b.hi[1], (I)b.hi[2]}, b.ord); }
struct RCase { Case c; int scalar; int alg; bool through_factory; bool unaware; };
template<class T> static T tagv(uint64_t id, int);
template<> float tagv<float>(uint64_t id, int) { uint32_t u = 0x3f000000u ^ (uint32_t)(id & 0x007fffffu) ^ (uint32_t)((id >> 23) & 1) << 31; float f; memcpy(&f, &u, 4); return f; }
template<> double tagv<double>(uint64_t id, int) { uint64_t u = 0x3fe0000000000000ull ^ (id & 0xfffffffffffull); double f; memcpy(&f, &u, 8); return f; }
template<> std::complex<float> tagv<std::complex<float>>(uint64_t id, int) { return {tagv<float>(id, 0), tagv<float>(~id * 3, 0)}; }
template<> std::complex<double> tagv<std::complex<double>>(uint64_t id, int) { return {tagv<double>(id, 0), tagv<double>(~id * 3, 0)}; }
static long long g_moved = 0, g_none = 0, g_bytes = 0;
template<class I, class T> static void move_case(RCase const &r, MPI_Comm comm, int me, Rng &g) {
    Case const &c = r.c; std::vector<heffte::box3d<I>> in, out; for (auto &b : c.in) in.push_back(hb<I>(b)); for (auto &b : c.out) out.push_back(hb<I>(b));
    heffte::plan_options o = heffte::default_options<heffte::backend::stock>();
    o.algorithm = r.alg == A_A2A ? heffte::reshape_algorithm::alltoall : r.alg == A_P2PP ? heffte::reshape_algorithm::p2p_plined : r.alg == A_P2P ? heffte::reshape_algorithm::p2p : heffte::reshape_algorithm::alltoallv;
    o.use_gpu_aware = !r.unaware;
    std::unique_ptr<heffte::reshape3d_base<I>> s;
    using tag = heffte::tag::cpu; bool same = c.in[0].ord == c.out[0].ord;
    if (r.through_factory) s = heffte::make_reshape3d<heffte::backend::stock>(nullptr, in, out, comm, o);
    else if (r.alg == A_A2AV) s = same ? std::unique_ptr<heffte::reshape3d_base<I>>(heffte::make_reshape3d_alltoallv<tag, heffte::direct_packer, I>(nullptr, in, out, o.use_gpu_aware, comm)) : heffte::make_reshape3d_alltoallv<tag, heffte::transpose_packer, I>(nullptr, in, out, o.use_gpu_aware, comm);
    else if (r.alg == A_A2A) s = same ? std::unique_ptr<heffte::reshape3d_base<I>>(heffte::make_reshape3d_alltoall<tag, heffte::direct_packer, I>(nullptr, in, out, o.use_gpu_aware, comm)) : heffte::make_reshape3d_alltoall<tag, heffte::transpose_packer, I>(nullptr, in, out, o.use_gpu_aware, comm);
    else s = same ? std::unique_ptr<heffte::reshape3d_base<I>>(heffte::make_reshape3d_pointtopoint<tag, heffte::direct_packer, I>(nullptr, in, out, o.algorithm, o.use_gpu_aware, comm)) : heffte::make_reshape3d_pointtopoint<tag, heffte::transpose_packer, I>(nullptr, in, out, o.algorithm, o.use_gpu_aware, comm);
    bool identical = str(c.in) == str(c.out);
    if (!s) {
        g_none++;
        if (identical) return;
        // the factory may return nothing for an empty box of a local transpose, and for a rank that does not take part
        if (c.in[me].vol() || c.out[me].vol()) { if (!(r.through_factory && c.in[me].vol() == c.out[me].vol() && str(c.in[me]) == str(c.out[me]))) cx.bad("missing", "no reshape operation was created although this rank owns data"); }
        return;
    }
    if ((long long)s->size_intput() != c.in[me].vol() || (long long)s->size_output() != c.out[me].vol()) cx.bad("sizes", "the input/output size of the reshape differs from the boxes");
    size_t li = (size_t)c.in[me].vol(), lo = (size_t)c.out[me].vol(); auto n = c.n;
    for (int rep = 0; rep < 2; rep++) {
        int B = rep == 0 ? c.batch : (c.batch == 1 ? 2 : 1);
        Guarded src, dst, ws; src.alloc(B * li * sizeof(T), sizeof(T), g, 2); dst.alloc(B * lo * sizeof(T), sizeof(T), g, 2); size_t wn = s->size_workspace() * B; ws.alloc(wn * sizeof(T), sizeof(T), g, rep);
        uint64_t salt = mix(c.seed, (uint64_t)c.idx * 2 + rep); long long N = (long long)n[0] * n[1] * n[2];
        auto id = [&](int b, std::array<long long, 3> const &x) { return salt + (uint64_t)((b * N) + (x[2] * n[1] + x[1]) * n[0] + x[0]); };
        for (int b = 0; b < B; b++) c.in[me].each([&](std::array<long long, 3> const &x, long long p) { src.as<T>()[b * li + p] = tagv<T>(id(b, x), 0); });
        std::vector<unsigned char> saved(src.as<unsigned char>(), src.as<unsigned char>() + src.bytes);
        mon.wlo = (char *)ws.p(); mon.whi = mon.wlo + wn * sizeof(T);
        s->apply(B, src.as<T>(), dst.as<T>(), ws.as<T>());
        mon.wlo = mon.whi = nullptr;
        if (mon.outstanding) cx.bad("requests", "MPI requests are pending after the reshape");
        bool stop = false;
        for (int b = 0; b < B && !stop; b++) c.out[me].each([&](std::array<long long, 3> const &x, long long p) {
            if (stop) return; T want = tagv<T>(id(b, x), 0); g_moved++;
            if (memcmp(&want, &dst.as<T>()[b * lo + p], sizeof(T)) != 0) { std::ostringstream m; m << "batch entry " << b << " of " << B << " index (" << x[0] << "," << x[1] << "," << x[2] << ") does not hold the value the source had"; cx.bad("moved", m.str()); stop = true; } });
        g_bytes += (long long)dst.bytes;
        if (src.bytes && memcmp(saved.data(), src.p(), src.bytes) != 0) cx.bad("const-source", "the source of the reshape was modified");
        if (!src.intact()) cx.bad("guard-source", "bytes around the source were written");
        if (!dst.intact()) cx.bad("guard-destination", "bytes around the destination were written, offset " + std::to_string(dst.damaged()));
        if (!ws.intact()) cx.bad("guard-workspace", "bytes around the workspace were written, offset " + std::to_string(ws.damaged()));
    }
}
#pragma GCC visibility pop
void dispatch(std::string const &) {
    long long refused = 0; std::set<uint64_t> orders; long long ev[6] = {0, 0, 0, 0, 0, 0};
    for (int idx = cx.start; idx < cx.start + cx.count; idx++) {
        GenOpt go; go.maxn = 6000; go.p_large = 0.06; go.p_long = 0.06; go.long_max = 70000; go.max_batch = 4; go.variants = {1, 2, 2}; go.p_empty = 0.25; go.backends = {B_STOCK}; go.kinds = {C2C};
        RCase r; r.c = gen_case(cx.seed ^ 0x5ea9e, idx, cx.wsize, go); Case &c = r.c;
        Rng gs(mix(cx.seed + 61, idx)); Rng g(mix(cx.seed + 62, (uint64_t)idx * 32 + cx.wrank));
        r.scalar = gs.below(4); r.alg = gs.below(4); r.through_factory = gs.chance(0.5); r.unaware = gs.chance(0.3);
        if (gs.chance(0.1)) { // everything to or from one rank
            auto &v = gs.chance(0.5) ? c.out : c.in; auto o = v[0].ord; for (auto &b : v) { b = Box(); b.ord = o; } Box w; for (int d = 0; d < 3; d++) { w.lo[d] = 0; w.hi[d] = c.n[d] - 1; } w.ord = o; v[gs.below(c.nranks)] = w; c.style += " one-owner"; }
        if (str(c.in) == str(c.out)) r.through_factory = true;
        static char const *sn[] = {"float", "double", "complex<float>", "complex<double>"};
        std::ostringstream t; t << sn[r.scalar] << " " << alg_name(r.alg) << (r.through_factory ? " factory " : " direct ") << (c.i64 ? "long long" : "int") << " n=" << c.n[0] << "x" << c.n[1] << "x" << c.n[2] << " batch=" << c.batch << " members="; for (auto m : c.members) t << m << "."; t << " " << c.style << " in=" << str(c.in) << " out=" << str(c.out);
        start_case(idx, t.str());
        MPI_Comm comm = make_comm(c.members); int me = 0;
        if (comm != MPI_COMM_NULL) {
            PMPI_Comm_rank(comm, &me); mon.reset_counts(); mon.enabled = true; mon.check_match = gs.chance(0.5); mon.poison_recv = true; mon.any_order = gs.chance(0.7); mon.sync_send = gs.chance(0.3); mon.delay_pct = gs.chance(0.1) ? 10 : 0; mon.rng = g.next();
            if (c.i64) switch (r.scalar) { case 0: move_case<long long, float>(r, comm, me, g); break; case 1: move_case<long long, double>(r, comm, me, g); break; case 2: move_case<long long, std::complex<float>>(r, comm, me, g); break; default: move_case<long long, std::complex<double>>(r, comm, me, g); }
            else switch (r.scalar) { case 0: move_case<int, float>(r, comm, me, g); break; case 1: move_case<int, double>(r, comm, me, g); break; case 2: move_case<int, std::complex<float>>(r, comm, me, g); break; default: move_case<int, std::complex<double>>(r, comm, me, g); }
            for (auto &e : mon.errors) cx.bad("mpi", e);
            orders.insert(mon.order_sig); ev[0] += mon.ev_a2a; ev[1] += mon.ev_a2av; ev[2] += mon.ev_isend; ev[3] += mon.ev_send; ev[4] += mon.ev_irecv;
            mon.enabled = false; mon.errors.clear(); PMPI_Comm_free(&comm);
        }
        bool m = str(c.in) != str(c.out), tr = c.in[0].ord != c.out[0].ord;
        end_case(idx, t.str(), std::string(m ? "ok " : "identical ") + alg_name(r.alg) + (tr ? " transposed" : " direct"));
    }
    long long v[] = {g_moved, g_bytes, (long long)orders.size(), ev[0], ev[1], ev[2], ev[3], ev[4]}, s[8]; PMPI_Reduce(v, s, 8, MPI_LONG_LONG, MPI_SUM, 0, MPI_COMM_WORLD); (void)refused;
    char const *nm[] = {"entries_checked", "bytes_delivered", "distinct_completion_orders_summed_over_ranks", "mpi_alltoall", "mpi_alltoallv", "mpi_isend", "mpi_send", "mpi_irecv"};
    for (int i = 0; i < 8; i++) cx.stat[nm[i]] = (double)s[i];
}
