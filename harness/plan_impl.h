// Adapter from IPlan to heffte::fft3d / heffte::fft3d_r2c, instantiated per backend in its own translation unit.
#pragma once
#include "vh.h"
#include "heffte.h"
#pragma GCC visibility push(hidden)
template<class I> heffte::box3d<I> to_h(Box const &b) {
    return heffte::box3d<I>(std::array<I, 3>{(I)b.lo[0], (I)b.lo[1], (I)b.lo[2]}, std::array<I, 3>{(I)b.hi[0], (I)b.hi[1], (I)b.hi[2]}, b.ord);
}
template<class I> Box from_h(heffte::box3d<I> const &b) {
    Box r; for (int i = 0; i < 3; i++) { r.lo[i] = b.low[i]; r.hi[i] = b.high[i]; r.ord[i] = b.order[i]; } return r;
}
inline heffte::reshape_algorithm to_alg(int a) {
    switch (a) { case A_A2A: return heffte::reshape_algorithm::alltoall; case A_P2PP: return heffte::reshape_algorithm::p2p_plined;
                 case A_P2P: return heffte::reshape_algorithm::p2p; default: return heffte::reshape_algorithm::alltoallv; }
}
template<class B> heffte::plan_options to_opts(Opts const &o, MPI_Comm sub = MPI_COMM_NULL) {
    heffte::plan_options r = heffte::default_options<B>();
    if (o.explicit_opts) {
        r.use_reorder = o.reorder; r.algorithm = to_alg(o.alg); r.use_pencils = o.pencils;
        if (o.subranks >= 0) r.use_num_subranks(o.subranks);
        if (o.subcomm) r.use_subcomm(sub);
    }
    return r;
}
inline heffte::scale to_scale(int s) { return s == 0 ? heffte::scale::none : s == 1 ? heffte::scale::full : heffte::scale::symmetric; }

template<class P> struct PlanBase : IPlan {
    std::unique_ptr<P> p;
    long long size_inbox() const override { return p->size_inbox(); }
    long long size_outbox() const override { return p->size_outbox(); }
    size_t size_workspace() const override { return p->size_workspace(); }
    size_t size_comm() const override { return p->size_comm_buffers(); }
    double factor(int s) const override { return s == 0 ? 1.0 : p->get_scale_factor(to_scale(s)); }
    void relocate() override { std::unique_ptr<P> q(new P(std::move(*p))); p = std::move(q); }
    Box inbox() const override { return from_h(p->inbox()); }
    Box outbox() const override { return from_h(p->outbox()); }
    template<class Ti, class To, class Tw> void run(int dir, int variant, int batch, void const *in, void *out, void *ws, int sc) {
        Ti const *i = reinterpret_cast<Ti const *>(in); To *o = reinterpret_cast<To *>(out); Tw *w = reinterpret_cast<Tw *>(ws);
        heffte::scale s = to_scale(sc);
        if constexpr (std::is_same<Tw, To>::value) {
            if (dir == 0) {
                if (sc == 0 && batch % 2 == 0) {   // the default scaling argument
                    switch (variant) { case 0: p->forward(i, o); break; case 1: p->forward(i, o, w); break; case 2: p->forward(batch, i, o, w); break; default: p->forward(batch, i, o); }
                } else
                switch (variant) { case 0: p->forward(i, o, s); break; case 1: p->forward(i, o, w, s); break; case 2: p->forward(batch, i, o, w, s); break; default: p->forward(batch, i, o, s); }
                return;
            }
        }
        if constexpr (std::is_same<Tw, Ti>::value) {
            if (dir == 1) {
                if (sc == 0 && batch % 2 == 0) {
                    switch (variant) { case 0: p->backward(i, o); break; case 1: p->backward(i, o, w); break; case 2: p->backward(batch, i, o, w); break; default: p->backward(batch, i, o); }
                } else
                switch (variant) { case 0: p->backward(i, o, s); break; case 1: p->backward(i, o, w, s); break; case 2: p->backward(batch, i, o, w, s); break; default: p->backward(batch, i, o, s); }
                return;
            }
        }
        throw std::logic_error("harness: bad type combination");
    }
    template<class V> static size_t give(V const &v, void *out, size_t max_out) {
        size_t c = std::min(v.size(), max_out);
        if (c) memcpy(out, (void const *)v.data(), c * sizeof(typename V::value_type));
        return v.size();
    }
};
template<class B, class I> struct PlanFull : PlanBase<heffte::fft3d<B, I>> {   // complex and real-to-full-complex
    bool realin;
    using PB = PlanBase<heffte::fft3d<B, I>>;
    PlanFull(bool r, Box in, Box out, MPI_Comm comm, Opts const &o, int ctor) : realin(r) {
        MPI_Comm sub = MPI_COMM_NULL;
        if (o.explicit_opts && o.subcomm) { int r0; PMPI_Comm_rank(comm, &r0); PMPI_Comm_split(comm, (o.subcomm >> r0) & 1 ? 0 : MPI_UNDEFINED, o.subcomm >> 24 ? -r0 : r0, &sub); }
        if (!o.explicit_opts && ctor == 1) this->p.reset(new heffte::fft3d<B, I>(to_h<I>(in), to_h<I>(out), comm));
        else if (ctor == 2) this->p.reset(new heffte::fft3d<B, I>(heffte::make_fft3d<B, I>(to_h<I>(in), to_h<I>(out), comm, to_opts<B>(o, sub))));
        else if (!o.explicit_opts && ctor == 3) this->p.reset(new heffte::fft3d<B, I>((int)in.lo[0], (int)in.lo[1], (int)in.lo[2], (int)in.hi[0], (int)in.hi[1], (int)in.hi[2], in.ord[0], in.ord[1], in.ord[2],
                        (int)out.lo[0], (int)out.lo[1], (int)out.lo[2], (int)out.hi[0], (int)out.hi[1], (int)out.hi[2], out.ord[0], out.ord[1], out.ord[2], comm));
        else this->p.reset(new heffte::fft3d<B, I>(to_h<I>(in), to_h<I>(out), comm, to_opts<B>(o, sub)));
        if (sub != MPI_COMM_NULL) PMPI_Comm_free(&sub);   // documented: only used in the constructor
    }
    void exec(int dir, int prec, int variant, int batch, void const *in, void *out, void *ws, int sc) override {
        using cf = std::complex<float>; using cz = std::complex<double>;
        if (!realin) { if (prec) this->template run<cz, cz, cz>(dir, variant, batch, in, out, ws, sc); else this->template run<cf, cf, cf>(dir, variant, batch, in, out, ws, sc); }
        else if (dir == 0) { if (prec) this->template run<double, cz, cz>(dir, variant, batch, in, out, ws, sc); else this->template run<float, cf, cf>(dir, variant, batch, in, out, ws, sc); }
        else { if (prec) this->template run<cz, double, cz>(dir, variant, batch, in, out, ws, sc); else this->template run<cf, float, cf>(dir, variant, batch, in, out, ws, sc); }
    }
    template<class Tr> size_t vec(int dir, void const *in, size_t n, void *out, size_t mo, heffte::scale s) {
        using C = std::complex<Tr>;
        if (dir == 0 && realin) { std::vector<Tr> v((Tr const *)in, (Tr const *)in + n); return PB::give(this->p->forward(v, s), out, mo); }
        std::vector<C> v((C const *)in, (C const *)in + n);
        if (dir == 0) return PB::give(this->p->forward(v, s), out, mo);
        if (realin) return PB::give(this->p->backward_real(v, s), out, mo);
        return PB::give(this->p->backward(v, s), out, mo);
    }
    size_t exec_vector(int dir, int prec, void const *in, size_t n, void *out, size_t mo, int sc) override {
        return prec ? vec<double>(dir, in, n, out, mo, to_scale(sc)) : vec<float>(dir, in, n, out, mo, to_scale(sc)); }
};
template<class B, class I> struct PlanR2C : PlanBase<heffte::fft3d_r2c<B, I>> {
    using PB = PlanBase<heffte::fft3d_r2c<B, I>>;
    PlanR2C(int dir, Box in, Box out, MPI_Comm comm, Opts const &o, int ctor) {
        MPI_Comm sub = MPI_COMM_NULL;
        if (o.explicit_opts && o.subcomm) { int r0; PMPI_Comm_rank(comm, &r0); PMPI_Comm_split(comm, (o.subcomm >> r0) & 1 ? 0 : MPI_UNDEFINED, o.subcomm >> 24 ? -r0 : r0, &sub); }
        if (!o.explicit_opts && ctor == 1) this->p.reset(new heffte::fft3d_r2c<B, I>(to_h<I>(in), to_h<I>(out), dir, comm));
        else if (ctor == 2) this->p.reset(new heffte::fft3d_r2c<B, I>(heffte::make_fft3d_r2c<B, I>(to_h<I>(in), to_h<I>(out), dir, comm, to_opts<B>(o, sub))));
        else if (!o.explicit_opts && ctor == 3) this->p.reset(new heffte::fft3d_r2c<B, I>((int)in.lo[0], (int)in.lo[1], (int)in.lo[2], (int)in.hi[0], (int)in.hi[1], (int)in.hi[2], in.ord[0], in.ord[1], in.ord[2],
                        (int)out.lo[0], (int)out.lo[1], (int)out.lo[2], (int)out.hi[0], (int)out.hi[1], (int)out.hi[2], out.ord[0], out.ord[1], out.ord[2], dir, comm));
        else this->p.reset(new heffte::fft3d_r2c<B, I>(to_h<I>(in), to_h<I>(out), dir, comm, to_opts<B>(o, sub)));
        if (sub != MPI_COMM_NULL) PMPI_Comm_free(&sub);
    }
    void exec(int dir, int prec, int variant, int batch, void const *in, void *out, void *ws, int sc) override {
        using cf = std::complex<float>; using cz = std::complex<double>;
        if (dir == 0) { if (prec) this->template run<double, cz, cz>(dir, variant, batch, in, out, ws, sc); else this->template run<float, cf, cf>(dir, variant, batch, in, out, ws, sc); }
        else { if (prec) this->template run<cz, double, cz>(dir, variant, batch, in, out, ws, sc); else this->template run<cf, float, cf>(dir, variant, batch, in, out, ws, sc); }
    }
    template<class Tr> size_t vec(int dir, void const *in, size_t n, void *out, size_t mo, heffte::scale s) {
        using C = std::complex<Tr>;
        if (dir == 0) { std::vector<Tr> v((Tr const *)in, (Tr const *)in + n); return PB::give(this->p->forward(v, s), out, mo); }
        std::vector<C> v((C const *)in, (C const *)in + n);
        return PB::give(this->p->backward(v, s), out, mo);
    }
    size_t exec_vector(int dir, int prec, void const *in, size_t n, void *out, size_t mo, int sc) override {
        return prec ? vec<double>(dir, in, n, out, mo, to_scale(sc)) : vec<float>(dir, in, n, out, mo, to_scale(sc)); }
};
template<class B, class I> struct PlanR2R : PlanBase<heffte::rtransform<B, I>> {
    using PB = PlanBase<heffte::rtransform<B, I>>;
    PlanR2R(Box in, Box out, MPI_Comm comm, Opts const &o, int ctor) {
        MPI_Comm sub = MPI_COMM_NULL;
        if (o.explicit_opts && o.subcomm) { int r0; PMPI_Comm_rank(comm, &r0); PMPI_Comm_split(comm, (o.subcomm >> r0) & 1 ? 0 : MPI_UNDEFINED, o.subcomm >> 24 ? -r0 : r0, &sub); }
        if (!o.explicit_opts && ctor == 1) this->p.reset(new heffte::rtransform<B, I>(to_h<I>(in), to_h<I>(out), comm));
        else this->p.reset(new heffte::rtransform<B, I>(to_h<I>(in), to_h<I>(out), comm, to_opts<B>(o, sub)));
        if (sub != MPI_COMM_NULL) PMPI_Comm_free(&sub);
    }
    void exec(int dir, int prec, int variant, int batch, void const *in, void *out, void *ws, int sc) override {
        if (prec) this->template run<double, double, double>(dir, variant, batch, in, out, ws, sc); else this->template run<float, float, float>(dir, variant, batch, in, out, ws, sc); }
    template<class Tr> size_t vec(int dir, void const *in, size_t n, void *out, size_t mo, heffte::scale s) {
        std::vector<Tr> v((Tr const *)in, (Tr const *)in + n);
        if (dir == 0) return PB::give(this->p->forward(v, s), out, mo);
        return PB::give(this->p->backward(v, s), out, mo);
    }
    size_t exec_vector(int dir, int prec, void const *in, size_t n, void *out, size_t mo, int sc) override {
        return prec ? vec<double>(dir, in, n, out, mo, to_scale(sc)) : vec<float>(dir, in, n, out, mo, to_scale(sc)); }
};
template<class B> std::unique_ptr<IPlan> build_fft(int i64, int kind, int dir, Box in, Box out, MPI_Comm comm, Opts const &o, int ctor) {
    std::unique_ptr<IPlan> r;
    if (kind == R2C) { if (i64) r.reset(new PlanR2C<B, long long>(dir, in, out, comm, o, ctor)); else r.reset(new PlanR2C<B, int>(dir, in, out, comm, o, ctor)); }
    else { if (i64) r.reset(new PlanFull<B, long long>(kind == R2F, in, out, comm, o, ctor)); else r.reset(new PlanFull<B, int>(kind == R2F, in, out, comm, o, ctor)); }
    return r;
}
template<class B> std::unique_ptr<IPlan> build_r2r(int i64, Box in, Box out, MPI_Comm comm, Opts const &o, int ctor) {
    std::unique_ptr<IPlan> r;
    if (i64) r.reset(new PlanR2R<B, long long>(in, out, comm, o, ctor)); else r.reset(new PlanR2R<B, int>(in, out, comm, o, ctor));
    return r;
}
#pragma GCC visibility pop
