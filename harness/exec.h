// The executors of one backend behind one interface.
#pragma once
#include "engine.h"
enum ExType { X_1D, X_2D, X_3D, X_R2C, X_R2R };
struct ExSpec { int backend = B_STOCK, i64 = 0, type = X_1D, d1 = 0, d2 = 1; Box box; };
struct IExec {
    virtual ~IExec() = default;
    virtual bool null() const = 0;       // the factory returned nothing (empty box)
    virtual long long box_size() const = 0;
    virtual long long complex_size() const = 0;
    virtual size_t workspace_size() const = 0;
    // op: 0/1 complex forward/backward in place on a; 2 real a -> complex b; 3 complex a -> real b; 4/5 real forward/backward in place on a
    virtual void run(int op, int prec, void *a, void *b, void *ws) = 0;
};
std::unique_ptr<IExec> make_exec_stock(ExSpec const &);
std::unique_ptr<IExec> make_exec_fftw(ExSpec const &);
std::unique_ptr<IExec> make_exec_mkl(ExSpec const &);
#ifdef EXEC_IMPL
#include "heffte.h"
#pragma GCC visibility push(hidden)
template<class E> struct ExecT : IExec {
    std::unique_ptr<E> e;
    explicit ExecT(std::unique_ptr<E> x) : e(std::move(x)) {}
    bool null() const override { return !e; }
    long long box_size() const override { return e->box_size(); }
    long long complex_size() const override { return e->complex_size(); }
    size_t workspace_size() const override { return e->workspace_size(); }
    template<class T> void go(int op, void *a, void *b, void *w) {
        typedef std::complex<T> C; heffte::executor_base const *x = e.get();
        switch (op) {
        case 0: x->forward((C *)a, (C *)w); break;
        case 1: x->backward((C *)a, (C *)w); break;
        case 2: x->forward((T const *)a, (C *)b, (C *)w); break;
        case 3: x->backward((C *)a, (T *)b, (C *)w); break;
        case 4: x->forward((T *)a, (T *)w); break;
        case 5: x->backward((T *)a, (T *)w); break;
        }
    }
    void run(int op, int prec, void *a, void *b, void *w) override { if (prec) go<double>(op, a, b, w); else go<float>(op, a, b, w); }
};
template<class E> static std::unique_ptr<IExec> wrap(std::unique_ptr<E> e) { return std::unique_ptr<IExec>(new ExecT<E>(std::move(e))); }
template<class B, class I, bool FT> struct MakeEx { static std::unique_ptr<IExec> go(ExSpec const &s, heffte::box3d<I> const &b) {
    switch (s.type) {
    case X_2D: return wrap(heffte::make_executor<B>(nullptr, b, s.d1, s.d2));
    case X_3D: return wrap(heffte::make_executor<B>(nullptr, b));
    case X_R2C: return wrap(heffte::make_executor_r2c<B>(nullptr, b, s.d1));
    default: return wrap(heffte::make_executor<B>(nullptr, b, s.d1));
    } } };
template<class B, class I> struct MakeEx<B, I, false> { static std::unique_ptr<IExec> go(ExSpec const &s, heffte::box3d<I> const &b) {
    switch (s.type) {
    case X_2D: return wrap(heffte::make_executor<B>(nullptr, b, s.d1, s.d2));
    case X_3D: return wrap(heffte::make_executor<B>(nullptr, b));
    default: return wrap(heffte::make_executor<B>(nullptr, b, s.d1));
    } } };
template<class B, bool FT> static std::unique_ptr<IExec> mk(ExSpec const &s) {
    Box const &b = s.box;
    if (s.i64) { typedef long long I; return MakeEx<B, I, FT>::go(s, heffte::box3d<I>(std::array<I, 3>{b.lo[0], b.lo[1], b.lo[2]}, std::array<I, 3>{b.hi[0], b.hi[1], b.hi[2]}, b.ord)); }
    typedef int I; return MakeEx<B, I, FT>::go(s, heffte::box3d<I>(std::array<I, 3>{(I)b.lo[0], (I)b.lo[1], (I)b.lo[2]}, std::array<I, 3>{(I)b.hi[0], (I)b.hi[1], (I)b.hi[2]}, b.ord));
}
#pragma GCC visibility pop
#endif
