// Traits and generators for the floating-point types, shared by the harnesses that use them.
#ifndef VERIF_FLOATS_HPP
#define VERIF_FLOATS_HPP
#include "ref.hpp"
namespace fl {
using namespace Ariadne;
using ref::Q; using ref::Z; using ref::X;
struct TDP { using F=FloatDP; using PR=DoublePrecision; static constexpr bool isdp=true; static const char* name() { return "DP"; }
    static PR pr(vf::Rng&) { return dp; } static long bits(PR) { return 53; }
    static F make(double d, PR) { return F(ExactDouble(d),dp); }
    static F of(Q const& v, PR) { return make(mpq_get_d(v.get_mpq_t()),dp); }
    static F mod(vf::Rng& r, PR, int e) { return make(ref::rmod(r,e),dp); }
    static F wild(vf::Rng& r, PR) { return make(ref::rdouble(r),dp); } };
struct TMP { using F=FloatMP; using PR=MultiplePrecision; static constexpr bool isdp=false; static const char* name() { return "MP"; }
    static PR pr(vf::Rng& r) { return PR(mpfr_prec_t(r.pick({11l,24l,53l,53l,64l,65l,113l,128l,128l,192l,300l}))); } static long bits(PR p) { return long(p.bits()); }
    static F of(Q const& q, PR p) { F x(p); mpfr_set_q(x.get_mpfr(),q.get_mpq_t(),MPFR_RNDN); return x; }
    static F wild(vf::Rng& r, PR p) { if (r.coin(1,4)) return of(ref::q(ref::rdouble(r)),p); return mod(r,p,r.coin(1,5)?600:60); }
    static F mod(vf::Rng& r, PR p, int e) { if (r.coin(1,3)) return of(ref::q(ref::rmod(r,std::min(e,20))),p);
        Z z=ref::rbig(r,int(bits(p))); Q q(z); long sh=r.range(-e,e-1)-long(mpz_sizeinbase(z.get_mpz_t(),2)); Q t=ref::pow(Q(2),sh); return of(q*t,p); } };

// what a validated number says: its lower and upper end, exactly
template<class F> X lo(F const& a) requires ARawFloat<F> { return ref::x(a); }
template<class F> X hi(F const& a) requires ARawFloat<F> { return ref::x(a); }
template<class F> X lo(Bounds<F> const& a) { return ref::x(a._l); }
template<class F> X hi(Bounds<F> const& a) { return ref::x(a._u); }
inline X xadd(X const& v, X const& e, int s) { if (v.isnan()||e.isnan()||v.kind) return X::nan(); if (e.kind==1) return X::inf(s); if (e.kind==-1) return X::nan(); return X(s>0?Q(v.v+e.v):Q(v.v-e.v)); }
template<class F, class E> X lo(Ball<F,E> const& a) { return xadd(ref::x(a._v),ref::x(a._e),-1); }
template<class F, class E> X hi(Ball<F,E> const& a) { return xadd(ref::x(a._v),ref::x(a._e),+1); }
template<class F> X lo(UpperBound<F> const&) { return X::inf(-1); }
template<class F> X hi(UpperBound<F> const& a) { return ref::x(a._u); }
template<class F> X lo(LowerBound<F> const& a) { return ref::x(a._l); }
template<class F> X hi(LowerBound<F> const&) { return X::inf(+1); }
template<class F> X lo(Error<F> const&) { return X::inf(-1); }
template<class F> X hi(Error<F> const& a) { return ref::x(a._e); }
template<class T> std::string str(T const& a) { return "["+ref::str(lo(a))+","+ref::str(hi(a))+"]"; }

// the enclosure must contain the exact value
template<class T> bool encloses(std::string const& key, T const& res, Q const& v, std::string const& in) {
    X l=lo(res), u=hi(res); bool g=!l.isnan()&&!u.isnan()&&ref::le(l,v)&&ref::ge(u,v);
    return vf::ok(key,g,[&]{ return vf::cat(in," gave [",ref::str(l),",",ref::str(u),"] which misses ",ref::str(v)); }); }
template<class T> bool encloses(std::string const& key, T const& res, ref::Enc const& v, std::string const& in) {
    X l=lo(res), u=hi(res); return vf::ok(key,ref::contains(l,u,v),[&]{ return vf::cat(in," gave [",ref::str(l),",",ref::str(u),"] which misses ",ref::str(v.lo)); }); }
// points of the set a two-sided number stands for
template<class T> std::vector<Q> points(vf::Rng& r, T const& a, int n=2) {
    X l=lo(a), u=hi(a); std::vector<Q> p; if (l.kind||u.kind) return p; p.push_back(l.v); if (l.v==u.v) return p; p.push_back(u.v);
    if (l.v<0&&u.v>0) p.push_back(Q(0));
    for (int i=0;i<n;++i) { Q t(Z(r.range(0,1024)),1024); t.canonicalize(); p.push_back(Q(l.v+(u.v-l.v)*t)); } return p; }
template<class T> Bounds<typename T::F> bounds(vf::Rng& r, typename T::PR pr, int e) {
    using F=typename T::F; F a=T::mod(r,pr,e);
    switch (r.below(5)) { case 0: return Bounds<F>(a,a);
        case 1: { F b=T::mod(r,pr,e); return ref::q(a)<=ref::q(b) ? Bounds<F>(a,b) : Bounds<F>(b,a); }
        default: { Q w=ref::abs(ref::q(T::mod(r,pr,e)))*ref::pow(Q(2),-long(r.below(r.coin()?12:60))); F b=T::of(Q(ref::q(a)+w),pr); return ref::q(a)<=ref::q(b) ? Bounds<F>(a,b) : Bounds<F>(b,a); } } }
template<class T> Ball<typename T::F> ball(vf::Rng& r, typename T::PR pr, int e) {
    using F=typename T::F; F a=T::mod(r,pr,e); F z=r.coin(1,4)?T::of(Q(0),pr):T::of(Q(ref::abs(ref::q(T::mod(r,pr,e)))*ref::pow(Q(2),-long(r.below(r.coin()?8:60)))),pr); return Ball<F>(a,z); }
#define MPFUN(name) ([](mpfr_ptr r_, mpfr_srcptr x_, mpfr_rnd_t d_){ return mpfr_##name(r_,x_,d_); })
// the true value of a function at a rational that need not be an MPFR number
template<class G> ref::Enc fenc(G const& g, Q const& a, long prec=600) {
    ref::M xa(prec), r1(prec), r2(prec); int t=mpfr_set_q(xa,a.get_mpq_t(),MPFR_RNDD); ref::Enc e=[&]{ ref::Enc e_; g(r1.m,xa.m,MPFR_RNDD); g(r2.m,xa.m,MPFR_RNDU); e_.lo=ref::x((mpfr_srcptr)r1.m); e_.hi=ref::x((mpfr_srcptr)r2.m); return e_; }();
    if (t!=0) { mpfr_set_q(xa,a.get_mpq_t(),MPFR_RNDU); ref::Enc f; g(r1.m,xa.m,MPFR_RNDD); g(r2.m,xa.m,MPFR_RNDU); f.lo=ref::x((mpfr_srcptr)r1.m); f.hi=ref::x((mpfr_srcptr)r2.m);
        // neighbouring arguments: the function is monotone between them but for an extremum, which moves it by less than one part in 2^prec
        if (e.lo.kind==0&&f.lo.kind==0&&e.hi.kind==0&&f.hi.kind==0) { Q l=ref::qmin(e.lo.v,f.lo.v), u=ref::qmax(e.hi.v,f.hi.v); Q s=(ref::qmax(ref::abs(l),ref::abs(u))+1)*ref::pow(Q(2),-(prec-4)); e.lo=X(Q(l-s)); e.hi=X(Q(u+s)); } }
    return e; }
}
#endif
