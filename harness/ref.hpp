// Independent reference values: exact rationals (GMP) and correctly rounded
// enclosures (MPFR). Nothing in this file calls the library's arithmetic; it
// only reads the representation of library numbers.
#ifndef VERIF_REF_HPP
#define VERIF_REF_HPP
#include <gmpxx.h>
#include <mpfr.h>
#include <cmath>
#include <string>
#include "vf.hpp"
#include "config.hpp"
#include "numeric/numeric.hpp"

namespace ref {
using Q = mpq_class;
using Z = mpz_class;

inline Z z(Ariadne::Integer const& n) { return Z(n.get_mpz()); }
inline Q q(Ariadne::Integer const& n) { return Q(Z(n.get_mpz())); }
inline Q q(Ariadne::Dyadic const& w) { Q r; mpq_set_f(r.get_mpq_t(), w.get_mpf()); return r; }
inline Q q(Ariadne::Rational const& x) { Q r; mpq_set(r.get_mpq_t(), x.get_mpq()); r.canonicalize(); return r; }
inline Q q(Ariadne::Decimal const& d) { Z t; mpz_ui_pow_ui(t.get_mpz_t(), 10, d._q); Q r(Z(d._p.get_mpz()), t); r.canonicalize(); return r; }
inline Q q(double d) { Q r; mpq_set_d(r.get_mpq_t(), d); return r; }
inline Q q(mpfr_srcptr x) { Q r; mpfr_get_q(r.get_mpq_t(), x); return r; }
inline Q q(Ariadne::FloatDP const& x) { return q(x.get_d()); }
inline Q q(Ariadne::FloatMP const& x) { return q(static_cast<mpfr_srcptr>(x.get_mpfr())); }

// Extended value: a rational, an infinity, or not a number.
struct X { int kind = 0; Q v; // 0 finite, +1/-1 infinite, 2 nan
    X() { } X(Q const& q_) : v(q_) { } static X inf(int s) { X x; x.kind=s; return x; } static X nan() { X x; x.kind=2; return x; }
    bool finite() const { return kind==0; } bool isnan() const { return kind==2; } };
inline X x(double d) { return std::isnan(d) ? X::nan() : std::isinf(d) ? X::inf(d>0?1:-1) : X(q(d)); }
inline X x(mpfr_srcptr m) { return mpfr_nan_p(m) ? X::nan() : mpfr_inf_p(m) ? X::inf(mpfr_sgn(m)>0?1:-1) : X(q(m)); }
inline X x(Ariadne::FloatDP const& a) { return x(a.get_d()); }
inline X x(Ariadne::FloatMP const& a) { return x(static_cast<mpfr_srcptr>(a.get_mpfr())); }
inline X x(Ariadne::Rational const& a) {
    mpz_srcptr n=mpq_numref(a.get_mpq()), d=mpq_denref(a.get_mpq());
    if (mpz_sgn(d)==0) return mpz_sgn(n)==0 ? X::nan() : X::inf(mpz_sgn(n));
    return X(q(a)); }
inline X x(Ariadne::Dyadic const& a) { // representation of the special values
    auto const& m=a.get_mpf()[0];
    if (m._mp_size==0 && m._mp_exp!=0) return m._mp_exp==1 ? X::inf(1) : m._mp_exp==-1 ? X::inf(-1) : X::nan();
    return X(q(a)); }
inline X x(Q const& v) { return X(v); }
// lo <= v, v <= hi with extended end points; a nan end point bounds nothing and is reported by the caller
inline bool le(X const& a, Q const& v) { return a.kind==-1 || (a.kind==0 && a.v<=v); }
inline bool ge(X const& a, Q const& v) { return a.kind==1 || (a.kind==0 && a.v>=v); }
inline bool same(X const& a, X const& b) { return a.kind==b.kind && (a.kind!=0 || a.v==b.v); }
inline std::string str(X const& a) { if (a.kind==2) return "nan"; if (a.kind) return a.kind>0?"+inf":"-inf";
    if (mpz_sizeinbase(a.v.get_num_mpz_t(),2)+mpz_sizeinbase(a.v.get_den_mpz_t(),2) < 160) return a.v.get_str();
    // long: show the value to 40 digits, which is enough to see where it lies
    mpfr_t m; mpfr_init2(m,200); mpfr_set_q(m,a.v.get_mpq_t(),MPFR_RNDN); char b[128]; mpfr_snprintf(b,128,"~%.40Rg",m); mpfr_clear(m); return b; }
inline std::string str(Q const& v) { return str(X(v)); }

inline Q pow(Q const& a, long n) { Q r(1), b = n<0 ? Q(1)/a : a; unsigned long m = static_cast<unsigned long>(n<0?-n:n); while (m) { if (m&1) r*=b; b*=b; m>>=1; } return r; }
inline Z floor(Q const& a) { Z r; mpz_fdiv_q(r.get_mpz_t(), a.get_num_mpz_t(), a.get_den_mpz_t()); return r; }
inline Z ceil(Q const& a) { Z r; mpz_cdiv_q(r.get_mpz_t(), a.get_num_mpz_t(), a.get_den_mpz_t()); return r; }
inline Q abs(Q const& a) { return a<0 ? Q(-a) : a; }
inline Q qmin(Q const& a, Q const& b) { return a<b?a:b; }
inline Q qmax(Q const& a, Q const& b) { return a>b?a:b; }
inline bool is_dyadic(Q const& a) { return mpz_popcount(a.get_den_mpz_t())==1; }

// Hostile integers, rationals, doubles
inline Z rbig(vf::Rng& r, int maxbits=400) {
    int bits = static_cast<int>(r.range(1, r.coin(1,3)?maxbits:64)); Z v=0;
    for (int i=0;i<bits;i+=64) { Z t; mpz_set_ui(t.get_mpz_t(), r.u64()); v=(v<<64)+t; }
    mpz_fdiv_r_2exp(v.get_mpz_t(), v.get_mpz_t(), static_cast<mp_bitcnt_t>(bits));
    return r.coin()?v:Z(-v); }
inline Z rint(vf::Rng& r, int maxbits=400) {
    switch (r.below(6)) {
        case 0: return Z(r.range(-3,3));
        case 1: return Z(r.range(-1000,1000));
        case 2: { Z v=1; v <<= static_cast<mp_bitcnt_t>(r.pick({31,32,33,52,53,54,62,63,64,65,127,128,200})); v += r.range(-2,2); return r.coin()?v:Z(-v); }
        case 3: { Z v; mpz_ui_pow_ui(v.get_mpz_t(),10,r.below(40)); return r.coin()?v:Z(-v); }
        default: return rbig(r,maxbits); } }
inline Q rrat(vf::Rng& r, int maxbits=200) { Z d=abs(rint(r,maxbits)); if (d==0) d=1; Q v(rint(r,maxbits),d); v.canonicalize(); return v; }
inline Q rdyad(vf::Rng& r, int maxbits=200, int maxexp=300) { Z d=1; d <<= static_cast<mp_bitcnt_t>(r.below(static_cast<uint64_t>(r.coin(1,4)?maxexp:70))); Q v(rint(r,maxbits),d); v.canonicalize(); return v; }
inline double rdouble(vf::Rng& r) { // finite
    for (;;) { double d;
        switch (r.below(12)) {
            case 0: d=double(r.range(-4,4)); break;
            case 1: d=double(r.range(-1000,1000))/double(1<<r.below(12)); break;
            case 2: d=std::ldexp(1.0,int(r.range(-60,60))); if (r.coin()) d=std::nextafter(d,r.coin()?0.0:1e308); if (r.coin()) d=-d; break;
            case 3: { uint64_t b=r.u64(); memcpy(&d,&b,8); break; }               // any bit pattern
            case 4: d=r.pick({0.0,-0.0,1.0,-1.0,5e-324,-5e-324,2.2250738585072014e-308,1.7976931348623157e308,-1.7976931348623157e308,0.1,-0.3}); break;
            case 5: d=std::ldexp(double(r.u64()>>11),int(r.range(-1120,-1060))); if (r.coin()) d=-d; break;  // subnormal neighbourhood
            case 6: d=std::ldexp(double(r.u64()>>11),int(r.range(950,971))); if (r.coin()) d=-d; break;
            default: d=std::ldexp(double(r.u64()>>11)-4503599627370496.0,int(r.range(-62,-42))); break; }
        if (std::isfinite(d)) return d; } }
// moderate size: magnitude between 2^-emax and 2^emax, or zero
inline double rmod(vf::Rng& r, int emax=20) {
    switch (r.below(6)) {
        case 0: return double(r.range(-8,8));
        case 1: return double(r.range(-64,64))/double(1<<r.below(7));
        case 2: { double d=std::ldexp(1.0,int(r.range(-emax,emax-1))); if (r.coin(1,3)) d=std::nextafter(d,r.coin()?0.0:1e300); return r.coin()?d:-d; }
        default: { double d=std::ldexp(1.0+std::ldexp(double(r.u64()>>12),-52),int(r.range(-emax,emax-1))); return r.coin()?d:-d; } } }

inline Ariadne::Integer integer(Z const& v) { return Ariadne::Integer(v.get_mpz_t()); }
inline Ariadne::Rational rational(Q const& v) { return Ariadne::Rational(v.get_mpq_t()); }
inline Ariadne::Dyadic dyadic(Q const& v) { Ariadne::Dyadic w; mpf_set_q(w._mpf, v.get_mpq_t()); return w; } // exact: 65535 bits

// An MPFR number with correctly rounded enclosures of functions.
struct M { mpfr_t m; explicit M(long p=300) { mpfr_init2(m,p); mpfr_set_zero(m,1); } M(M const& o) { mpfr_init2(m,mpfr_get_prec(o.m)); mpfr_set(m,o.m,MPFR_RNDN); }
    M& operator=(M const& o) { if (this!=&o) { mpfr_set_prec(m,mpfr_get_prec(o.m)); mpfr_set(m,o.m,MPFR_RNDN); } return *this; } ~M() { mpfr_clear(m); }
    operator mpfr_ptr() { return m; } operator mpfr_srcptr() const { return m; } };
struct Enc { X lo, hi; };   // the true value lies in [lo,hi]
template<class F> Enc enc(F const& f, Q const& a, long prec=400) { // f(mpfr_ptr r, mpfr_srcptr x, mpfr_rnd_t); a must be exact at prec for a point enclosure; monotonicity is not assumed
    M xa(prec+2000), r(prec); int t=mpfr_set_q(xa,a.get_mpq_t(),MPFR_RNDN); (void)t;
    Enc e; f(r.m,xa.m,MPFR_RNDD); e.lo=x(static_cast<mpfr_srcptr>(r.m)); f(r.m,xa.m,MPFR_RNDU); e.hi=x(static_cast<mpfr_srcptr>(r.m)); return e; }
// [l,u] must contain the true value, which lies in e
inline bool contains(X const& l, X const& u, Enc const& e) {
    if (l.isnan()||u.isnan()) return false;
    bool lo_ok = l.kind==-1 || (l.kind==0 && (e.hi.kind==1 || (e.hi.kind==0 && l.v<=e.hi.v)));
    bool hi_ok = u.kind==1 || (u.kind==0 && (e.lo.kind==-1 || (e.lo.kind==0 && u.v>=e.lo.v)));
    return lo_ok && hi_ok; }

} // namespace ref
#endif
