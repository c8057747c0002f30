// Complex numbers over validated, rational and real components.
#include "floats.hpp"
#include "mpi.hpp"
#include "numeric/real.hpp"
#include "numeric/complex.hpp"
using namespace fl; using namespace Ariadne; using vf::ok; using vf::cat; using vf::total; using mpi::I;
static Q frac(long a, long b) { Q q{Z(a),Z(b)}; q.canonicalize(); return q; }
static Q rq(vf::Rng& r) { return frac(r.range(-60,60),r.range(1,12)); }
VF_SCENARIO(complexes,3) { Q a=rq(r),b=rq(r),c=rq(r),d=rq(r); std::string in=cat("(",ref::str(a),"+i",ref::str(b),") (",ref::str(c),"+i",ref::str(d),")"); using B=FloatDPBounds; auto mk=[&](Q const& q){ return B(ref::rational(q),dp); }; Complex<B> z(mk(a),mk(b)), w(mk(c),mk(d)); vf::distinct(in);
    auto chk=[&](char const* n, auto const& v, I const& re, I const& im){ if (re.bad||im.bad) return; ok(cat("Complex/",n,"/re"),mpi::holds(lo(v._re),hi(v._re),re),[&]{return cat(in," gave ",v);}); ok(cat("Complex/",n,"/im"),mpi::holds(lo(v._im),hi(v._im),im),[&]{return cat(in," gave ",v);}); };
    I A(a),Bq(b),C(c),D(d); total("Complex",[&]{ chk("add",z+w,A+C,Bq+D); chk("sub",z-w,A-C,Bq-D); chk("mul",z*w,A*C-Bq*D,A*D+Bq*C); chk("neg",-z,-A,-Bq); chk("conj",conj(z),A,-Bq); chk("sqr",sqr(z),A*A-Bq*Bq,I(Q(2))*A*Bq); chk("hlf",hlf(z),mpi::hlf(A),mpi::hlf(Bq));
        Q n=c*c+d*d; if (n!=0) { I N(n); chk("div",z/w,(A*C+Bq*D)/N,(Bq*C-A*D)/N); chk("rec",rec(w),C/N,-D/N); I m=mpi::sqrt(N); auto mo=w.modulus(); ok("Complex/modulus",mpi::holds(lo(mo),hi(mo),m),[&]{return in;}); auto ab=abs(w); ok("Complex/abs",mpi::holds(lo(ab),hi(ab),m),[&]{return in;}); }
        B x=mk(c); chk("add-real",z+x,A+C,Bq); chk("real-add",x+z,A+C,Bq); chk("sub-real",z-x,A-C,Bq); chk("real-sub",x-z,C-A,-Bq); chk("mul-real",z*x,A*C,Bq*C); chk("real-mul",x*z,A*C,Bq*C); if (c!=0) chk("div-real",z/x,A/C,Bq/C); Q nz=a*a+b*b; if (nz!=0) chk("real-div",x/z,C*A/I(nz),-C*Bq/I(nz));
        if (ref::abs(a)<Q(5)) chk("exp",exp(z),mpi::exp(A)*mpi::cos(Bq),mpi::exp(A)*mpi::sin(Bq));
        if (c>0||d!=0) { auto arg=w.argument(); mpfr_t t; mpfr_init2(t,200); mpfr_t y,x2; mpfr_inits2(400,y,x2,nullptr); mpfr_set_q(y,d.get_mpq_t(),MPFR_RNDN); mpfr_set_q(x2,c.get_mpq_t(),MPFR_RNDN); mpfr_atan2(t,y,x2,MPFR_RNDN); Q tv=ref::q((mpfr_srcptr)t), e=ref::pow(Q(2),-150); ok("Complex/argument",mpi::holds(lo(arg),hi(arg),I(Q(tv-e),Q(tv+e))),[&]{return in;});
          if (n!=0) { auto lg=log(w); chk("log",lg,mpi::hlf(mpi::log(I(n))),I(Q(tv-e),Q(tv+e))); } mpfr_clears(t,y,x2,nullptr); }
        },[&]{return in;});
    total("ComplexQ",[&]{ Complex<Rational> u(ref::rational(a),ref::rational(b)), v(ref::rational(c),ref::rational(d)); auto eq=[&](char const* n, auto const& s, Q const& re, Q const& im){ ok(cat("ComplexQ/",n),ref::q(Rational(s._re))==re&&ref::q(Rational(s._im))==im,[&]{return in;}); }; eq("mul",u*v,a*c-b*d,a*d+b*c); eq("add",u+v,a+c,b+d); eq("sub",u-v,a-c,b-d); if (c*c+d*d!=0) eq("div",u/v,(a*c+b*d)/(c*c+d*d),(b*c-a*d)/(c*c+d*d)); ok("ComplexQ/eq",bool(u==v)==(a==c&&b==d)&&bool(u!=v)==!(a==c&&b==d),[&]{return in;}); },[&]{return in;}); }
