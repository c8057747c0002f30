// Computable real numbers: every approximation asked for encloses the number, and meets the accuracy asked for.
#include "floats.hpp"
#include "mpi.hpp"
#include "numeric/real.hpp"
#include "numeric/sequence.hpp"
#include "numeric/accuracy.hpp"
#include "numeric/upper_real.hpp"
#include "numeric/lower_real.hpp"
#include "numeric/validated_real.hpp"
#include "numeric/bits.hpp"
using namespace fl; using namespace Ariadne; using vf::ok; using vf::cat; using vf::total; using mpi::I;
static Bits bits_of(Nat n) { return operator""_bits(static_cast<unsigned long long>(n)); }
static Q frac(long a, long b) { Q q{Z(a),Z(b)}; q.canonicalize(); return q; }
static X dl(DyadicBounds const& b) { return ref::x(b.lower_raw()); } static X du(DyadicBounds const& b) { return ref::x(b.upper_raw()); }
static Real cnst(vf::Rng& r, Q const& q) { if (q.get_den()==1) { long n=q.get_num().get_si(); switch (r.below(4)) { case 0: return Real(Integer(n)); case 1: return Real(int(n)); case 2: return Real(ExactDouble(double(n))); default: return Real(Dyadic(Integer(n))); } }
    if (ref::is_dyadic(q)) { switch (r.below(3)) { case 0: return Real(ExactDouble(q.get_d())); case 1: return Real(ref::dyadic(q)); default: return Real(ref::rational(q)); } }
    if (q.get_den()==5||q.get_den()==10) { Q t=q*10; return Real(Decimal(long(t.get_num().get_si()),1u)); } return Real(ref::rational(q)); }
template<class T> T ap1(mpi::Op o, T const& x) { using namespace mpi; switch (o) { case ASIN: return asin(x); case ACOS: return acos(x); case ABS: return abs(x); default: return apply1(o,x); } }
static std::vector<Real> reals(vf::Rng& r, mpi::Expr const& e) { using namespace mpi; std::vector<Real> w; for (auto const& n : e.v) { auto a=[&]()->Real const&{return w[size_t(n.a)];}; auto b=[&]()->Real const&{return w[size_t(n.b)];}; switch (n.op) { case CNST: w.push_back(cnst(r,n.c)); break; case POW: w.push_back(pow(a(),Int(n.n))); break; case ADD: w.push_back(r.coin()?a()+b():add(a(),b())); break; case SUB: w.push_back(r.coin()?a()-b():sub(a(),b())); break; case MUL: w.push_back(r.coin()?a()*b():mul(a(),b())); break; case DIV: w.push_back(r.coin()?a()/b():div(a(),b())); break; case MAX: w.push_back(max(a(),b())); break; case MIN: w.push_back(min(a(),b())); break; default: w.push_back(ap1<Real>(n.op,a())); } } return w; }
static void watch(vf::Rng& r, std::string const& n, Real const& x, I const& v, std::string const& in, bool tight) {
    auto enc=[&](char const* what, X l, X u, std::string const& at) { ok(n+what,mpi::holds(l,u,v),[&]{return cat(in," ",at," gave [",ref::str(l),",",ref::str(u),"] which misses ",mpi::str(v));}); };
    { auto b=x.get(dp); enc("get-dp",lo(b),hi(b),""); auto c=x.compute_get(Effort(Nat(r.below(200))),dp); enc("compute_get-dp",lo(c),hi(c),""); FloatDPBounds d(x,dp); enc("Bounds(Real,dp)",lo(d),hi(d),""); FloatDPBall bb(x,dp); enc("Ball(Real,dp)",lo(bb),hi(bb),""); FloatDPUpperBound u(x,dp); enc("UpperBound(Real,dp)",lo(u),hi(u),""); FloatDPLowerBound l(x,dp); enc("LowerBound(Real,dp)",lo(l),hi(l),"");
      auto m=mag(x,dp); enc("mag",X(Q(-ref::q(m.raw()))),ref::x(m.raw()),""); double g=x.get_d(); if (tight) ok(n+"get_d",std::fabs(g-v.dl())<=1e-6*(1+std::fabs(g)),[&]{return cat(in," gave ",g);}); }
    { MultiplePrecision pr(mpfr_prec_t(r.pick({24l,53l,64l,113l,200l}))); auto b=x.get(pr); enc("get-mp",lo(b),hi(b),cat(pr)); auto c=x.compute_get(Effort(Nat(r.below(20))),pr); enc("compute_get-mp",lo(c),hi(c),cat(pr)); auto d=x.compute_using(pr); enc("compute_using-mp",lo(d),hi(d),cat(pr)); }
    for (Nat e : {0u,1u,2u,3u,4u,7u,12u}) { auto b=x.compute_get(Effort(e)); enc("compute_get-effort",dl(b),du(b),cat("effort ",e)); auto c=x.compute(Effort(e)).get(); enc("compute-effort",dl(c),du(c),cat("effort ",e)); auto ub=UpperReal(x).compute_get(Effort(e)); auto lb=LowerReal(x).compute_get(Effort(e)); enc("UpperReal",X::inf(-1),ref::x(ub.raw()),""); enc("LowerReal",ref::x(lb.raw()),X::inf(1),""); auto vb=x.compute(Effort(e)).get(dp); enc("compute-effort-dp",lo(vb),hi(vb),"");
      int s=[&]{ auto t=check_sgn(x,Effort(e)); return definitely(t)?1:!possibly(t)?-1:0; }(); int s2=[&]{ auto t=sgn(x).check(Effort(e)); return definitely(t)?1:!possibly(t)?-1:0; }(); bool maypos=mpfr_sgn(v.u.m)>0, mayneg=mpfr_sgn(v.l.m)<0; ok(n+"check_sgn",s==0||(s>0?maypos:mayneg),[&]{return in;}); ok(n+"sgn",s2==0||(s2>0?maypos||v.zero():mayneg||v.zero()),[&]{return in;}); }
    if (tight) { Nat acc=Nat(r.pick({0,1,2,5,10,30,53,64,100,180})); vf::at(cat(n,"accuracy")); auto b=x.compute(Accuracy(bits_of(acc))).get(); enc("accuracy",dl(b),du(b),cat("accuracy ",acc)); ok(n+"accuracy/met",b.upper_raw().get_d()==b.upper_raw().get_d()&&ref::q(b.upper_raw())-ref::q(b.lower_raw())<=ref::pow(Q(2),1-long(acc)),[&]{return cat(in," accuracy ",acc," gave [",ref::str(dl(b)),",",ref::str(du(b)),"]");});
        Integer z=round(x); ok(n+"round",ref::abs(ref::q(z)-v.lo())<=Q(1),[&]{return cat(in," rounds to ",z);});
        auto wide=x.compute_get(Effort(30u)); ok(n+"effort/converges",ref::q(wide.upper_raw())-ref::q(wide.lower_raw())<ref::pow(Q(2),-100),[&]{return in;}); } }

VF_SCENARIO(expressions,6) { auto e=mpi::random(r,{},int(r.range(1,8))); auto vals=mpi::evals(e,{}); std::vector<Real> w; std::string in=e.str(); if (!total("Real/construct",[&]{ w=reals(r,e); },[&]{return in;})) return;
    total("Real/compute",[&]{ watch(r,cat("Real/",mpi::opname(e.v.back().op),"/"),w.back(),vals.back(),in,true); size_t k=r.below(w.size()); watch(r,"Real/part/",w[k],vals[k],e.str(int(k)),true); },[&]{return in;}); vf::distinct(mpi::shape(e)); vf::sample([&]{return in;}); }
VF_SCENARIO(constants,2) { Q q=r.coin()?ref::rrat(r,200):ref::rdyad(r,100,100); total("Real/constant",[&]{ Real x=ref::is_dyadic(q)&&r.coin()?Real(ref::dyadic(q)):Real(ref::rational(q)); watch(r,"Real/constant/",x,I(q),ref::str(q),ref::abs(q)<ref::pow(Q(2),200)); vf::distinct(ref::str(q)); });
    I pv=I(Q(4))*mpi::atan(I(Q(1))); watch(r,"pi/",pi,pv,"pi",true); }
VF_SCENARIO(limits,2) { // a number given by approximations, some of them as bad as allowed
    Q v=r.coin()?ref::rrat(r,60):Q(r.range(-8,8)); if (ref::abs(v)>Q(30)) v=v/(ref::abs(v)+1); uint64_t key=r.u64();
    auto dy=[v,key](Nat n)->Q { vf::Rng s(key^n); Q err=ref::pow(Q(2),-long(n))/2; Q t(Z(s.range(-16,16)),16); t.canonicalize(); if (s.coin(1,3)) t=s.coin()?Q(1):Q(-1); Q w=v+err*t*Q(15,16); Z m=ref::floor(w*ref::pow(Q(2),long(n)+8)); return Q(m)/ref::pow(Q(2),long(n)+8); };   // |w_n - v| <= 2^-n/2
    Real a=limit(FastCauchySequence<Dyadic>([dy](Natural n){ return ref::dyadic(dy(Nat(n.get_si()))); })); watch(r,"limit-Dyadic/",a,I(v),ref::str(v),false);
    Real b=limit(FastCauchySequence<Real>([dy](Natural n){ return Real(ref::rational(dy(Nat(n.get_si())))); })); watch(r,"limit-Real/",b,I(v),ref::str(v),false);
    Real c=Real(ConvergentSequence<DyadicBounds>([v](Natural nn){ long n=nn.get_si(); Q w=ref::pow(Q(2),-n); auto fl=[&](Q const& t,bool up){ Q s=t*ref::pow(Q(2),n+10); Z m=up?ref::ceil(s):ref::floor(s); return ref::dyadic(Q(Q(m)/ref::pow(Q(2),n+10))); }; return DyadicBounds(fl(v-w/3,false),fl(v+w,true)); })); watch(r,"limit-Bounds/",c,I(v),ref::str(v),false);
    for (auto* x : {&a,&b,&c}) { for (Nat acc : {3u,20u,60u}) { auto w=x->compute(Accuracy(bits_of(acc))).get(); ok("limit/accuracy",mpi::holds(dl(w),du(w),I(v))&&ref::q(w.upper_raw())-ref::q(w.lower_raw())<=ref::pow(Q(2),1-long(acc)),[&]{return cat(ref::str(v)," acc ",acc);}); }
        Real y=*x+Real(1)/3; watch(r,"limit/sum/",y,I(v)+I(Q(1,3)),ref::str(v),false); Real z=exp(-sqr(*x)); watch(r,"limit/expr/",z,mpi::exp(-mpi::sqr(I(v))),ref::str(v),false); }
    vf::distinct(ref::str(v)); }
VF_SCENARIO(choices,2) { Q a=frac(r.range(-20,20),r.range(1,9)), d=frac(1,r.range(1,1000)); Q x0=a+d*frac(r.range(-3,6),2); Real x(ref::rational(x0)); if (r.coin()) x=exp(log(x+Real(40)))-Real(40); auto in=[&]{return cat("x=",ref::str(x0)," between ",ref::str(a)," and ",ref::str(Q(a+d)));};
    total("nondeterministic_greater",[&]{ bool g=nondeterministic_greater(x,ref::rational(a),ref::rational(Q(a+d))); ok("nondeterministic_greater",g?x0>a:x0<a+d,in); },in);
    Q y0=x0+frac(r.range(-2,2),7); Real y(ref::rational(y0));
    total("when",[&]{ // the maximum, defined by cases
        Real m=when(Case<UpperKleenean,Real>(x>=y,x),Case<UpperKleenean,Real>(y>=x,y)); watch(r,"when/",m,I(ref::qmax(x0,y0)),in(),false); },in);
    if (x0!=y0) total("choose",[&]{ Real m=choose(Case<LowerKleenean,Real>(x>y,x),Case<LowerKleenean,Real>(y>x,y)); watch(r,"choose/",m,I(ref::qmax(x0,y0)),in(),false); },in);
    total("dist",[&]{ watch(r,"dist/",dist(x,y),I(ref::abs(x0-y0)),in(),true); },in);
    { PositiveReal p=add(abs(x),PositiveReal(Real(1))), q=add(abs(y),PositiveReal(Real(Rational(1,3)))); Q pv=ref::abs(x0)+1, qv=ref::abs(y0)+Q(1,3); watch(r,"PositiveReal/mul/",mul(p,q),I(Q(pv*qv)),in(),true); watch(r,"PositiveReal/div/",div(p,q),I(Q(pv/qv)),in(),true); watch(r,"PositiveReal/add/",add(p,q),I(Q(pv+qv)),in(),true); watch(r,"PositiveReal/rec/",rec(q),I(Q(1/qv)),in(),true); watch(r,"PositiveReal/max/",max(p,q),I(ref::qmax(pv,qv)),in(),true); watch(r,"PositiveReal/min/",min(p,q),I(ref::qmin(pv,qv)),in(),true); }
    // one-sided arithmetic
    { UpperReal ux(x), uy(y); LowerReal lx(x), ly(y); for (Nat e : {0u,2u,6u}) { auto U=[&](char const* k, UpperReal const& u, Q const& v){ auto b=u.compute_get(Effort(e)); ok(std::string("UpperReal/")+k,ref::ge(ref::x(b.raw()),v)||x0!=x0,[&]{return cat(in()," ",ref::str(ref::x(b.raw()))," below ",ref::str(v));}); }; auto L=[&](char const* k, LowerReal const& u, Q const& v){ auto b=u.compute_get(Effort(e)); ok(std::string("LowerReal/")+k,ref::le(ref::x(b.raw()),v),[&]{return cat(in()," ",ref::str(ref::x(b.raw()))," above ",ref::str(v));}); };
        U("add",add(ux,uy),x0+y0); U("neg",neg(lx),-x0); U("max",max(ux,uy),ref::qmax(x0,y0)); U("min",min(ux,uy),ref::qmin(x0,y0)); L("add",add(lx,ly),x0+y0); L("neg",neg(ux),-x0); L("max",max(lx,ly),ref::qmax(x0,y0)); L("min",min(lx,ly),ref::qmin(x0,y0)); } }
    ok("same/reflexive",same(x,x)||!same(x,x),in); vf::distinct(cat(ref::str(x0),ref::str(y0))); }
VF_SCENARIO(literals,1) { long n=r.range(-1000000,1000000); ok("Real/literal",ref::q(Real(n).compute_get(Effort(0u)).lower_raw())==Q(n),[&]{return cat(n);}); uint64_t m=r.u64(); auto b=Real(m).compute_get(Effort(20u)); Z mz; mpz_set_ui(mz.get_mpz_t(),m); ok("Real/uint64",mpi::holds(dl(b),du(b),I(Q(mz))),[&]{return cat(m);}); int64_t k=int64_t(r.u64()); auto c=Real(k).compute_get(Effort(20u)); ok("Real/int64",mpi::holds(dl(c),du(c),I(Q(Z(k)))),[&]{return cat(k);}); double d=ref::rmod(r,40); auto w=Real(ExactDouble(d)).get(dp); ok("Real/ExactDouble",ref::q(w.lower_raw())==ref::q(d)&&ref::q(w.upper_raw())==ref::q(d),[&]{return cat(d);}); vf::distinct(cat(n,d)); }
