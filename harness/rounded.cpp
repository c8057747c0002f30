// Directed rounding of the raw floating-point types FloatDP and FloatMP, against MPFR and GMP.
#include "ref.hpp"
#include "numeric/rounded_float.hpp"
using namespace Ariadne;
using ref::Q; using ref::Z; using ref::X; using vf::ok; using vf::cat; using vf::total;

enum Dir { DN=0, NR=1, UP=2 };
static const char* dn[3]={"down","near","up"};
static mpfr_rnd_t mr[3]={MPFR_RNDD,MPFR_RNDN,MPFR_RNDU};

// The reference: value rounded to the format, from an MPFR routine computing f correctly rounded.
template<class F> static X rounded_ref(F const& f, long prec, bool dp, mpfr_rnd_t rnd) {
    ref::M r(prec); mpfr_exp_t e0=mpfr_get_emin(), e1=mpfr_get_emax();
    if (dp) { mpfr_set_emin(-1073); mpfr_set_emax(1024); }
    int t=f(r.m,rnd); if (dp) { t=mpfr_check_range(r.m,t,rnd); mpfr_subnormalize(r.m,t,rnd); }
    X v=ref::x(static_cast<mpfr_srcptr>(r.m)); mpfr_set_emin(e0); mpfr_set_emax(e1); return v; }
static X rq(Q const& v, long prec, bool dp, mpfr_rnd_t rnd) { return rounded_ref([&](mpfr_ptr m, mpfr_rnd_t d){ return mpfr_set_q(m,v.get_mpq_t(),d); },prec,dp,rnd); }

struct TDP { using F=FloatDP; using PR=DoublePrecision; static constexpr bool isdp=true; static const char* name() { return "FloatDP"; }
    static PR pr(vf::Rng&) { return dp; } static long bits(PR) { return 53; }
    static F make(double d, PR) { return F(ExactDouble(d),dp); } 
    static F rnd(vf::Rng& r, PR) { return make(ref::rdouble(r),dp); }
    static F mod(vf::Rng& r, PR, int e) { return make(ref::rmod(r,e),dp); } };
struct TMP { using F=FloatMP; using PR=MultiplePrecision; static constexpr bool isdp=false; static const char* name() { return "FloatMP"; }
    static PR pr(vf::Rng& r) { return PR(mpfr_prec_t(r.pick({2l,11l,24l,53l,53l,64l,65l,113l,128l,128l,192l,300l}))); } static long bits(PR p) { return long(p.bits()); }
    static F of(Q const& q, PR p) { F x(p); mpfr_set_q(x.get_mpfr(),q.get_mpq_t(),MPFR_RNDN); return x; }
    static F rnd(vf::Rng& r, PR p) { if (r.coin(1,4)) return of(ref::q(ref::rdouble(r)),p); return mod(r,p,r.coin(1,5)?600:60); }
    static F mod(vf::Rng& r, PR p, int e) { if (r.coin(1,5)) return of(ref::q(ref::rmod(r,std::min(e,20))),p);
        Z z=ref::rbig(r,int(bits(p))); Q q(z); long sh=r.range(-e,e)-long(mpz_sizeinbase(z.get_mpz_t(),2)); Q t=ref::pow(Q(2),sh); return of(q*t,p); } };

static std::string S(X const& x) { return ref::str(x); }
// distance in units of the last place of the reference
static double ulps(X const& got, X const& want, long prec) { if (got.kind!=want.kind) return 1e300; if (got.kind||got.v==want.v) return 0;
    Q d=ref::abs(got.v-want.v), w=ref::abs(want.v); long e; if (w==0) return 1e300; mpq_class t=w; ref::M m(64); mpfr_set_q(m,w.get_mpq_t(),MPFR_RNDD); e=mpfr_get_exp(m.m); if (e-prec<-1074&&prec==53) e=-1074+prec; Q u=ref::pow(Q(2),e-prec); Q k=d/u; return k.get_d(); }

// one observation of an operation in one direction: side of the exact value, and closeness (0 = correctly rounded)
static void judge(std::string const& key, Dir d, X const& got, X const& want, X const& exact_lo, X const& exact_hi, long prec, double slack, std::string const& in) {
    (void)exact_lo; (void)exact_hi;
    bool good = !got.isnan();
    if (good && want.kind==0 && got.kind==0) good = d==UP ? got.v>=want.v : d==DN ? got.v<=want.v : true;
    else if (good && d==UP) good = got.kind==1 || (want.kind==-1) || (want.kind==1 ? got.kind==1 : false);
    else if (good && d==DN) good = got.kind==-1 || (want.kind==1) || (want.kind==-1 ? got.kind==-1 : false);
    ok(key+"/"+dn[d], good, [&]{ return cat(in," gave ",S(got),", correctly rounded ",S(want)); });
    if (!good) return;
    double u=ulps(got,want,prec);
    ok(key+"/"+dn[d]+"/tight", u<=slack, [&]{ return cat(in," gave ",S(got),", correctly rounded ",S(want)," : ",u," ulps"); });
}
// rf(mpfr_ptr,rnd) computes the reference; op(tag) computes with the library for each direction
template<class T, class OP, class RF> static void obs(std::string key, typename T::PR pr, double slack, std::string const& in, OP const& op, RF const& rf) {
    long b=T::bits(pr); key=cat(T::name(),"/",key);
    total(key,[&]{ auto u=op(up); auto d=op(down); auto n=op(near);
        long pu=T::isdp?53:0; if constexpr (!T::isdp) pu=long(u.precision().bits()); b=pu;
        X xu=ref::x(u), xd=ref::x(d), xn=ref::x(n);
        judge(key,UP,xu,rounded_ref(rf,b,T::isdp,MPFR_RNDU),{}, {},b,slack,in);
        judge(key,DN,xd,rounded_ref(rf,b,T::isdp,MPFR_RNDD),{}, {},b,slack,in);
        judge(key,NR,xn,rounded_ref(rf,b,T::isdp,MPFR_RNDN),{}, {},b,slack,in);
        vf::distinct(cat(key,xu.kind,xd.kind,ref::same(xu,xd),xn.kind==0?sgn(xn.v):7));
    },[&]{return in;});
}
#define QREF(val) ([&](mpfr_ptr m_, mpfr_rnd_t d_){ Q v_=(val); return mpfr_set_q(m_,v_.get_mpq_t(),d_); })
#define FREF(fun,q) ([&](mpfr_ptr m_, mpfr_rnd_t d_){ ref::M a_(2400); mpfr_exp_t e0=mpfr_get_emin(), e1=mpfr_get_emax(); mpfr_set_emin(mpfr_get_emin_min()); mpfr_set_emax(mpfr_get_emax_max()); mpfr_set_q(a_,(q).get_mpq_t(),MPFR_RNDN); mpfr_set_emin(e0); mpfr_set_emax(e1); return fun(m_,a_,d_); })

template<class T> static void arith(vf::Rng& r) {
    auto pr=T::pr(r); auto a=T::rnd(r,pr), b=r.coin(1,10)?a:T::rnd(r,pr), c=T::rnd(r,pr);
    if (r.coin()) { a=T::mod(r,pr,20); b=T::mod(r,pr,20); c=T::mod(r,pr,20); }
    Q qa=ref::q(a), qb=ref::q(b), qc=ref::q(c); std::string in=cat(S(qa)," , ",S(qb)," , ",S(qc)," bits ",T::bits(pr));
    obs<T>("add",pr,0,in,[&](auto d){return add(d,a,b);},QREF(qa+qb));
    obs<T>("sub",pr,0,in,[&](auto d){return sub(d,a,b);},QREF(qa-qb));
    obs<T>("mul",pr,0,in,[&](auto d){return mul(d,a,b);},QREF(qa*qb));
    if (qb!=0) { obs<T>("div",pr,0,in,[&](auto d){return div(d,a,b);},QREF(qa/qb)); obs<T>("rec",pr,0,in,[&](auto d){return rec(d,b);},QREF(1/qb)); }
    obs<T>("sqr",pr,0,in,[&](auto d){return sqr(d,a);},QREF(qa*qa));
    obs<T>("fma",pr,0,in,[&](auto d){return fma(d,a,b,c);},QREF(qa*qb+qc));
    obs<T>("hlf",pr,0,in,[&](auto d){return hlf(d,a);},QREF(qa/2));
    obs<T>("pos",pr,0,in,[&](auto d){return pos(d,a);},QREF(qa)); obs<T>("neg",pr,0,in,[&](auto d){return neg(d,a);},QREF(-qa)); obs<T>("nul",pr,0,in,[&](auto d){return nul(d,a);},QREF(Q(0)));
    obs<T>("max",pr,0,in,[&](auto d){return max(d,a,b);},QREF(ref::qmax(qa,qb))); obs<T>("min",pr,0,in,[&](auto d){return min(d,a,b);},QREF(ref::qmin(qa,qb))); obs<T>("abs",pr,0,in,[&](auto d){return abs(d,a);},QREF(ref::abs(qa))); obs<T>("mag",pr,0,in,[&](auto d){return mag(d,a);},QREF(ref::abs(qa)));
    if (ref::abs(qb)<ref::pow(Q(2),1000)&&ref::abs(qc)<ref::pow(Q(2),1000)) obs<T>("med",pr,4,in,[&](auto d){return med(d,c,b);},QREF((qc+qb)/2)); if (ref::abs(qb)<ref::pow(Q(2),1000)&&ref::abs(qc)<ref::pow(Q(2),1000)) obs<T>("rad",pr,4,in,[&](auto d){return rad(d,c,b);},QREF((qb-qc)/2));
    if constexpr (!T::isdp) { obs<T>("iadd",pr,0,in,[&](auto d){auto t=a; iadd(d,t,b); return t;},QREF(qa+qb)); obs<T>("isub",pr,0,in,[&](auto d){auto t=a; isub(d,t,b); return t;},QREF(qa-qb)); obs<T>("imul",pr,0,in,[&](auto d){auto t=a; imul(d,t,b); return t;},QREF(qa*qb));
    if (qb!=0) obs<T>("idiv",pr,0,in,[&](auto d){auto t=a; idiv(d,t,b); return t;},QREF(qa/qb)); }
    if (qa>=0) obs<T>("sqrt",pr,T::isdp?2:0,in,[&](auto d){return sqrt(d,a);},FREF(mpfr_sqrt,qa));
    // in the current rounding mode
    using F=typename T::F; auto m0=F::get_rounding_mode();
    auto cur=[&](auto f){ return [&,f](auto d){ auto m=F::get_rounding_mode(); F::set_rounding_mode(d); auto t=f(); F::set_rounding_mode(m); return t; }; };
    obs<T>("cur-add",pr,0,in,cur([&]{return add(rounded,a,b);}),QREF(qa+qb)); obs<T>("cur-sub",pr,0,in,cur([&]{return sub(rounded,a,b);}),QREF(qa-qb)); obs<T>("cur-mul",pr,0,in,cur([&]{return mul(rounded,a,b);}),QREF(qa*qb));
    if (qb!=0) { obs<T>("cur-div",pr,0,in,cur([&]{return div(rounded,a,b);}),QREF(qa/qb)); obs<T>("cur-rec",pr,0,in,cur([&]{return rec(rounded,b);}),QREF(1/qb)); }
    obs<T>("cur-sqr",pr,0,in,cur([&]{return sqr(rounded,a);}),QREF(qa*qa)); obs<T>("cur-fma",pr,0,in,cur([&]{return fma(rounded,a,b,c);}),QREF(qa*qb+qc));
    { using R=Rounded<F>; R ra(a), rb(b), rc(c);
      obs<T>("Rounded-add",pr,0,in,cur([&]{return (ra+rb).raw();}),QREF(qa+qb)); obs<T>("Rounded-sub",pr,0,in,cur([&]{return (ra-rb).raw();}),QREF(qa-qb)); obs<T>("Rounded-mul",pr,0,in,cur([&]{return (ra*rb).raw();}),QREF(qa*qb));
      if (qb!=0) obs<T>("Rounded-div",pr,0,in,cur([&]{return (ra/rb).raw();}),QREF(qa/qb));
      obs<T>("Rounded-+=",pr,0,in,cur([&]{R t=ra; t+=rb; return t.raw();}),QREF(qa+qb)); obs<T>("Rounded--=",pr,0,in,cur([&]{R t=ra; t-=rb; return t.raw();}),QREF(qa-qb)); obs<T>("Rounded-*=",pr,0,in,cur([&]{R t=ra; t*=rb; return t.raw();}),QREF(qa*qb));
      obs<T>("Rounded-sqr",pr,0,in,cur([&]{return sqr(ra).raw();}),QREF(qa*qa)); obs<T>("Rounded-fma",pr,0,in,cur([&]{return fma(ra,rb,rc).raw();}),QREF(qa*qb+qc)); obs<T>("Rounded-neg",pr,0,in,cur([&]{return neg(ra).raw();}),QREF(-qa)); obs<T>("Rounded-hlf",pr,0,in,cur([&]{return hlf(ra).raw();}),QREF(qa/2));
      obs<T>("Rounded-max",pr,0,in,cur([&]{return max(ra,rb).raw();}),QREF(ref::qmax(qa,qb))); obs<T>("Rounded-min",pr,0,in,cur([&]{return min(ra,rb).raw();}),QREF(ref::qmin(qa,qb))); obs<T>("Rounded-abs",pr,0,in,cur([&]{return abs(ra).raw();}),QREF(ref::abs(qa)));
      double e=ref::rmod(r); Q qe=ref::q(e); ExactDouble x(e);
      long bits=T::bits(pr); if (bits>=53) { obs<T>("Rounded-add-double",pr,0,cat(in,e),cur([&]{return (ra+x).raw();}),QREF(qa+qe)); obs<T>("Rounded-double-sub",pr,0,cat(in,e),cur([&]{return (x-ra).raw();}),QREF(qe-qa)); obs<T>("Rounded-mul-double",pr,0,cat(in,e),cur([&]{return (ra*x).raw();}),QREF(qa*qe)); if (qa!=0) obs<T>("Rounded-double-div",pr,0,cat(in,e),cur([&]{return (x/ra).raw();}),QREF(qe/qa)); if (qe!=0) obs<T>("Rounded-div-double",pr,0,cat(in,e),cur([&]{return (ra/x).raw();}),QREF(qa/qe)); obs<T>("Rounded-sub-double",pr,0,cat(in,e),cur([&]{return (ra-x).raw();}),QREF(qa-qe)); }
    }
    ok(cat(T::name(),"/mode-restored"),F::get_rounding_mode()==m0,[&]{return in;});
    vf::sample([&]{return cat(T::name()," ",in);});
}
template<class T> static void powers(vf::Rng& r) {
    auto pr=T::pr(r); auto a=T::mod(r,pr,r.coin(1,4)?60:6); Q qa=ref::q(a); unsigned m=unsigned(r.below(r.coin(1,5)?40:12)); int n=int(r.range(-12,12)); std::string in=cat(S(qa)," ^ ",m," / ",n," bits ",T::bits(pr));
    double sl=T::isdp?2.0*(m+2):0; 
    obs<T>("powNat",pr,sl,in,[&](auto d){return pow(d,a,Nat(m));},QREF(ref::pow(qa,long(m))));
    if (qa!=0) obs<T>("powInt",pr,T::isdp?4.0*(std::abs(n)+3):0,in,[&](auto d){return pow(d,a,Int(n));},QREF(ref::pow(qa,n)));
}
template<class T> static void transcendental(vf::Rng& r) {
    auto pr=T::pr(r); auto a=T::mod(r,pr,r.coin(1,3)?r.pick({3,8,20}):2);
    if (r.coin(1,6)) { // near multiples of pi/2, where range reduction is hardest
        ref::M p(3000); mpfr_const_pi(p,MPFR_RNDN); mpfr_mul_si(p,p,r.range(-60,60),MPFR_RNDN); mpfr_div_2ui(p,p,r.below(3),MPFR_RNDN); double d=mpfr_get_d(p,MPFR_RNDN); if (r.coin()) d=std::nextafter(d,r.coin()?1e300:-1e300);
        if constexpr (T::isdp) a=T::make(d,dp); else { a=TMP::F(pr); mpfr_set(a.get_mpfr(),p,r.coin()?MPFR_RNDD:MPFR_RNDU); } }
    if (r.coin(1,8)) { if constexpr (T::isdp) a=T::make(std::ldexp(ref::rmod(r,1),-int(r.range(20,1000))),dp); }
    Q qa=ref::q(a); std::string in=cat(S(qa)," bits ",T::bits(pr)); double sl=T::isdp?4:0;
    obs<T>("sin",pr,sl,in,[&](auto d){return sin(d,a);},FREF(mpfr_sin,qa));
    obs<T>("cos",pr,sl,in,[&](auto d){return cos(d,a);},FREF(mpfr_cos,qa));
    obs<T>("tan",pr,sl,in,[&](auto d){return tan(d,a);},FREF(mpfr_tan,qa));
    obs<T>("atan",pr,sl,in,[&](auto d){return atan(d,a);},FREF(mpfr_atan,qa));
    if (ref::abs(qa)<700) obs<T>("exp",pr,sl,in,[&](auto d){return exp(d,a);},FREF(mpfr_exp,qa));
    if (qa>0) obs<T>("log",pr,sl,in,[&](auto d){return log(d,a);},FREF(mpfr_log,qa));
    if (ref::abs(qa)<1) { obs<T>("asin",pr,sl,in,[&](auto d){return asin(d,a);},FREF(mpfr_asin,qa)); obs<T>("acos",pr,sl,in,[&](auto d){return acos(d,a);},FREF(mpfr_acos,qa)); }
    using F=typename T::F; auto cur=[&](auto f){ return [&,f](auto d){ auto m=F::get_rounding_mode(); F::set_rounding_mode(d); auto t=f(); F::set_rounding_mode(m); return t; }; };
    Rounded<F> ra(a);
    obs<T>("cur-sin",pr,sl,in,cur([&]{return sin(rounded,a);}),FREF(mpfr_sin,qa)); obs<T>("cur-cos",pr,sl,in,cur([&]{return cos(rounded,a);}),FREF(mpfr_cos,qa)); obs<T>("cur-atan",pr,sl,in,cur([&]{return atan(rounded,a);}),FREF(mpfr_atan,qa));
    if (ref::abs(qa)<700) obs<T>("cur-exp",pr,sl,in,cur([&]{return exp(rounded,a);}),FREF(mpfr_exp,qa));
    if (ref::abs(qa)<700) obs<T>("Rounded-exp",pr,sl,in,cur([&]{return exp(ra).raw();}),FREF(mpfr_exp,qa));
    if (qa>0) obs<T>("Rounded-log",pr,sl,in,cur([&]{return log(ra).raw();}),FREF(mpfr_log,qa));
    obs<T>("Rounded-sin",pr,sl,in,cur([&]{return sin(ra).raw();}),FREF(mpfr_sin,qa)); obs<T>("Rounded-cos",pr,sl,in,cur([&]{return cos(ra).raw();}),FREF(mpfr_cos,qa));
    obs<T>("pi",pr,0,in,[&](auto d){return F::pi(d,pr);},[&](mpfr_ptr m, mpfr_rnd_t d_){return mpfr_const_pi(m,d_);});
}
template<class T> static void conversions(vf::Rng& r) {
    using F=typename T::F; auto pr=T::pr(r); bool big=r.coin(1,6); Q v=ref::rrat(r,big?900:120); if (r.coin(1,6)) v*=ref::pow(Q(2),r.range(-900,900)); if (r.coin(1,10)) v=ref::q(ref::rdouble(r)); if (r.coin(1,20)) v*=ref::pow(Q(2),r.pick({1200l,-1200l}));
    Q w=ref::rdyad(r,big?900:120); if (r.coin(1,20)) w*=ref::pow(Q(2),r.pick({1200l,1020l,-1100l})); Z z=ref::rint(r,big?900:100); std::string in=cat(S(v)," / ",S(w)," / ",z.get_str()," bits ",T::bits(pr));
    Rational q=ref::rational(v); Dyadic y=ref::dyadic(w); Integer i=ref::integer(z); double sl=T::isdp?0:0;
    // a conversion of a tiny value may be loose by the smallest normal number
    auto conv=[&](std::string k, auto const& x, Q const& val){ std::string key=cat(T::name(),"/",k); total(key,[&]{ F u(x,up,pr), d(x,down,pr), n(x,near,pr); long b=T::bits(pr); Q tiny=ref::pow(Q(2),-968);
        X wu=rq(val,b,T::isdp,MPFR_RNDU), wd=rq(val,b,T::isdp,MPFR_RNDD); X xu=ref::x(u), xd=ref::x(d), xn=ref::x(n);
        ok(key+"/up",ref::ge(xu,val),[&]{return cat(S(val)," gave ",S(xu));}); ok(key+"/down",ref::le(xd,val),[&]{return cat(S(val)," gave ",S(xd));});
        if (wu.kind==0&&wd.kind==0) { if (ref::abs(val)>=tiny) { ok(key+"/up/tight",ref::same(xu,wu),[&]{return cat(S(val)," gave ",S(xu)," want ",S(wu));}); ok(key+"/down/tight",ref::same(xd,wd),[&]{return cat(S(val)," gave ",S(xd)," want ",S(wd));}); }
          ok(key+"/near",xn.kind==0&&(ref::abs(val)<tiny||(xn.v>=wd.v&&xn.v<=wu.v)),[&]{return cat(S(val)," gave ",S(xn));}); } (void)sl; },[&]{return in;}); };
    conv("from-Rational",q,v); conv("from-Dyadic",y,w); conv("from-Integer",i,Q(z));
    { Z p=ref::rint(r,60); unsigned k=unsigned(r.below(30)); Z t; mpz_ui_pow_ui(t.get_mpz_t(),10,k); Q d(p,t); d.canonicalize(); Decimal dec(ref::integer(p),Nat(k)); conv("from-Decimal",dec,d); }
    { MultiplePrecision pm(mpfr_prec_t(r.pick({24l,53l,70l,128l,400l}))); FloatMP x=TMP::mod(r,pm,60); conv("from-FloatMP",x,ref::q(x)); }
    { double d=ref::rdouble(r); conv("from-FloatDP",FloatDP(ExactDouble(d),dp),ref::q(d)); conv("from-double",ExactDouble(d),ref::q(d)); int n=int(r.u64()); conv("from-int",n,Q(n)); }
    // exact conversions out
    { F a=T::rnd(r,pr); Q qa=ref::q(a); std::string k=cat(T::name(),"/"); total(k+"to-Dyadic",[&]{ ok(k+"to-Dyadic",ref::same(ref::x(Dyadic(a)),X(qa)),[&]{return S(qa);}); }); total(k+"to-Rational",[&]{ ok(k+"to-Rational",ref::same(ref::x(Rational(a)),X(qa)),[&]{return S(qa);}); });
      total(k+"copy",[&]{ F b(a); F c(pr); c=a; ok(k+"copy",ref::q(b)==qa&&ref::q(c)==qa,[&]{return S(qa);}); F e(std::move(b)); ok(k+"move",ref::q(e)==qa,[&]{return S(qa);}); c=std::move(e); ok(k+"move=",ref::q(c)==qa,[&]{return S(qa);}); });
      total(k+"floor",[&]{ ok(k+"floor",ref::q(floor(a))<=qa&&(ref::q(floor(a)).get_den()==1)&&(T::bits(pr)<53||qa-ref::q(floor(a))<1),[&]{return S(qa);}); ok(k+"ceil",ref::q(ceil(a))>=qa&&(ref::q(ceil(a)).get_den()==1)&&(T::bits(pr)<53||ref::q(ceil(a))-qa<1),[&]{return S(qa);}); if (T::bits(pr)>=53) ok(k+"round",ref::abs(ref::q(round(a))-qa)<=Q(1,2)&&ref::q(round(a)).get_den()==1,[&]{return S(qa);}); },[&]{return S(qa);});
      if (ref::abs(qa)<Q(ref::pow(Q(2),1000))) total(k+"next",[&]{ F u=next(up,a), d=next(down,a); ok(k+"next/up",ref::q(u)>qa,[&]{return S(qa);}); ok(k+"next/down",ref::q(d)<qa,[&]{return S(qa);}); });
      int e=int(r.range(-40,40)); if (ref::abs(qa)>ref::pow(Q(2),-900)&&ref::abs(qa)<ref::pow(Q(2),900)) { Q t=ref::pow(Q(2),e); total(k+"shft",[&]{ ok(k+"shft",ref::q(shft(a,e))==qa*t,[&]{return cat(S(qa)," 2^",e);}); ok(k+"*2^n",ref::q(a*TwoExp(e))==qa*t,[&]{return cat(S(qa)," 2^",e);}); ok(k+"/2^n",ref::q(a/TwoExp(e))==qa/t,[&]{return cat(S(qa)," 2^",e);}); ok(k+"2^n*",ref::q(TwoExp(e)*a)==qa*t,[&]{return cat(S(qa)," 2^",e);}); F c=a; c*=TwoExp(e); ok(k+"*=2^n",ref::q(c)==qa*t,[&]{return S(qa);}); c/=TwoExp(e); ok(k+"/=2^n",ref::q(c)==qa,[&]{return S(qa);}); }); }
      total(k+"exact-unary",[&]{ ok(k+"-x",ref::q(-a)==-qa,[&]{return S(qa);}); ok(k+"+x",ref::q(+a)==qa,[&]{return S(qa);}); ok(k+"neg()",ref::q(neg(a))==-qa,[&]{return S(qa);}); ok(k+"pos()",ref::q(pos(a))==qa,[&]{return S(qa);}); ok(k+"nul()",ref::q(nul(a))==0,[&]{return S(qa);}); if (ref::abs(qa)>ref::pow(Q(2),-1000)) ok(k+"hlf()",ref::q(hlf(a))==qa/2,[&]{return S(qa);}); F b=T::rnd(r,pr); Q qb=ref::q(b); ok(k+"max()",ref::q(max(a,b))==ref::qmax(qa,qb),[&]{return S(qa);}); ok(k+"min()",ref::q(min(a,b))==ref::qmin(qa,qb),[&]{return S(qa);}); });
      if (r.coin(1,3)) { Z iz=ref::rint(r,40); F b(pr); bool fits=true; if constexpr (T::isdp) { b=T::make(iz.get_d(),dp); fits=mpz_sizeinbase(iz.get_mpz_t(),2)<=53; } else { mpfr_set_z(b.get_mpfr(),iz.get_mpz_t(),MPFR_RNDN); fits=long(mpz_sizeinbase(iz.get_mpz_t(),2))<=T::bits(pr); }
        if (fits) total(k+"cast_integer",[&]{ ok(k+"cast_integer",ref::z(cast_integer(b))==iz,[&]{return iz.get_str();}); }); }
      // a dyadic that is representable is converted exactly; one that is not is refused
      { bool rep=ref::same(rq(w,T::bits(pr),T::isdp,MPFR_RNDU),rq(w,T::bits(pr),T::isdp,MPFR_RNDD)); bool threw=false; F b(pr); vf::at(k+"from-exact-Dyadic"); try { b=F(y,pr); } catch (std::exception const&) { threw=true; } ok(k+"from-exact-Dyadic",rep ? (!threw && ref::q(b)==w) : threw,[&]{return cat(S(w)," representable ",rep," refused ",threw);}); }
    }
}
template<class T> static void compares(vf::Rng& r) {
    using F=typename T::F; auto pr=T::pr(r); F a=T::rnd(r,pr), b=T::rnd(r,pr); if (r.coin(1,4)) { a=T::mod(r,pr,4); b=r.coin()?a:next(up,a); } Q qa=ref::q(a), qb=ref::q(b); std::string k=cat(T::name(),"/"), in=cat(S(qa)," , ",S(qb));
    auto six=[&](std::string n, auto const& x, auto const& y, Q const& qx, Q const& qy){ total(k+n,[&]{ ok(k+n+"==",bool(x==y)==(qx==qy),[&]{return cat(S(qx)," , ",S(qy));}); ok(k+n+"!=",bool(x!=y)==(qx!=qy),[&]{return cat(S(qx)," , ",S(qy));}); ok(k+n+"<",bool(x<y)==(qx<qy),[&]{return cat(S(qx)," , ",S(qy));}); ok(k+n+">",bool(x>y)==(qx>qy),[&]{return cat(S(qx)," , ",S(qy));}); ok(k+n+"<=",bool(x<=y)==(qx<=qy),[&]{return cat(S(qx)," , ",S(qy));}); ok(k+n+">=",bool(x>=y)==(qx>=qy),[&]{return cat(S(qx)," , ",S(qy));}); vf::distinct(cat(k,n,qx<qy,qx==qy)); },[&]{return in;}); };
    auto cmpc=[&](std::string n, auto const& x, auto const& y, Q const& qx, Q const& qy){ total(k+n,[&]{ Comparison c=cmp(x,y), want=qx<qy?Comparison::LESS:qx>qy?Comparison::GREATER:Comparison::EQUAL; ok(k+n,c==want,[&]{return cat(S(qx)," , ",S(qy)," gave ",int(c));}); }); };
    six("",a,b,qa,qb); cmpc("cmp",a,b,qa,qb);
    Q w=r.coin()?qa:Q(qa+ref::pow(Q(2),-r.range(1,1200))*(r.coin()?1:-1)); Rational q=ref::rational(w); six("Rational",a,q,qa,w); six("Rational-rev",q,a,w,qa); cmpc("cmpRational",a,q,qa,w); cmpc("cmpRational-rev",q,a,w,qa);
    Dyadic d=ref::dyadic(w); six("Dyadic",a,d,qa,w); six("Dyadic-rev",d,a,w,qa);
    double e=r.coin()?a.get_d():ref::rdouble(r); if (!std::isfinite(e)) e=1; Q qe=ref::q(e); six("double",a,ExactDouble(e),qa,qe); six("double-rev",ExactDouble(e),a,qe,qa); cmpc("cmp-double",a,ExactDouble(e),qa,qe);
    int n=int(r.range(-3,3)); if (r.coin(1,4)) n=int(r.u64()); F c=T::mod(r,pr,3); if (r.coin(1,3)) c=T::make_int(n,pr); Q qc=ref::q(c); six("int",c,n,qc,Q(n)); six("int-rev",n,c,Q(n),qc); cmpc("cmp-int",c,n,qc,Q(n));
    ok(k+"is_zero",is_zero(a)==(qa==0)); ok(k+"is_finite",is_finite(a)&&!is_inf(a)&&!is_nan(a));
}
struct TDP2 : TDP { static F make_int(int n, PR) { return make(double(n),dp); } };
struct TMP2 : TMP { static F make_int(int n, PR p) { return of(Q(n),p); } };

VF_SCENARIO(arith_dp,4) { arith<TDP>(r); }
VF_SCENARIO(arith_mp,3) { arith<TMP>(r); }
VF_SCENARIO(pow_dp,1) { for (int i=0;i!=6;++i) powers<TDP>(r); }
VF_SCENARIO(pow_mp,1) { for (int i=0;i!=6;++i) powers<TMP>(r); }
VF_SCENARIO(trans_dp,4) { transcendental<TDP>(r); }
VF_SCENARIO(trans_mp,2) { transcendental<TMP>(r); }
VF_SCENARIO(conv_dp,3) { conversions<TDP>(r); }
VF_SCENARIO(conv_mp,3) { conversions<TMP>(r); }
VF_SCENARIO(cmp_dp,2) { compares<TDP2>(r); }
VF_SCENARIO(cmp_mp,2) { compares<TMP2>(r); }
// operations on a multiple-precision and a double-precision operand
VF_SCENARIO(mixed,2) {
    auto pr=TMP::pr(r); FloatMP a=TMP::mod(r,pr,r.coin(1,4)?200:20); double e=ref::rmod(r); if (r.coin(1,6)) e=ref::rdouble(r); FloatDP x(ExactDouble(e),dp); ExactDouble ed(e); Q qa=ref::q(a), qe=ref::q(e); std::string in=cat(S(qa)," , ",e," bits ",pr.bits());
    auto go=[&](std::string n, auto const& y){
        obs<TMP>("add-"+n,pr,0,in,[&](auto d){return add(MPFRRoundingModeType(d),a,y);},QREF(qa+qe)); obs<TMP>("sub-"+n,pr,0,in,[&](auto d){return sub(MPFRRoundingModeType(d),a,y);},QREF(qa-qe)); obs<TMP>("mul-"+n,pr,0,in,[&](auto d){return mul(MPFRRoundingModeType(d),a,y);},QREF(qa*qe));
        if (qe!=0) obs<TMP>("div-"+n,pr,0,in,[&](auto d){return div(MPFRRoundingModeType(d),a,y);},QREF(qa/qe));
        obs<TMP>(n+"-add",pr,0,in,[&](auto d){return add(MPFRRoundingModeType(d),y,a);},QREF(qa+qe)); obs<TMP>(n+"-sub",pr,0,in,[&](auto d){return sub(MPFRRoundingModeType(d),y,a);},QREF(qe-qa)); obs<TMP>(n+"-mul",pr,0,in,[&](auto d){return mul(MPFRRoundingModeType(d),y,a);},QREF(qa*qe));
        if (qa!=0) obs<TMP>(n+"-div",pr,0,in,[&](auto d){return div(MPFRRoundingModeType(d),y,a);},QREF(qe/qa)); };
    go("FloatDP",x); go("double",ed);
    auto p2=TMP::pr(r); FloatMP b=TMP::mod(r,p2,20); Q qb=ref::q(b);   // operands of different precision
    obs<TMP>("mixed-precision-add",pr,0,in,[&](auto d){return add(d,a,b);},QREF(qa+qb)); obs<TMP>("mixed-precision-sub",pr,0,in,[&](auto d){return sub(d,a,b);},QREF(qa-qb)); obs<TMP>("mixed-precision-mul",pr,0,in,[&](auto d){return mul(d,a,b);},QREF(qa*qb)); if (qb!=0) obs<TMP>("mixed-precision-div",pr,0,in,[&](auto d){return div(d,a,b);},QREF(qa/qb));
    total("FloatMP/cmp-FloatDP",[&]{ Comparison c=cmp(a,x); ok("FloatMP/cmp-FloatDP",c==(qa<qe?Comparison::LESS:qa>qe?Comparison::GREATER:Comparison::EQUAL),[&]{return in;}); c=cmp(x,a); ok("FloatDP/cmp-FloatMP",c==(qe<qa?Comparison::LESS:qe>qa?Comparison::GREATER:Comparison::EQUAL),[&]{return in;}); });
    // changing precision keeps the value when it grows, and rounds in the current mode when it shrinks
    total("FloatMP/set_precision",[&]{ FloatMP c=a; c.set_precision(MultiplePrecision(mpfr_prec_t(pr.bits()+70))); ok("FloatMP/set_precision",ref::q(c)==qa&&c.precision().bits()==pr.bits()+70,[&]{return in;}); });
    total("FloatMP/assign-keeps-precision",[&]{ FloatMP c(p2); c=a; ok("FloatMP/assign",ref::q(c)==qa,[&]{return in;}); c=c; ok("FloatMP/self-assign",ref::q(c)==qa,[&]{return in;}); });
}
VF_SCENARIO(specials,1) {
    double inf=std::numeric_limits<double>::infinity(); (void)inf;
    total("FloatDP/special",[&]{ FloatDP p=FloatDP::inf(dp), m=FloatDP::inf(Sign::NEGATIVE,dp), n=FloatDP::nan(dp); ok("FloatDP/inf",is_inf(p)&&!is_finite(p)&&!is_nan(p)&&p.get_d()>0&&is_inf(m)&&m.get_d()<0&&is_nan(n)&&!is_finite(n)); ok("FloatDP/eps",ref::q(FloatDP::eps(dp))==ref::pow(Q(2),-52)); ok("FloatDP/max",FloatDP::max(dp).get_d()==1.7976931348623157e308); ok("FloatDP/min",FloatDP::min(dp).get_d()==2.2250738585072014e-308);
        FloatDP x(ExactDouble(ref::rdouble(r)),dp); ok("FloatDP/inf-order",bool(x<p)&&bool(m<x)&&bool(p>x)&&!bool(x<m)); });
    auto pr=TMP::pr(r);
    total("FloatMP/special",[&]{ FloatMP p=FloatMP::inf(pr), m=FloatMP::inf(Sign::NEGATIVE,pr), n=FloatMP::nan(pr); ok("FloatMP/inf",is_inf(p)&&!is_finite(p)&&!is_nan(p)&&is_inf(m)&&is_nan(n)&&!is_finite(n)); ok("FloatMP/eps",ref::q(FloatMP::eps(pr))==ref::pow(Q(2),1-long(pr.bits()))); FloatMP x=TMP::mod(r,pr,40); ok("FloatMP/inf-order",bool(x<p)&&bool(m<x)&&bool(p>x)&&!bool(x<m)); });
    { Rational q=ref::rational(ref::rrat(r)); total("FloatDP/inf-vs-Rational",[&]{ ok("FloatDP/inf-vs-Rational",bool(FloatDP::inf(dp)>q)&&bool(FloatDP::inf(Sign::NEGATIVE,dp)<q)); ok("FloatMP/inf-vs-Rational",bool(FloatMP::inf(pr)>q)&&bool(FloatMP::inf(Sign::NEGATIVE,pr)<q)); }); }
}
