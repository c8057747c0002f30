// Enclosure arithmetic: Bounds, Ball, UpperBound, LowerBound, Error, Positive variants, against exact values of points.
#include "floats.hpp"
using namespace fl; using namespace Ariadne; using vf::ok; using vf::cat; using vf::total; using vf::partial;

template<class T> static std::string K(char const* cls, char const* op) { return cat(T::name(),cls,"/",op); }

// width of the enclosure of a thin argument, in units of the last place of the value
template<class R> static void thin(std::string const& key, R const& res, Q const& v, long bits, double slack, std::string const& in, Q const& scale=Q(0)) {
    X l=lo(res), u=hi(res); if (slack>1e29) return; Q s=ref::qmax(ref::abs(v),scale); if (s==0) { ok(key+"/thin",l.kind==0&&u.kind==0&&l.v==0&&u.v==0,[&]{return cat(in," gave ",str(res)," for 0");}); return; }
    if (bits==53 && (s<ref::pow(Q(2),-900)||s>ref::pow(Q(2),900))) return;
    bool g=l.kind==0&&u.kind==0&&(slack>1e29||Q(u.v-l.v)<=s*ref::pow(Q(2),-(bits-1))*Q(slack));
    ok(key+"/thin",g,[&]{return cat(in," gave ",str(res)," about ",ref::str(v));}); }

#define BIN(NAME,EXPR,COND,EXACT) { auto key=K<T>(cls,NAME); vf::at(key); if (COND) total(key,[&]{ auto res=EXPR; \
    for (auto& a : pa) for (auto& b : pb) { encloses(key,res,Q(EXACT),in); } if (pa.size()==1&&pb.size()==1) { Q a=pa[0], b=pb[0]; thin(key,res,Q(EXACT),bits,slack,in,strpbrk(NAME,"+-")?ref::qmax(ref::abs(a),ref::abs(b)):Q(0)); } \
    vf::distinct(cat(key,shape)); },[&]{return in;}); }
#define UN(NAME,EXPR,COND,EXACT) { auto key=K<T>(cls,NAME); vf::at(key); if (COND) total(key,[&]{ auto res=EXPR; \
    for (auto& a : pa) { encloses(key,res,Q(EXACT),in); } if (pa.size()==1) { Q a=pa[0]; thin(key,res,Q(EXACT),bits,slack,in); } vf::distinct(cat(key,shape)); },[&]{return in;}); }
#define FN(NAME,EXPR,COND,FUN) { auto key=K<T>(cls,NAME); vf::at(key); if (COND) total(key,[&]{ auto res=EXPR; \
    for (auto& a : pa) { auto e_=fenc(MPFUN(FUN),a,bits+300); encloses(key,res,e_,in); if (pa.size()==1&&e_.lo.kind==0) thin(key,res,e_.lo.v,bits,slack,in); } vf::distinct(cat(key,shape)); },[&]{return in;}); }

static std::string shp(X const& l, X const& u) { return cat(l.kind?9:sgn(l.v),u.kind?9:sgn(u.v),ref::same(l,u)?"=":"<"); }

// the ring and field operations of any two-sided class
template<class T, class C> static void arith(vf::Rng& r, char const* cls, typename T::PR pr, C const& x, C const& y, double slack, bool canzero) {
    long bits=T::bits(pr); auto pa=points(r,x), pb=points(r,y); if (pa.empty()||pb.empty()) return;
    std::string in=cat("x=",str(x)," y=",str(y)); std::string shape=shp(lo(x),hi(x))+shp(lo(y),hi(y));
    bool ynz=lo(y).v>0||hi(y).v<0, xnz=lo(x).v>0||hi(x).v<0; (void)canzero;
    BIN("add",add(x,y),true,a+b) BIN("sub",sub(x,y),true,a-b) BIN("mul",mul(x,y),true,a*b) BIN("div",div(x,y),ynz,a/b)
    BIN("op+",x+y,true,a+b) BIN("op-",x-y,true,a-b) BIN("op*",x*y,true,a*b) BIN("op/",x/y,ynz,a/b)
    { double slack0=slack, slack=std::string(cls)=="Bounds"?slack0:1e30; BIN("max",max(x,y),true,ref::qmax(a,b)) BIN("min",min(x,y),true,ref::qmin(a,b)) } // a ball computes these by a formula that cancels
    { C z=x; BIN("op+=",(z=x,z+=y),true,a+b) BIN("op-=",(z=x,z-=y),true,a-b) BIN("op*=",(z=x,z*=y),true,a*b) BIN("op/=",(z=x,z/=y),ynz,a/b) }
    UN("nul",nul(x),true,Q(0)) UN("pos",pos(x),true,a) UN("neg",neg(x),true,-a) UN("hlf",hlf(x),true,a/2) UN("sqr",sqr(x),true,a*a) UN("rec",rec(x),xnz,1/a)
    UN("op-u",-x,true,-a) UN("op+u",+x,true,a) UN("abs",abs(x),true,ref::abs(a))
    { auto key=K<T>(cls,"mag"); total(key,[&]{ auto m=mag(x); for (auto& a : pa) encloses(key,m,ref::abs(a),in); if (pa.size()==1) ok(key+"/tight",ref::x(m.raw()).kind==0&&ref::x(m.raw()).v<=ref::abs(pa[0])*2,[&]{return in;}); }); }
    { auto key=K<T>(cls,"mig"); total(key,[&]{ auto m=mig(x); for (auto& a : pa) encloses(key,m,ref::abs(a),in); ok(key+"/nonneg",ref::x(m.raw()).kind==0&&ref::x(m.raw()).v>=0,[&]{return in;}); if (pa.size()==1) ok(key+"/tight",ref::x(m.raw()).v*2>=ref::abs(pa[0]),[&]{return in;}); }); }
    { Nat n=Nat(r.below(r.coin(1,4)?20:6)); double s0=slack; double slack_=s0*(n+2); { double slack=slack_; UN("powN",pow(x,n),true,ref::pow(a,long(n))) } }
    { Int n=Int(r.range(-6,6)); double slack_=slack*8; if (n>=0||xnz) { double slack=slack_; UN("powI",pow(x,n),true,ref::pow(a,n)) } }
    // a divisor that may vanish: no finite claim may exclude a possible quotient
    if (!ynz) { auto key=K<T>(cls,"div0"); partial(key,[&]{ auto res=div(x,y); if (lo(res).isnan()||hi(res).isnan()) { vf::note("nan:"+key); return; } for (auto& a : pa) for (auto& b : pb) if (b!=0) encloses(key,res,Q(a/b),in); }); }
    if (!xnz) { auto key=K<T>(cls,"rec0"); partial(key,[&]{ auto res=rec(x); if (lo(res).isnan()||hi(res).isnan()) { vf::note("nan:"+key); return; } for (auto& a : pa) if (a!=0) encloses(key,res,Q(1/a),in); });
        key=K<T>(cls,"powI0"); Int n=Int(r.range(-6,-1)); partial(key,[&]{ auto res=pow(x,n); if (lo(res).isnan()||hi(res).isnan()) { vf::note("nan:"+key); return; } for (auto& a : pa) if (a!=0) encloses(key,res,ref::pow(a,n),in); }); }
}
template<class T, class C> static void functions(vf::Rng& r, char const* cls, typename T::PR pr, C const& x, double slack) {
    long bits=T::bits(pr); auto pa=points(r,x,4); if (pa.empty()) return; std::string in=cat("x=",str(x)), shape=shp(lo(x),hi(x)); Q L=lo(x).v, U=hi(x).v, m=ref::qmax(ref::abs(L),ref::abs(U));
    // the operations take the end points of a ball through rounded bounds, which may leave the domain
    Q dl=L-m/1000, du=U+m/1000; if (std::string(cls)=="Bounds") { dl=L; du=U; }
    FN("sqrt",sqrt(x),dl>=0,sqrt) FN("exp",exp(x),m<600,exp) FN("log",log(x),dl>0,log)
    FN("atan",atan(x),true,atan) FN("asin",asin(x),dl>=-1&&du<=1,asin) FN("acos",acos(x),dl>=-1&&du<=1,acos)
    { double slack0=slack; double slack=slack0*1e9; if (m<1000) { FN("sin",sin(x),true,sin) FN("cos",cos(x),true,cos) } }
    if (m<1000) for (char const* f : {"sin","cos"}) { auto key=K<T>(cls,f)+"/range"; partial(key,[&]{ auto y= f[0]=='s'?sin(x):cos(x); X l=lo(y),u=hi(y); ok(key,l.kind==0&&u.kind==0&&l.v>=Q(-2)&&u.v<=Q(2),[&]{return cat(in," gave ",str(y));}); }); }
    // tangent away from its poles (and, where a pole lies in the argument, no finite claim)
    if (m<100) { auto key=K<T>(cls,"tan"); partial(key,[&]{ auto res=tan(x); if (lo(res).isnan()||hi(res).isnan()) { vf::note("nan:"+key); return; } for (auto& a : pa) encloses(key,res,fenc(MPFUN(tan),a,bits+300),in); vf::distinct(cat(key,shape)); }); }
    if (m<1) { auto key=K<T>(cls,"tan-small"); total(key,[&]{ auto res=tan(x); for (auto& a : pa) encloses(key,res,fenc(MPFUN(tan),a,bits+300),in); },[&]{return in;}); }
}
template<class T> static void mixed(vf::Rng& r) { using F=typename T::F; auto pr=T::pr(r); long bits=T::bits(pr); double slack=4; char const* cls="Mixed";
    F f=T::mod(r,pr,20), g=T::mod(r,pr,20); auto x=bounds<T>(r,pr,20); auto b=ball<T>(r,pr,20);
    { std::vector<Q> pa{ref::q(f)}, pb{ref::q(g)}; std::string in=cat("x=",str(f)," y=",str(g)), shape; bool nz=pb[0]!=0, xnz=pa[0]!=0;
      BIN("F+F",f+g,true,a+b) BIN("F-F",f-g,true,a-b) BIN("F*F",f*g,true,a*b) BIN("F/F",f/g,nz,a/b) BIN("add(F,F)",add(f,g),true,a+b) BIN("sub(F,F)",sub(f,g),true,a-b) BIN("mul(F,F)",mul(f,g),true,a*b) BIN("div(F,F)",div(f,g),nz,a/b)
      UN("sqr(F)",sqr(f),true,a*a) UN("rec(F)",rec(f),xnz,1/a) { Nat n=Nat(r.below(6)); double slack=40; UN("pow(F,N)",pow(f,n),true,ref::pow(a,n)) } { Int n=Int(r.range(-4,4)); double slack=40; if (n>=0||xnz) UN("pow(F,I)",pow(f,n),true,ref::pow(a,n)) }
      FN("sqrt(F)",sqrt(f),pa[0]>=0,sqrt) FN("exp(F)",exp(f),ref::abs(pa[0])<600,exp) FN("log(F)",log(f),pa[0]>0,log) FN("atan(F)",atan(f),true,atan) { double slack=1e12; FN("sin(F)",sin(f),ref::abs(pa[0])<1000,sin) FN("cos(F)",cos(f),ref::abs(pa[0])<1000,cos) }
      // a ball with its own error precision
      if constexpr (!T::isdp) { BIN("add(F,F,pre)",add(f,g,dp),true,a+b) BIN("sub(F,F,pre)",sub(f,g,dp),true,a-b) BIN("mul(F,F,pre)",mul(f,g,dp),true,a*b) BIN("div(F,F,pre)",div(f,g,dp),nz,a/b) } }
    { auto pa=points(r,x); std::vector<Q> pb{ref::q(f)}; std::string in=cat("x=",str(x)," y=",str(f)), shape=shp(lo(x),hi(x)); bool nz=pb[0]!=0, xnz=lo(x).v>0||hi(x).v<0;
      BIN("B+F",x+f,true,a+b) BIN("B-F",x-f,true,a-b) BIN("B*F",x*f,true,a*b) BIN("B/F",x/f,nz,a/b) BIN("F+B",f+x,true,a+b) BIN("F-B",f-x,true,b-a) BIN("F*B",f*x,true,b*a) BIN("F/B",f/x,xnz,b/a)
      BIN("add(B,F)",add(x,f),true,a+b) BIN("sub(F,B)",sub(f,x),true,b-a) BIN("mul(B,F)",mul(x,f),true,a*b) BIN("div(F,B)",div(f,x),xnz,b/a) BIN("max(B,F)",max(x,f),true,ref::qmax(a,b)) BIN("min(F,B)",min(f,x),true,ref::qmin(a,b)) }
    { auto pa=points(r,b); std::vector<Q> pb{ref::q(f)}; std::string in=cat("x=",str(b)," y=",str(f)), shape=shp(lo(b),hi(b)); bool nz=pb[0]!=0, xnz=lo(b).v>0||hi(b).v<0; slack=8; auto& bb=b; double slack_=slack; (void)slack_;
      auto const& x=bb; auto pbb=pb; (void)pbb;
      BIN("Ball+F",x+f,true,a+b) BIN("Ball-F",x-f,true,a-b) BIN("Ball*F",x*f,true,a*b) BIN("Ball/F",x/f,nz,a/b) BIN("F+Ball",f+x,true,a+b) BIN("F-Ball",f-x,true,b-a) BIN("F*Ball",f*x,true,b*a) BIN("F/Ball",f/x,xnz,b/a)
      slack=1e30; BIN("max(Ball,F)",max(x,f),true,ref::qmax(a,b)) BIN("min(F,Ball)",min(f,x),true,ref::qmin(a,b)) }
    // exact numbers of other kinds as one operand
    { auto pa=points(r,x); Q yq=r.coin()?ref::rrat(r,40):Q(r.range(-9,9)); Rational y=ref::rational(yq); std::vector<Q> pb{yq}; std::string in=cat("x=",str(x)," y=",ref::str(yq)), shape; bool nz=yq!=0, xnz=lo(x).v>0||hi(x).v<0; slack=8; bool sm=ref::abs(yq)<ref::pow(Q(2),60)&&(yq==0||ref::abs(yq)>ref::pow(Q(2),-60));
      BIN("B+Q",x+y,sm,a+b) BIN("B-Q",x-y,sm,a-b) BIN("B*Q",x*y,sm,a*b) BIN("B/Q",x/y,nz&&sm,a/b) BIN("Q+B",y+x,sm,a+b) BIN("Q-B",y-x,sm,b-a) BIN("Q*B",y*x,sm,a*b) BIN("Q/B",y/x,xnz&&sm,b/a)
      Int n=Int(r.range(-20,20)); pb[0]=Q(n); in=cat("x=",str(x)," n=",n); BIN("B+I",x+n,true,a+b) BIN("B-I",x-n,true,a-b) BIN("B*I",x*n,true,a*b) BIN("B/I",x/n,n!=0,a/b) BIN("I-B",n-x,true,b-a) BIN("I/B",n/x,xnz,b/a) } }
VF_SCENARIO(mixed_dp,3) { mixed<TDP>(r); }
VF_SCENARIO(mixed_mp,2) { mixed<TMP>(r); }

template<class T> static void bnd(vf::Rng& r) { using F=typename T::F; auto pr=T::pr(r); auto x=bounds<T>(r,pr,20), y=bounds<T>(r,pr,20); if (r.coin(1,8)) y=x; arith<T>(r,"Bounds",pr,x,y,4,true);
    auto z=bounds<T>(r,pr,20); auto key=K<T>("Bounds","fma"); total(key,[&]{ auto res=fma(x,y,z); for (auto& a:points(r,x)) for (auto& b:points(r,y)) for (auto& c:points(r,z,1)) encloses(key,res,Q(a*b+c),cat("x=",str(x)," y=",str(y)," z=",str(z))); });
    auto w=bounds<T>(r,pr,int(r.pick({1,2,3,8}))); functions<T>(r,"Bounds",pr,w,4);
    // arguments just beside the extrema and poles of the circular functions
    { ref::M p(400); mpfr_const_pi(p.m,MPFR_RNDN); Q h=ref::q(p.m)/2*Q(r.range(-12,12)); F a=T::of(h,pr); Q wd=r.coin()?Q(0):Q(ref::pow(Q(2),-long(r.range(0,60)))); F l=T::of(Q(ref::q(a)-wd*Q(r.range(0,3))),pr), u=T::of(Q(ref::q(a)+wd*Q(r.range(0,3))),pr); if (ref::q(l)<=ref::q(u)) functions<T>(r,"Bounds",pr,Bounds<F>(l,u),1e30); } }
VF_SCENARIO(bounds_dp,6) { bnd<TDP>(r); }
VF_SCENARIO(bounds_mp,5) { bnd<TMP>(r); }
template<class T> static void bll(vf::Rng& r) { auto pr=T::pr(r); auto x=ball<T>(r,pr,20), y=ball<T>(r,pr,20); arith<T>(r,"Ball",pr,x,y,16,false); auto w=ball<T>(r,pr,int(r.pick({1,2,3,8}))); functions<T>(r,"Ball",pr,w,16); }
VF_SCENARIO(ball_dp,4) { bll<TDP>(r); }
VF_SCENARIO(ball_mp,3) { bll<TMP>(r); }
// balls whose error is kept in double precision
VF_SCENARIO(ball_mpdp,2) { using T=TMP; auto pr=T::pr(r); auto mk=[&](int e){ auto b=ball<T>(r,pr,e); return Ball<FloatMP,FloatDP>(b._v,FloatDP(Dyadic(b._e),up,dp)); }; auto x=mk(20), y=mk(20); arith<T>(r,"MPDPBall",pr,x,y,16,false); functions<T>(r,"MPDPBall",pr,mk(int(r.pick({1,2,3}))),16); }

// order information: conversions, refinement, membership
template<class T> static void relate(vf::Rng& r) { using F=typename T::F; auto pr=T::pr(r); auto x=bounds<T>(r,pr,6), y=bounds<T>(r,pr,6); if (r.coin(1,3)) { F l=ref::q(y._l)>=ref::q(x._l)?y._l:x._l; F u=ref::q(y._u)<=ref::q(x._u)?y._u:x._u; if (ref::q(l)<=ref::q(u)) y=Bounds<F>(l,u); } F f=r.coin()?T::mod(r,pr,6):x._l;
    Q xl=ref::q(x._l), xu=ref::q(x._u), yl=ref::q(y._l), yu=ref::q(y._u), v=ref::q(f); std::string in=cat("x=",str(x)," y=",str(y)," v=",ref::str(v)); std::string n=T::name();
    total(n+"Bounds/relations",[&]{
        ok(n+"Bounds/models",models(x,f)==(xl<=v&&v<=xu),[&]{return in;}); ok(n+"Bounds/consistent",consistent(x,y)==(xl<=yu&&yl<=xu),[&]{return in;}); ok(n+"Bounds/inconsistent",inconsistent(x,y)==(xl>yu||yl>xu),[&]{return in;});
        ok(n+"Bounds/refines",refines(x,y)==(xl>=yl&&xu<=yu),[&]{return in;}); ok(n+"Bounds/same",same(x,y)==(xl==yl&&xu==yu),[&]{return in;});
        if (xl<=yu&&yl<=xu) { auto z=refinement(x,y); ok(n+"Bounds/refinement",ref::q(z._l)==ref::qmax(xl,yl)&&ref::q(z._u)==ref::qmin(xu,yu),[&]{return cat(in," gave ",str(z));}); }
        auto z=coarsening(x,y); ok(n+"Bounds/coarsening",ref::q(z._l)==ref::qmin(xl,yl)&&ref::q(z._u)==ref::qmax(xu,yu),[&]{return cat(in," gave ",str(z));});
        // centre and error cover the bounds
        Q c=ref::q(x.value()), e=ref::q(x.error().raw()); ok(n+"Bounds/value-error",c-e<=xl&&c+e>=xu&&c>=xl&&c<=xu,[&]{return cat(in," value ",ref::str(c)," error ",ref::str(e));});
        Q c2=ref::q(x.value_raw()), e2=ref::q(x.error_raw()); ok(n+"Bounds/value_raw-error_raw",c2-e2<=xl&&c2+e2>=xu,[&]{return cat(in," value ",ref::str(c2)," error ",ref::str(e2));});
        ok(n+"Bounds/lower-upper",ref::q(x.lower().raw())<=xl&&ref::q(x.upper().raw())>=xu&&ref::q(x.lower_raw())==xl&&ref::q(x.upper_raw())==xu,[&]{return in;});
        Ball<F> b(x); ok(n+"Ball(Bounds)",lo(b).v<=xl&&hi(b).v>=xu,[&]{return cat(in," gave ",str(b));});
        Bounds<F> bb(b); ok(n+"Bounds(Ball)",ref::q(bb._l)<=lo(b).v&&ref::q(bb._u)>=hi(b).v,[&]{return cat(str(b)," gave ",str(bb));});
        ok(n+"Ball/lower-upper",ref::q(b.lower().raw())<=lo(b).v&&ref::q(b.upper().raw())>=hi(b).v&&ref::q(b.lower_raw())<=lo(b).v&&ref::q(b.upper_raw())>=hi(b).v,[&]{return cat(str(b));});
        UpperBound<F> ub(b); LowerBound<F> lb(b); ok(n+"Upper,Lower(Ball)",ref::q(ub.raw())>=hi(b).v&&ref::q(lb.raw())<=lo(b).v,[&]{return str(b);});
        UpperBound<F> ux(x); LowerBound<F> lx(x); ok(n+"Upper,Lower(Bounds)",ref::q(ux.raw())==xu&&ref::q(lx.raw())==xl,[&]{return in;});
        Approximation<F> ax(x); Q aq=ref::q(ax.raw()); ok(n+"Approximation(Bounds)",aq>=xl&&aq<=xu,[&]{return in;});
        Error<F> e3(T::of(ref::abs(v),pr)); auto p=x.pm(e3); ok(n+"Bounds/pm",ref::q(p._l)<=xl-ref::abs(v)&&ref::q(p._u)>=xu+ref::abs(v),[&]{return cat(in," gave ",str(p));});
        auto pp=pm(e3); ok(n+"Error/pm",ref::q(pp._l)==-ref::abs(v)&&ref::q(pp._u)==ref::abs(v),[&]{return in;});
        auto rd=round(x); ok(n+"Bounds/round",ref::q(rd._l)==Q(ref::floor(ref::q(rd._l)))&&ref::abs(ref::q(rd._l)-xl)<=Q(1,2)&&ref::abs(ref::q(rd._u)-xu)<=Q(1,2),[&]{return cat(in," gave ",str(rd));});
        auto eq=x.error(); (void)eq;
        // changing precision
        if constexpr (!T::isdp) { MultiplePrecision p2(mpfr_prec_t(r.pick({10l,20l,40l,53l,64l,200l}))); Bounds<F> y2(x,p2); ok(n+"Bounds(x,pr)",ref::q(y2._l)<=xl&&ref::q(y2._u)>=xu,[&]{return cat(in," gave ",str(y2));});
            Ball<F> b2(b,p2); ok(n+"Ball(x,pr)",lo(b2).v<=lo(b).v&&hi(b2).v>=hi(b).v,[&]{return cat(str(b)," at ",p2.bits()," gave ",str(b2));});
            Bounds<FloatDP> yd(Dyadic(x._l),Dyadic(x._u),dp); (void)yd;
            UpperBound<F> u2(ux,p2); LowerBound<F> l2(lx,p2); ok(n+"Upper,Lower(x,pr)",ref::q(u2.raw())>=xu&&ref::q(l2.raw())<=xl,[&]{return in;}); }
    },[&]{return in;});
    partial(n+"Bounds/trunc",[&]{ auto t=trunc(x); ok(n+"Bounds/trunc",lo(t).kind<=0&&ref::le(lo(t),xl)&&ref::ge(hi(t),xu),[&]{return cat(in," gave ",str(t));}); });
    partial(n+"Bounds/trunc2",[&]{ Nat k=Nat(r.range(1,40)); auto t=trunc(x,k); ok(n+"Bounds/trunc2",ref::le(lo(t),xl)&&ref::ge(hi(t),xu),[&]{return cat(in," gave ",str(t));}); });
    partial(n+"Bounds/cast_integer",[&]{ Integer z=cast_integer(x); ok(n+"Bounds/cast_integer",ref::q(z)>=xl&&ref::q(z)<=xu,[&]{return in;}); });
    { bool has=false; Q z0=Q(ref::ceil(xl)); has=z0<=xu; if (has&&xu-xl>=1) total(n+"Bounds/cast_integer-wide",[&]{ Integer z=cast_integer(x); ok(n+"Bounds/cast_integer-wide",ref::q(z)>=xl&&ref::q(z)<=xu,[&]{return in;}); },[&]{return in;}); }
    auto b=ball<T>(r,pr,6), c=ball<T>(r,pr,6); if (r.coin(1,3)) c=Ball<F>(b._v,c._e); std::string bi=cat("x=",str(b)," y=",str(c)); Q bl=lo(b).v,bu=hi(b).v,cl=lo(c).v,cu=hi(c).v;
    total(n+"Ball/relations",[&]{ ok(n+"Ball/refines",!refines(b,c)||(bl>=cl&&bu<=cu),[&]{return bi;}); ok(n+"Ball/consistent",!consistent(b,c)||(bl<=cu&&cl<=bu),[&]{return bi;}); ok(n+"Ball/inconsistent",!inconsistent(b,c)||(bl>cu||cl>bu),[&]{return bi;});
        ok(n+"Ball/same",same(b,c)==(bl==cl&&bu==cu),[&]{return bi;});
        if (consistent(b,c)) { auto z=refinement(b,c); ok(n+"Ball/refinement",lo(z).v<=ref::qmax(bl,cl)&&hi(z).v>=ref::qmin(bu,cu),[&]{return cat(bi," gave ",str(z));}); }
        auto z=coarsening(b,c); ok(n+"Ball/coarsening",lo(z).v<=ref::qmin(bl,cl)&&hi(z).v>=ref::qmax(bu,cu),[&]{return cat(bi," gave ",str(z));}); });
    partial(n+"Ball/cast_integer",[&]{ Integer z=cast_integer(b); ok(n+"Ball/cast_integer",ref::q(z)>=bl&&ref::q(z)<=bu,[&]{return bi;}); });
    vf::distinct(cat(n,"relate",xl<yl,xu<yu,xl<=yu,yl<=xu,xl<=v,v<=xu)); }
VF_SCENARIO(relate_dp,3) { relate<TDP>(r); }
VF_SCENARIO(relate_mp,2) { relate<TMP>(r); }

// construction from every exact number type encloses the number
template<class T> static void convert(vf::Rng& r) { using F=typename T::F; auto pr=T::pr(r); std::string n=T::name(); long bits=T::bits(pr); char const* cls="From"; double slack=4;
    Q v=ref::rrat(r,r.coin()?60:300); if (ref::abs(v)>ref::pow(Q(2),900)||(v!=0&&ref::abs(v)<ref::pow(Q(2),-900))) v=Q(1,3); Rational q=ref::rational(v); Z zv=ref::rint(r,200); Integer z=ref::integer(zv); Q wv=ref::rdyad(r,150,200); Dyadic w=ref::dyadic(wv); long ten=r.range(0,12); Z dp_=ref::rint(r,60); Decimal d(ref::integer(dp_),Nat(ten)); Q dv=Q(dp_)/ref::pow(Q(10),ten); double xd=ref::rmod(r,30);
#define CONV(NAME,ARG,VAL) { std::vector<Q> pa{Q(VAL)}; std::string in=cat("from ",ref::str(pa[0])," at ",bits), shape; UN(NAME,F1,true,a) }
#define ALLCONV(CL,TYPE) { \
      { std::vector<Q> pa{v}; std::string in=cat("from ",ref::str(v)," at ",bits), shape; UN(CL "(Rational)",(TYPE(q,pr)),true,a) } \
      { std::vector<Q> pa{Q(zv)}; std::string in=cat("from ",zv," at ",bits), shape; UN(CL "(Integer)",(TYPE(z,pr)),true,a) } \
      { std::vector<Q> pa{wv}; std::string in=cat("from ",ref::str(wv)," at ",bits), shape; UN(CL "(Dyadic)",(TYPE(w,pr)),true,a) } \
      { std::vector<Q> pa{dv}; std::string in=cat("from ",ref::str(dv)," at ",bits), shape; UN(CL "(Decimal)",(TYPE(d,pr)),true,a) } }
    ALLCONV("Bounds",Bounds<F>) ALLCONV("Ball",Ball<F>)
    if (bits>=53) { std::vector<Q> pa{ref::q(xd)}; std::string in=cat("from ",xd), shape; UN("Bounds(ExactDouble)",(Bounds<F>(ExactDouble(xd),pr)),true,a) UN("Ball(ExactDouble)",(Ball<F>(ExactDouble(xd),pr)),true,a) }
    if constexpr (!T::isdp) { slack=1e9; { std::vector<Q> pa{v}; std::string in=cat("from ",ref::str(v)," at ",bits), shape; UN("MPDPBall(Rational)",(Ball<F,FloatDP>(q,pr,dp)),true,a) } { std::vector<Q> pa{wv}; std::string in=cat("from ",ref::str(wv)," at ",bits), shape; UN("MPDPBall(Dyadic)",(Ball<F,FloatDP>(w,pr,dp)),true,a) } }
    // one-sided
#define ONE(CL,TYPE) { auto chk=[&](char const* nm, auto const& x, Q const& val) { std::string key=n+CL+nm; encloses(key,x,val,cat("from ",ref::str(val)," at ",bits)); }; \
      total(n+CL,[&]{ chk("(Rational)",TYPE(q,pr),v); chk("(Integer)",TYPE(z,pr),Q(zv)); chk("(Dyadic)",TYPE(w,pr),wv); chk("(Decimal)",TYPE(d,pr),dv); }); }
    ONE("UpperBound",UpperBound<F>) ONE("LowerBound",LowerBound<F>)
    // pairs
    Q v2=ref::rrat(r,60); if (ref::abs(v2)>ref::pow(Q(2),900)||(v2!=0&&ref::abs(v2)<ref::pow(Q(2),-900))) v2=Q(2,3); Q l=ref::qmin(v,v2), u=ref::qmax(v,v2);
    total(n+"Bounds(q,q)",[&]{ Bounds<F> x(ref::rational(l),ref::rational(u),pr); encloses(n+"Bounds(q,q)",x,l,"lower"); encloses(n+"Bounds(q,q)",x,u,"upper"); });
    Q w2=ref::rdyad(r,150,200); l=ref::qmin(wv,w2); u=ref::qmax(wv,w2); total(n+"Bounds(w,w)",[&]{ Bounds<F> x(ref::dyadic(l),ref::dyadic(u),pr); encloses(n+"Bounds(w,w)",x,l,"lower"); encloses(n+"Bounds(w,w)",x,u,"upper"); });
    // constants
    total(n+"pi",[&]{ Bounds<F> p=Bounds<F>(F::pi(down,pr),F::pi(up,pr)); ref::M m(bits+100); mpfr_const_pi(m.m,MPFR_RNDD); encloses(n+"pi",p,ref::q((mpfr_srcptr)m.m),cat("pi at ",bits)); }); }
VF_SCENARIO(convert_dp,3) { convert<TDP>(r); }
VF_SCENARIO(convert_mp,2) { convert<TMP>(r); }

// one-sided and positive numbers
template<class T> static void onesided(vf::Rng& r) { using F=typename T::F; auto pr=T::pr(r); std::string n=T::name(); using UB=UpperBound<F>; using LB=LowerBound<F>; using PU=PositiveUpperBound<F>; using PL=PositiveLowerBound<F>; using PB=PositiveBounds<F>; using ER=Error<F>;
    F f=T::mod(r,pr,20), g=T::mod(r,pr,20); Q a=ref::q(f), b=ref::q(g); F pf=T::of(ref::abs(a),pr), pg=T::of(ref::abs(b),pr); Q p=ref::abs(a), s=ref::abs(b); std::string in=cat("a=",ref::str(a)," b=",ref::str(b)); long bits=T::bits(pr);
    UB ua(f), ub(g); LB la(f), lb(g); PU pua(pf), pub(pg); PL pla(pf), plb(pg); ER ea(pf), eb(pg); PB ba(pf), bb(pg); Nat m=Nat(r.below(9)); Nat mm=Nat(r.range(1,20));
#define EN(NAME,EXPR,VAL) { std::string key=n+NAME; total(key,[&]{ auto res=EXPR; encloses(key,res,VAL,in); vf::distinct(cat(key,sgn(a),sgn(b))); },[&]{return in;}); }
    EN("Upper/add",add(ua,ub),Q(a+b)) EN("Upper/op+",ua+ub,Q(a+b)) EN("Upper/sub",sub(ua,lb),Q(a-b)) EN("Upper/op-",ua-lb,Q(a-b)) EN("Upper/neg",neg(la),Q(-a)) EN("Upper/op-u",-la,Q(-a)) EN("Upper/hlf",hlf(ua),Q(a/2)) EN("Upper/nul",nul(ua),Q(0)) EN("Upper/pos",pos(ua),a)
    EN("Lower/add",add(la,lb),Q(a+b)) EN("Lower/op+",la+lb,Q(a+b)) EN("Lower/sub",sub(la,ub),Q(a-b)) EN("Lower/op-",la-ub,Q(a-b)) EN("Lower/neg",neg(ua),Q(-a)) EN("Lower/op-u",-ua,Q(-a)) EN("Lower/hlf",hlf(la),Q(a/2)) EN("Lower/nul",nul(la),Q(0)) EN("Lower/pos",pos(la),a)
    { UB u=ua; EN("Upper/op+=",(u=ua,u+=ub),Q(a+b)) LB l=la; EN("Lower/op+=",(l=la,l+=lb),Q(a+b)) EN("Upper/op-=",(u=ua,u-=lb),Q(a-b)) EN("Lower/op-=",(l=la,l-=ub),Q(a-b)) }
    EN("Upper/max",max(ua,ub),ref::qmax(a,b)) EN("Upper/min",min(ua,ub),ref::qmin(a,b)) EN("Lower/max",max(la,lb),ref::qmax(a,b)) EN("Lower/min",min(la,lb),ref::qmin(a,b))
    if (ref::abs(a)<600) { EN("Upper/exp",exp(ua),fenc(MPFUN(exp),a,bits+300)) EN("Lower/exp",exp(la),fenc(MPFUN(exp),a,bits+300)) } EN("Upper/atan",atan(ua),fenc(MPFUN(atan),a,bits+300)) EN("Lower/atan",atan(la),fenc(MPFUN(atan),a,bits+300))
    EN("PUpper/add",add(pua,pub),Q(p+s)) EN("PUpper/mul",mul(pua,pub),Q(p*s)) EN("PUpper/op*",pua*pub,Q(p*s)) EN("PUpper/op+",pua+pub,Q(p+s)) EN("PUpper/sqr",sqr(pua),Q(p*p)) EN("PUpper/powN",pow(pua,m),ref::pow(p,m)) EN("PUpper/sqrt",sqrt(pua),fenc(MPFUN(sqrt),p,bits+300)) EN("PUpper/max",max(pua,pub),ref::qmax(p,s)) EN("PUpper/min",min(pua,pub),ref::qmin(p,s)) EN("PUpper/atan",atan(pua),fenc(MPFUN(atan),p,bits+300))
    EN("PLower/add",add(pla,plb),Q(p+s)) EN("PLower/mul",mul(pla,plb),Q(p*s)) EN("PLower/op*",pla*plb,Q(p*s)) EN("PLower/op+",pla+plb,Q(p+s)) EN("PLower/sqr",sqr(pla),Q(p*p)) EN("PLower/powN",pow(pla,m),ref::pow(p,m)) EN("PLower/sqrt",sqrt(pla),fenc(MPFUN(sqrt),p,bits+300)) EN("PLower/max",max(pla,plb),ref::qmax(p,s)) EN("PLower/min",min(pla,plb),ref::qmin(p,s)) EN("PLower/atan",atan(pla),fenc(MPFUN(atan),p,bits+300))
    if (s!=0) { EN("PUpper/div",div(pua,plb),Q(p/s)) EN("PUpper/op/",pua/plb,Q(p/s)) EN("PUpper/rec",rec(plb),Q(1/s)) EN("PLower/div",div(pla,pub),Q(p/s)) EN("PLower/op/",pla/pub,Q(p/s)) EN("PLower/rec",rec(pub),Q(1/s)) EN("Error/op/PL",ea/plb,Q(p/s)) EN("PUpper/F/",Positive<F>(pf)/plb,Q(p/s)) EN("PLower/F/",Positive<F>(pf)/pub,Q(p/s)) EN("PUpper/op/F",pua/Positive<F>(pg),Q(p/s)) EN("PUpper/op/PB",pua/bb,Q(p/s)) EN("Upper/op/PB",ua/bb,Q(a/s)) EN("Lower/op/PB",la/bb,Q(a/s)) EN("PLower/op/PB",pla/bb,Q(p/s)) EN("Upper/op/PF",ua/Positive<F>(pg),Q(a/s)) EN("Lower/op/PF",la/Positive<F>(pg),Q(a/s)) EN("PLower/op/PF",pla/Positive<F>(pg),Q(p/s)) EN("PUpper/log",log(pub),fenc(MPFUN(log),s,bits+300)) EN("PLower/log",log(plb),fenc(MPFUN(log),s,bits+300)) EN("Error/log",log(eb),fenc(MPFUN(log),s,bits+300)) EN("Error/log2",log2(eb),fenc(MPFUN(log2),s,bits+300)) }
    EN("PUpper/PB*",bb*pua,Q(p*s)) EN("Upper/PB*",bb*ua,Q(a*s)) EN("Upper/*PB",ua*bb,Q(a*s)) EN("PUpper/op/N",pua/mm,Q(p/mm)) EN("PLower/op/N",pla/mm,Q(p/mm)) EN("PLower/PB*",bb*pla,Q(p*s)) EN("PLower/*PB",pla*bb,Q(p*s)) EN("Lower/PB*",bb*la,Q(a*s)) EN("Lower/*PB",la*bb,Q(a*s)) EN("Upper/PF*",Positive<F>(pg)*ua,Q(a*s)) EN("Lower/PF*",Positive<F>(pg)*la,Q(a*s)) EN("Upper/*PF",ua*Positive<F>(pg),Q(a*s)) EN("Lower/*PF",la*Positive<F>(pg),Q(a*s)) EN("PUpper/*PF",pua*Positive<F>(pg),Q(p*s)) EN("PLower/*PF",pla*Positive<F>(pg),Q(p*s))
    EN("Error/op+",ea+eb,Q(p+s)) EN("Error/op*",ea*eb,Q(p*s)) EN("Error/add",add(ea,eb),Q(p+s)) EN("Error/mul",mul(ea,eb),Q(p*s)) EN("Error/sqr",sqr(ea),Q(p*p)) EN("Error/pow",pow(ea,m),ref::pow(p,m)) EN("Error/fma",fma(ea,eb,ea),Q(p*s+p)) EN("Error/sqrt",sqrt(ea),fenc(MPFUN(sqrt),p,bits+300)) if (p<600) EN("Error/exp",exp(ea),fenc(MPFUN(exp),p,bits+300)) EN("Error/max",max(ea,eb),ref::qmax(p,s)) EN("Error/min",min(ea,eb),ref::qmin(p,s))
    EN("Error/+N",ea+mm,Q(p+mm)) EN("Error/N+",mm+ea,Q(p+mm)) EN("Error/*N",ea*mm,Q(p*mm)) EN("Error/N*",mm*ea,Q(p*mm)) EN("Error//N",ea/mm,Q(p/mm)) EN("Error/F+",f+ea,Q(a+p)) EN("Error/F-",f-ea,Q(a-p)) EN("Error/+PB",ea+bb,Q(p+s)) EN("Error/*PB",ea*bb,Q(p*s)) EN("Error/+PF",ea+Positive<F>(pg),Q(p+s)) EN("Error/*PF",ea*Positive<F>(pg),Q(p*s)) EN("Error/+PU",ea+pub,Q(p+s)) EN("Error/*PU",ea*pub,Q(p*s))
    { ER e=ea; EN("Error/op+=",(e=ea,e+=eb),Q(p+s)) EN("Error/op*=",(e=ea,e*=eb),Q(p*s)) }
    // positive bounds
    { auto x=bounds<T>(r,pr,12), y=bounds<T>(r,pr,12); if (ref::q(x._l)<0) x=Bounds<F>(T::of(0,pr),T::of(ref::abs(ref::q(x._u)),pr)); if (ref::q(y._l)<0) y=Bounds<F>(T::of(0,pr),T::of(ref::abs(ref::q(y._u)),pr)); PB px(x), py(y); auto pa=points(r,x), pb=points(r,y); char const* cls="PBounds"; double slack=4; std::string in=cat("x=",str(x)," y=",str(y)), shape=shp(lo(x),hi(x))+shp(lo(y),hi(y)); bool ynz=lo(y).v>0, xnz=lo(x).v>0;
      BIN("add",add(px,py),true,a+b) BIN("mul",mul(px,py),true,a*b) BIN("div",div(px,py),ynz,a/b) BIN("max",max(px,py),true,ref::qmax(a,b)) BIN("min",min(px,py),true,ref::qmin(a,b)) UN("hlf",hlf(px),true,a/2) UN("sqr",sqr(px),true,a*a) UN("rec",rec(px),xnz,1/a) UN("abs",abs(px),true,a) { double slack=60; UN("powN",pow(px,m),true,ref::pow(a,m)) } FN("sqrt",sqrt(px),true,sqrt) FN("atan",atan(px),true,atan)
      { for (auto& b_ : pb) { Q aa=ref::q(f); encloses(n+"Upper/*PBw",ua*py,Q(aa*b_),in); encloses(n+"Lower/*PBw",la*py,Q(aa*b_),in); encloses(n+"Upper/PBw*",py*ua,Q(aa*b_),in); encloses(n+"Lower/PBw*",py*la,Q(aa*b_),in); if (ynz) { encloses(n+"Upper/op/PBw",ua/py,Q(aa/b_),in); encloses(n+"Lower/op/PBw",la/py,Q(aa/b_),in); } encloses(n+"Error/*PBw",ea*py,Q(p*b_),in); encloses(n+"Error/+PBw",ea+py,Q(p+b_),in); } }
      BIN("op+",px+py,true,a+b) BIN("op*",px*py,true,a*b) BIN("op/",px/py,ynz,a/b) } }
VF_SCENARIO(onesided_dp,3) { onesided<TDP>(r); }
VF_SCENARIO(onesided_mp,2) { onesided<TMP>(r); }

// histories: expression chains mixing classes keep enclosing the exact value
template<class T> static void chain(vf::Rng& r) { using F=typename T::F; auto pr=T::pr(r); std::string n=T::name(); Q v=ref::q(T::mod(r,pr,3)); Bounds<F> x(ref::rational(v),pr); std::string tr=ref::str(v); int len=int(r.range(3,24));
    for (int i=0;i<len;++i) { Q c=Q(r.range(-30,30))/Q(r.range(1,9)); c.canonicalize(); Rational cc=ref::rational(c); Bounds<F> y(cc,pr); std::string op;
        switch (r.below(9)) { case 0: x=x+y; v=v+c; op="+"; break; case 1: x=x-y; v=v-c; op="-"; break; case 2: x=x*y; v=v*c; op="*"; break; case 3: if (c==0) continue; x=x/y; v=v/c; op="/"; break; case 4: x=Bounds<F>(Ball<F>(x)); op="ball"; break; case 5: x=Bounds<F>(Ball<F>(x)*Ball<F>(y)); v=v*c; op="ball*"; break; case 6: x=hlf(x); v=v/2; op="hlf"; break; case 7: x=max(x,y); v=ref::qmax(v,c); op="max"; break; default: x=abs(x); v=ref::abs(v); op="abs"; break; }
        tr+=" "+op+ref::str(c); if (mpz_sizeinbase(v.get_num_mpz_t(),2)>4000) break; vf::at(n+"chain"); if (!encloses(n+"chain",x,v,tr)) return; }
    if (T::isdp==false||true) vf::sample([&]{return tr.substr(0,300);}); vf::distinct(tr.substr(0,60)); }
VF_SCENARIO(chain_dp,2) { chain<TDP>(r); }
VF_SCENARIO(chain_mp,1) { chain<TMP>(r); }
// operands of different precisions: whatever precision the result has, it encloses
VF_SCENARIO(mixed_precision,2) { using T=TMP; using F=FloatMP; auto p1=T::pr(r), p2=T::pr(r); char const* cls="MixedPrecision"; double slack=1e30; long bits=11; auto tr=[&]{ return 20; }();
    { auto x=bounds<T>(r,p1,tr), y=bounds<T>(r,p2,tr); arith<T>(r,"MixedPrecisionBounds",T::PR(11),x,y,1e30,true); }
    { auto x=ball<T>(r,p1,tr), y=ball<T>(r,p2,tr); arith<T>(r,"MixedPrecisionBall",T::PR(11),x,y,1e30,true); }
    { F f=T::mod(r,p1,20), g=T::mod(r,p2,20); std::vector<Q> pa{ref::q(f)}, pb{ref::q(g)}; std::string in=cat("x=",str(f)," (",p1,") y=",str(g)," (",p2,")"), shape; bool nz=pb[0]!=0; auto x=bounds<T>(r,p1,20); auto b=ball<T>(r,p1,20);
      BIN("F+F",f+g,true,a+b) BIN("F-F",f-g,true,a-b) BIN("F*F",f*g,true,a*b) BIN("F/F",f/g,nz,a/b)
      BIN("max(F,F)",max(f,g),true,ref::qmax(a,b)) BIN("min(F,F)",min(f,g),true,ref::qmin(a,b))
      { pa=points(r,x); in=cat("x=",str(x)," y=",str(g)); BIN("Bounds+F",x+g,true,a+b) BIN("F-Bounds",g-x,true,b-a) BIN("Bounds*F",x*g,true,a*b) BIN("Bounds/F",x/g,nz,a/b) BIN("max(Bounds,F)",max(x,g),true,ref::qmax(a,b)) BIN("min(Bounds,F)",min(x,g),true,ref::qmin(a,b)) }
      { pa=points(r,b); auto const& z=b; in=cat("x=",str(z)," y=",str(g)); BIN("Ball+F",z+g,true,a+b) BIN("F-Ball",g-z,true,b-a) BIN("Ball*F",z*g,true,a*b) BIN("Ball/F",z/g,nz,a/b) } }
    { auto x=bounds<T>(r,p1,20), y=bounds<T>(r,p2,20); auto xq=points(r,x), yq=points(r,y); std::string in=cat(str(x),str(y)); auto c=coarsening(x,y); for (auto& a : xq) encloses("MixedPrecision/coarsening",c,a,in); for (auto& a : yq) encloses("MixedPrecision/coarsening",c,a,in);
      UpperBound<F> ux(x._u), uy(y._u); LowerBound<F> lx(x._l), ly(y._l); Q xu=ref::q(x._u), yu=ref::q(y._u), xl=ref::q(x._l), yl=ref::q(y._l); auto U=[&](char const* n, UpperBound<F> const& u, Q const& v){ ok(cat("MixedPrecision/Upper",n),ref::ge(hi(u),v),[&]{return cat(in," ",str(u)," below ",ref::str(v));}); }; auto L=[&](char const* n, LowerBound<F> const& u, Q const& v){ ok(cat("MixedPrecision/Lower",n),ref::le(lo(u),v),[&]{return cat(in," ",str(u)," above ",ref::str(v));}); };
      U("add",ux+uy,xu+yu); U("sub",ux-ly,xu-yl); U("max",max(ux,uy),ref::qmax(xu,yu)); U("min",min(ux,uy),ref::qmin(xu,yu)); L("add",lx+ly,xl+yl); L("sub",lx-uy,xl-yu); L("max",max(lx,ly),ref::qmax(xl,yl)); L("min",min(lx,ly),ref::qmin(xl,yl)); } (void)bits; (void)slack; }
// every converting constructor that takes a precision
template<class T> static void reprecision(vf::Rng& r) { using F=typename T::F; auto p1=T::pr(r), p2=T::pr(r); std::string n=cat(T::name(),"Convert/"); F f=T::wild(r,p1); auto x=bounds<T>(r,p1,30); auto b=ball<T>(r,p1,30); Q fq=ref::q(f); std::string in=cat("f=",str(f)," x=",str(x)," b=",str(b)," to ",p2);
    total(n,[&]{ auto U=[&](char const* k, auto const& u, Q const& v){ encloses(n+k,u,v,in); };
      U("UpperBound(F,pr)",UpperBound<F>(f,p2),fq); U("LowerBound(F,pr)",LowerBound<F>(f,p2),fq); U("Bounds(F,pr)",Bounds<F>(f,p2),fq); U("UpperBound(Upper,pr)",UpperBound<F>(UpperBound<F>(f),p2),fq); U("LowerBound(Lower,pr)",LowerBound<F>(LowerBound<F>(f),p2),fq);
      U("UpperBound(Bounds,pr)",UpperBound<F>(x,p2),ref::q(x._u)); U("LowerBound(Bounds,pr)",LowerBound<F>(x,p2),ref::q(x._l)); U("UpperBound(Bounds)",UpperBound<F>(x),ref::q(x._u)); U("LowerBound(Bounds)",LowerBound<F>(x),ref::q(x._l)); U("UpperBound(Ball)",UpperBound<F>(b),hi(b).v); U("LowerBound(Ball)",LowerBound<F>(b),lo(b).v);
      for (auto& a : points(r,x)) { U("Bounds(Bounds,pr)",Bounds<F>(x,p2),a); U("Ball(Bounds)",Ball<F>(x),a); } for (auto& a : points(r,b)) { U("Ball(Ball,pr)",Ball<F>(b,p2),a); U("Bounds(Ball)",Bounds<F>(b),a); }
      if (fq>=0) { U("Error(F)",Error<F>(cast_positive(f)),fq); } },[&]{return in;});
    vf::distinct(cat(n,p1,p2)); }
VF_SCENARIO(reprecision_dp,1) { reprecision<TDP>(r); }
VF_SCENARIO(reprecision_mp,2) { reprecision<TMP>(r); }
