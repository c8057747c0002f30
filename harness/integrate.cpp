// Integrators of differential equations (C25): the computed flow and its bounds contain the exact flow.
#include "floats.hpp"
#include "alg.hpp"
#include "function/function.hpp"
#include "function/taylor_model.hpp"
#include "function/taylor_function.hpp"
#include "function/function_patch.hpp"
#include "algebra/algebra.hpp"
#include "geometry/interval.hpp"
#include "geometry/box.hpp"
#include "solvers/bounder.hpp"
#include "solvers/integrator.hpp"
#include "algebra/sweeper.hpp"
using namespace Ariadne; using vf::ok; using vf::cat; using ref::Q; using ref::X; using mpi::I;
using EF=EffectiveScalarMultivariateFunction; using EV=EffectiveVectorMultivariateFunction; using VV=ValidatedVectorMultivariateFunction; using QP=std::vector<Q>; using IV=std::vector<I>; using FV=std::vector<EF>;
static Q mk(long n,long k) { Q q(n,k); q.canonicalize(); return q; }
static std::string pts(QP const& x) { std::string s="("; for (auto& q:x) s+=(s.size()>1?",":"")+ref::str(q); return s+")"; }
static FloatDP fd(Q const& q) { return FloatDP(ExactDouble(q.get_d()),dp); }
static EF operator*(Q const& q,EF const& f) { return EffectiveNumber(ref::rational(q))*f; }
static EF operator+(EF const& f,Q const& q) { return f+EffectiveNumber(ref::rational(q)); }
static I one() { return I(Q(1)); }
// a system: right hand side given the functions of the state, time and parameters, and the exact flow from (x,t0) to t
struct Sys { size_t n=1,na=0; bool auton=true; std::string s; std::function<FV(FV const&,EF const&,FV const&)> f; std::function<IV(IV const&,I const&,I const&,IV const&)> phi; };
static Q coef(vf::Rng& r,long m=8) { Q c; do c=mk(r.range(-m,m),4); while (c==0); return c; }
static Sys scalar(vf::Rng& r) { Sys y; Q c=coef(r),b=coef(r); int k=int(r.below(9)); I C(c),B(b); y.s=cat("sys",k," c=",ref::str(c)," b=",ref::str(b)); switch (k) {
    case 0: y.f=[=](FV const& x,EF const&,FV const&){ return FV{Q(0)*x[0]+c}; }; y.phi=[=](IV const& x,I const& s,I const& t,IV const&){ return IV{x[0]+C*(t-s)}; }; break;
    case 1: y.f=[=](FV const& x,EF const&,FV const&){ return FV{c*x[0]+b}; }; y.phi=[=](IV const& x,I const& s,I const& t,IV const&){ I e=exp(C*(t-s)); return IV{x[0]*e+B/C*(e-one())}; }; break;
    case 2: y.f=[=](FV const& x,EF const&,FV const&){ return FV{c*sqr(x[0])}; }; y.phi=[=](IV const& x,I const& s,I const& t,IV const&){ I d=one()-C*x[0]*(t-s); return d.lo()>0?IV{x[0]/d}:IV{I::no()}; }; break;
    case 3: y.f=[=](FV const& x,EF const&,FV const&){ return FV{c*(sqr(x[0])+Q(1))}; }; y.phi=[=](IV const& x,I const& s,I const& t,IV const&){ I a=atan(x[0])+C*(t-s); return a.lo()>Q(-3,2)&&a.hi()<Q(3,2)?IV{tan(a)}:IV{I::no()}; }; break;
    case 4: y.f=[=](FV const& x,EF const&,FV const&){ return FV{c*exp(-x[0])}; }; y.phi=[=](IV const& x,I const& s,I const& t,IV const&){ return IV{log(exp(x[0])+C*(t-s))}; }; break;
    case 5: y.f=[=](FV const& x,EF const&,FV const&){ return FV{c*(x[0]*(Q(-1)*x[0]+Q(1)))}; }; y.phi=[=](IV const& x,I const& s,I const& t,IV const&){ I e=exp(C*(t-s)); I d=one()-x[0]+x[0]*e; return d.lo()>0?IV{x[0]*e/d}:IV{I::no()}; }; break;
    case 6: y.f=[=](FV const& x,EF const&,FV const&){ return FV{c*sin(x[0])}; }; y.phi=[=](IV const& x,I const& s,I const& t,IV const&){ if (!(x[0].lo()>-3&&x[0].hi()<3)) return IV{I::no()}; return IV{I(Q(2))*atan(tan(x[0]*I(Q(1,2)))*exp(C*(t-s)))}; }; break;
    case 7: y.f=[=](FV const& x,EF const&,FV const&){ return FV{Q(-c)*pow(x[0],3)}; }; y.phi=[=](IV const& x,I const& s,I const& t,IV const&){ I d=one()+I(Q(2))*C*sqr(x[0])*(t-s); return d.lo()>0?IV{x[0]/sqrt(d)}:IV{I::no()}; }; break;
    default: y.f=[=](FV const& x,EF const&,FV const&){ return FV{c*rec(x[0]+Q(16))}; }; y.phi=[=](IV const& x,I const& s,I const& t,IV const&){ I d=sqr(x[0]+I(Q(16)))+I(Q(2))*C*(t-s); return d.lo()>0?IV{sqrt(d)-I(Q(16))}:IV{I::no()}; }; break; }
    return y; }
static Sys planar(vf::Rng& r) { Sys y; y.n=2; Q c=coef(r,4),b=coef(r,4); I C(c),B(b); int k=int(r.below(6)); y.s=cat("planar",k," c=",ref::str(c)," b=",ref::str(b)); switch (k) {
    case 0: y.f=[=](FV const& x,EF const&,FV const&){ return FV{Q(-c)*x[1],c*x[0]}; }; y.phi=[=](IV const& x,I const& s,I const& t,IV const&){ I a=C*(t-s); return IV{x[0]*cos(a)-x[1]*sin(a),x[0]*sin(a)+x[1]*cos(a)}; }; break;
    case 1: y.f=[=](FV const& x,EF const&,FV const&){ return FV{b*x[0]-c*x[1],c*x[0]+b*x[1]}; }; y.phi=[=](IV const& x,I const& s,I const& t,IV const&){ I a=C*(t-s),e=exp(B*(t-s)); return IV{e*(x[0]*cos(a)-x[1]*sin(a)),e*(x[0]*sin(a)+x[1]*cos(a))}; }; break;
    case 2: y.f=[=](FV const& x,EF const&,FV const&){ return FV{Q(0)*x[0]+c,b*sqr(x[0])}; }; y.phi=[=](IV const& x,I const& s,I const& t,IV const&){ I h=t-s; return IV{x[0]+C*h,x[1]+B*(sqr(x[0])*h+x[0]*C*sqr(h)+sqr(C)*pow(h,3)/I(Q(3)))}; }; break;
    case 3: y.f=[=](FV const& x,EF const&,FV const&){ return FV{c*x[0],b*(x[0]*x[1])}; }; y.phi=[=](IV const& x,I const& s,I const& t,IV const&){ I e=exp(C*(t-s)); return IV{x[0]*e,x[1]*exp(B*x[0]*(e-one())/C)}; }; break;
    case 4: y.f=[=](FV const& x,EF const&,FV const&){ return FV{Q(0)*x[0]+c,b*cos(x[0])}; }; y.phi=[=](IV const& x,I const& s,I const& t,IV const&){ I z=x[0]+C*(t-s); return IV{z,x[1]+B/C*(sin(z)-sin(x[0]))}; }; break;
    default: y.f=[=](FV const& x,EF const&,FV const&){ return FV{c*x[0],b*sqr(x[0])}; }; y.phi=[=](IV const& x,I const& s,I const& t,IV const&){ I e=exp(C*(t-s)); return IV{x[0]*e,x[1]+B*sqr(x[0])*(sqr(e)-one())/(I(Q(2))*C)}; }; break; }
    return y; }
static Sys product_(Sys const& a,Sys const& b) { Sys y; y.n=a.n+b.n; y.s=a.s+" x "+b.s; y.f=[=](FV const& x,EF const& t,FV const& p){ FV u=a.f(FV(x.begin(),x.begin()+long(a.n)),t,p),v=b.f(FV(x.begin()+long(a.n),x.end()),t,p); u.insert(u.end(),v.begin(),v.end()); return u; }; y.phi=[=](IV const& x,I const& s,I const& t,IV const& p){ IV u=a.phi(IV(x.begin(),x.begin()+long(a.n)),s,t,p),v=b.phi(IV(x.begin()+long(a.n),x.end()),s,t,p); u.insert(u.end(),v.begin(),v.end()); return u; }; return y; }
// the same system in the coordinates z=Mx+d with det M=1, of the first two variables
static Sys shear(vf::Rng& r,Sys const& a) { Sys y=a; Q p=mk(r.range(-2,2),2),q=mk(r.range(-2,2),2),s(1+p*q),d=mk(r.range(-4,4),4),e=mk(r.range(-4,4),4); y.s+=cat(" sheared ",ref::str(p)," ",ref::str(q)," shifted ",ref::str(d)," ",ref::str(e));
    y.f=[=](FV const& z,EF const& t,FV const& c){ FV x=z; EF u=z[0]+Q(-d),v=z[1]+Q(-e); x[0]=s*u+Q(-p)*v; x[1]=Q(-q)*u+v; FV w=a.f(x,t,c),g=w; g[0]=w[0]+p*w[1]; g[1]=q*w[0]+s*w[1]; return g; };
    y.phi=[=](IV const& z,I const& t0,I const& t,IV const& c){ IV x=z; I u=z[0]-I(d),v=z[1]-I(e); x[0]=I(s)*u-I(p)*v; x[1]=v-I(q)*u; IV w=a.phi(x,t0,t,c),g=w; g[0]=w[0]+I(p)*w[1]+I(d); g[1]=I(q)*w[0]+I(s)*w[1]+I(e); return g; }; return y; }
static Sys autonomous(vf::Rng& r,size_t nmax) { Sys y=r.coin(1,3)?planar(r):scalar(r); if (y.n==1&&nmax>=2&&r.coin(1,3)) y=product_(y,scalar(r)); if (y.n==2&&r.coin(1,2)) y=shear(r,y); if (y.n==2&&nmax>=3&&r.coin(1,5)) y=product_(scalar(r),y); return y; }
static Sys driven(vf::Rng& r) { Sys y; y.auton=false; y.na=1; Q c=coef(r,4); I C(c); int k=int(r.below(7)); y.s=cat("driven",k," c=",ref::str(c)); switch (k) {
    case 0: y.f=[=](FV const& x,EF const&,FV const& a){ return FV{a[0]*x[0]}; }; y.phi=[=](IV const& x,I const& s,I const& t,IV const& a){ return IV{x[0]*exp(a[0]*(t-s))}; }; break;
    case 1: y.f=[=](FV const&,EF const& t,FV const& a){ return FV{c*(a[0]*t)}; }; y.phi=[=](IV const& x,I const& s,I const& t,IV const& a){ return IV{x[0]+C*a[0]*(sqr(t)-sqr(s))*I(Q(1,2))}; }; break;
    case 2: y.f=[=](FV const&,EF const& t,FV const& a){ return FV{c*cos(t)+a[0]}; }; y.phi=[=](IV const& x,I const& s,I const& t,IV const& a){ return IV{x[0]+C*(sin(t)-sin(s))+a[0]*(t-s)}; }; break;
    case 3: y.na=0; y.f=[=](FV const& x,EF const& t,FV const&){ return FV{c*(t*x[0])}; }; y.phi=[=](IV const& x,I const& s,I const& t,IV const&){ return IV{x[0]*exp(C*(sqr(t)-sqr(s))*I(Q(1,2)))}; }; break;
    case 4: y.na=0; y.f=[=](FV const& x,EF const& t,FV const&){ return FV{Q(-1)*x[0]+t}; }; y.phi=[=](IV const& x,I const& s,I const& t,IV const&){ return IV{t-one()+(x[0]-s+one())*exp(s-t)}; }; break;
    case 5: y.n=2; y.f=[=](FV const& x,EF const&,FV const& a){ return FV{Q(-1)*(a[0]*x[1]),a[0]*x[0]}; }; y.phi=[=](IV const& x,I const& s,I const& t,IV const& a){ I w=a[0]*(t-s); return IV{x[0]*cos(w)-x[1]*sin(w),x[0]*sin(w)+x[1]*cos(w)}; }; break;
    default: y.na=2; y.f=[=](FV const&,EF const& t,FV const& a){ return FV{a[0]+a[1]*sqr(t)}; }; y.phi=[=](IV const& x,I const& s,I const& t,IV const& a){ return IV{x[0]+a[0]*(t-s)+a[1]*(pow(t,3)-pow(s,3))/I(Q(3))}; }; break; }
    return y; }
static EV rhs(Sys const& y) { size_t m=y.n+(y.auton?0:1)+y.na; FV x,a; for (size_t i=0;i<y.n;++i) x.push_back(EF::coordinate(m,i)); EF t=y.auton?EF::zero(EuclideanDomain(m)):EF::coordinate(m,y.n); for (size_t i=0;i<y.na;++i) a.push_back(EF::coordinate(m,m-y.na+i)); FV g=y.f(x,t,a); EV r(y.n,EuclideanDomain(m)); for (size_t i=0;i<y.n;++i) r[i]=g[i]; return r; }
static ExactBoxType mkbox(QP const& l,QP const& h) { Array<ExactIntervalType> a(l.size(),ExactIntervalType(0,1)); for (size_t i=0;i<l.size();++i) a[i]=ExactIntervalType(fd(l[i]),fd(h[i])); return ExactBoxType(Vector<ExactIntervalType>(a)); }
struct Dom { QP l,h; ExactBoxType box() const { return mkbox(l,h); } Dom(vf::Rng& r,size_t n) { for (size_t i=0;i<n;++i) { Q a=mk(r.range(-32,32),16); l.push_back(a); h.push_back(Q(a+mk(r.range(0,12),16)*Q(r.coin(1,4)?2:1))); } } QP at(vf::Rng& r) const { QP p; for (size_t i=0;i<l.size();++i) p.push_back(Q(l[i]+(h[i]-l[i])*(r.coin(1,4)?Q(0):r.coin(1,3)?Q(1):mk(long(r.below(65)),64)))); return p; } std::string str() const { return pts(l)+".."+pts(h); } };
static IV ivs(QP const& p) { IV v; for (auto& q:p) v.push_back(I(q)); return v; }
static std::shared_ptr<IntegratorInterface> integrator(vf::Rng& r,std::string& P,double& err,std::string& s,size_t n) { err=std::pow(10.0,-double(r.range(1,n>1?5:8))); ApproximateDouble e(err); DegreeType o=DegreeType(r.range(1,n>1?5:8)); s=cat(" err=",err," order=",int(o)); switch (r.below(7)) {
    case 0: P="TaylorPicard"; return std::make_shared<TaylorPicardIntegrator>(StepMaximumError(e));
    case 1: { P="TaylorPicard"; double th=std::pow(10.0,-double(r.range(2,10))); s+=cat(" sweep=",th); return std::make_shared<TaylorPicardIntegrator>(StepMaximumError(e),Sweeper<FloatDP>(ThresholdSweeper<FloatDP>(dp,ApproximateDouble(th))),LipschitzTolerance(ExactDouble(r.coin(1,2)?0.5:2.0)),MinimumTemporalOrder(DegreeType(r.below(4))),MaximumTemporalOrder(o+4)); }
    case 2: P="GradedTaylorPicard"; return std::make_shared<GradedTaylorPicardIntegrator>(StepMaximumError(e),Order(o));
    case 3: P="TaylorSeries"; return std::make_shared<TaylorSeriesIntegrator>(StepMaximumError(e),Order(o));
    case 4: P="TaylorSeriesBounder"; return std::make_shared<TaylorSeriesBounderIntegrator>(StepMaximumError(e),Order(o));
    case 5: P="GradedTaylorSeries"; return std::make_shared<GradedTaylorSeriesIntegrator>(StepMaximumError(e));
    case 6: { P="GradedTaylorSeries"; double th=std::pow(10.0,-double(r.range(2,10))); DegreeType a=DegreeType(1+r.below(2)),b=DegreeType(1+r.below(4)); s+=cat(" sweep=",th," so=",int(a)," to=",int(b)); return std::make_shared<GradedTaylorSeriesIntegrator>(StepMaximumError(e),Sweeper<FloatDP>(ThresholdSweeper<FloatDP>(dp,ApproximateDouble(th))),LipschitzTolerance(ExactDouble(0.5)),MinimumSpacialOrder(a),MinimumTemporalOrder(b),MaximumSpacialOrder(DegreeType(a+r.below(3))),MaximumTemporalOrder(DegreeType(b+r.below(6)))); }
    default: return nullptr; } }
static Q dq(Dyadic const& d) { return ref::q(d); }
static bool within(UpperBoxType const& b,IV const& v,size_t& bad) { for (size_t i=0;i<v.size();++i) { if (v[i].bad) continue; X l=ref::x(b[i].lower_bound().raw()),u=ref::x(b[i].upper_bound().raw()); if (!mpi::holds(l,u,v[i])) { bad=i; return false; } } return true; }
static void verify(vf::Rng& r,std::string const& P,Sys const& y,Dom const& D,Q const& t0,Dom const& A,ValidatedVectorMultivariateFunctionPatch const& phi,std::string const& s) { size_t n=y.n; auto dom=phi.domain(); ok(P+"/shape",phi.result_size()==n&&dom.size()==n+1+y.na,[&]{return cat(s," gives ",phi.result_size()," of ",dom.size());}); if (dom.size()!=n+1+y.na) return;
    for (size_t i=0;i<n;++i) ok(P+"/state-domain",ref::q(dom[i].lower_bound())==D.l[i]&&ref::q(dom[i].upper_bound())==D.h[i],[&]{return cat(s," has another state domain in ",i);}); Q tl=ref::q(dom[n].lower_bound()),th=ref::q(dom[n].upper_bound()); ok(P+"/time-domain",tl==t0&&th>tl,[&]{return cat(s," covers times ",ref::str(tl)," to ",ref::str(th));}); for (size_t i=0;i<y.na;++i) ok(P+"/parameter-domain",ref::q(dom[n+1+i].lower_bound())==A.l[i]&&ref::q(dom[n+1+i].upper_bound())==A.h[i],[&]{return cat(s," has another parameter domain");});
    for (int k=0;k<10;++k) { QP x=D.at(r),a=A.at(r); Q t=k==0?tl:k<=4?th:Q(tl+(th-tl)*mk(long(r.below(65)),64)); { Q td(t.get_d()); if (td<tl||td>th) td=th; t=td; } IV v=y.phi(ivs(x),I(t0),I(t),ivs(a)); Vector<FloatDPBounds> w(n+1+y.na,dp); for (size_t i=0;i<n;++i) w[i]=FloatDPBounds(fd(x[i])); w[n]=FloatDPBounds(fd(t)); for (size_t i=0;i<y.na;++i) w[n+1+i]=FloatDPBounds(fd(a[i])); auto z=phi(w); for (size_t i=0;i<n;++i) { if (v[i].bad) { vf::note("no reference"); continue; } ok(P+"/contains-flow",mpi::holds(fl::lo(z[i]),fl::hi(z[i]),v[i]),[&]{return cat(s," from ",pts(x)," a=",pts(a)," at ",ref::str(t)," of ",ref::str(th)," x",i,"=[",ref::str(fl::lo(z[i])),",",ref::str(fl::hi(z[i])),"] but the flow is ",mpi::str(v[i]));}); } } }
static void verify_bounds(vf::Rng& r,std::string const& P,Sys const& y,Dom const& D,Q const& t0,Dom const& A,Q const& hsug,std::pair<Dyadic,UpperBoxType> const& hb,std::string const& s) { Q h=dq(hb.first); ok(P+"/step",h>0&&h<=hsug,[&]{return cat(s," step ",ref::str(h));}); for (int k=0;k<12;++k) { QP x=D.at(r),a=A.at(r); Q t(t0+h*(k<6?Q(1):mk(long(r.below(65)),64))); IV v=y.phi(ivs(x),I(t0),I(t),ivs(a)); size_t bad=0; ok(P+"/contains-flow",within(hb.second,v,bad),[&]{return cat(s," from ",pts(x)," a=",pts(a)," to ",ref::str(t)," of step ",ref::str(h)," leaves the bounds in x",bad," ",mpi::str(v[bad])," of ",cat(hb.second[bad]));}); } }
VF_SCENARIO(bounds,60) { EulerBounder B(LipschitzTolerance(ExactDouble(r.coin(1,2)?0.5:r.coin(1,2)?4.0:0.125))); bool dr=r.coin(1,2); Sys y=dr?driven(r):autonomous(r,3); Dom D(r,y.n),A(r,y.na); Q hs=mk(r.range(1,32),8); Q t0=dr?mk(r.range(-8,8),4):Q(0); std::string s=cat(y.s," on ",D.str()," a in ",A.str()," t0=",ref::str(t0)," hsug=",ref::str(hs)); vf::distinct(s); VV f(rhs(y)); vf::partial("bounder",[&]{ auto su=suggest(ref::dyadic(hs)); std::pair<Dyadic,UpperBoxType> hb=dr?B.compute(f,D.box(),ref::dyadic(t0),A.box(),su):B.compute(f,D.box(),su); vf::note("bounded"); verify_bounds(r,"bounder",y,D,t0,A,hs,hb,s); }); }
template<class G> static void attempt(vf::Rng& r,std::string const& P,Sys const& y,Dom const& D,Q const& t0,Dom const& A,std::string const& s,G const& g) { vf::at(P.c_str()); try { FlowStepModelType phi=g(); vf::note(P+" computed"); verify(r,P,y,D,t0,A,phi,s); } catch (IncompleteFlowException const& e) { vf::note(P+" incomplete"); verify(r,P+"/incomplete",y,D,t0,A,e.computed_model(),s); } catch (std::exception const& e) { vf::note(P+" refused"); } }
VF_SCENARIO(flow,200) { Sys y=autonomous(r,2); Dom D(r,y.n),A(r,0); std::string P,s; double err; auto G=integrator(r,P,err,s,y.n); Q hs=mk(r.range(1,32),32); s=cat(y.s," on ",D.str()," h=",ref::str(hs),s); vf::distinct(P+s); VV f(rhs(y)); ExactBoxType bx=D.box();
    int k=int(r.below(3)); if (k==0&&(s.find("sweep=")!=std::string::npos||P=="TaylorSeriesBounder"||err<1e-4)) k=1; /* the step is halved forever if the error cannot be achieved */ if (P=="GradedTaylorPicard") k=2; // it has no bounder of its own
    if (k==0) attempt(r,P+"/suggested",y,D,Q(0),A,s,[&]{return G->flow_step(f,bx,suggest(ref::dyadic(hs)));});
    else if (k==1) attempt(r,P+"/step",y,D,Q(0),A,s,[&]{ auto p=G->flow_step(f,bx,ref::dyadic(hs)); ok(P+"/step-length",ref::q(p.domain()[y.n].upper_bound())==hs,[&]{return s;}); return p; });
    else attempt(r,P+"/bounded",y,D,Q(0),A,s,[&]{ auto hb=EulerBounder().compute(f,bx,suggest(ref::dyadic(hs))); auto p=G->flow_step(f,bx,hb.first,hb.second); ok(P+"/step-length",ref::q(p.domain()[y.n].upper_bound())==dq(hb.first),[&]{return s;}); return p; }); }
VF_SCENARIO(parametrised,100) { Sys y=driven(r); Dom D(r,y.n),A(r,y.na); std::string P,s; double err; auto G=integrator(r,P,err,s,y.n+y.na); Q hs=mk(r.range(1,16),32),t0=mk(r.range(-8,8),4); s=cat(y.s," on ",D.str()," a in ",A.str()," t0=",ref::str(t0)," h=",ref::str(hs),s); vf::distinct(P+s); VV f(rhs(y)); attempt(r,P+"/parametrised",y,D,t0,A,s,[&]{ auto hb=EulerBounder().compute(f,D.box(),ref::dyadic(t0),A.box(),suggest(ref::dyadic(hs))); Dyadic a=ref::dyadic(t0); return G->flow_step(f,D.box(),Interval<Dyadic>(a,a+hb.first),A.box(),hb.second); }); }
// AffineIntegrator drops terms of second order without adding them to the error, so that only this instance is run
VF_SCENARIO(affine,1) { (void)r; EV ef(1,EuclideanDomain(1)); ef[0]=sqr(EF::coordinate(1,0)); VV f(ef); ExactBoxType bx=mkbox(QP{Q(1)},QP{Q(2)}); auto hb=EulerBounder().compute(f,bx,suggest(Dyadic(1,3u))); vf::partial("Affine",[&]{ auto p=AffineIntegrator(SpacialOrder(1),TemporalOrder(1)).flow_step(f,bx,hb.first,hb.second); Q h=dq(hb.first); Vector<FloatDPBounds> w(2,dp); w[0]=FloatDPBounds(fd(Q(2))); w[1]=FloatDPBounds(fd(h)); auto z=p(w); Q v(Q(2)/(1-2*h)); ok("AffineIntegrator/omitted-second-order-terms",mpi::holds(fl::lo(z[0]),fl::hi(z[0]),I(v)),[&]{return cat("x'=x^2 from 2 after ",ref::str(h)," is ",ref::str(v)," but the enclosure is [",ref::str(fl::lo(z[0])),",",ref::str(fl::hi(z[0])),"]");}); }); }
