// Constraint solving and optimisation (C26): no contractor removes a solution, and every verdict on feasibility is true.
#include "floats.hpp"
#include "alg.hpp"
#include "function/function.hpp"
#include "function/procedure.hpp"
#include "function/taylor_model.hpp"
#include "function/taylor_function.hpp"
#include "algebra/algebra.hpp"
#include "algebra/matrix.hpp"
#include "geometry/interval.hpp"
#include "geometry/box.hpp"
#include "geometry/point.hpp"
#include "function/constraint.hpp"
#include "solvers/constraint_solver.hpp"
#include "solvers/linear_programming.hpp"
#include "solvers/nonlinear_programming.hpp"
using namespace Ariadne; using vf::ok; using vf::cat; using vf::total; using ref::Q; using ref::X; using mpi::I; using mpi::Expr;
using EF=EffectiveScalarMultivariateFunction; using EV=EffectiveVectorMultivariateFunction; using VV=ValidatedVectorMultivariateFunction; using VF=ValidatedScalarMultivariateFunction; using BV=Vector<FloatDPBounds>; using QP=std::vector<Q>;
static Q mk(long n,long k) { Q q(n,k); q.canonicalize(); return q; }
static std::string pts(QP const& x) { std::string s="("; for (auto& q:x) s+=(s.size()>1?",":"")+ref::str(q); return s+")"; }
static FloatDP fd(Q const& q) { return FloatDP(ExactDouble(q.get_d()),dp); }
static FloatDP fdn(double d) { return FloatDP(ExactDouble(d),dp); }
static std::vector<I> ivs(QP const& p) { std::vector<I> v; for (auto& q:p) v.push_back(I(q)); return v; }
static EffectiveNumber num(Q const& q) { return EffectiveNumber(ref::rational(q)); }
static EF effective(Expr const& e,size_t n) { std::vector<EF> xs; for (size_t i=0;i<n;++i) xs.push_back(EF::coordinate(n,i)); return mpi::build(e,xs,[&](Q const& q){return EF::constant(n,num(q));}); }
static const mpi::Allow OPS=mpi::Allow::but({mpi::ABS,mpi::MAX,mpi::MIN,mpi::ASIN,mpi::ACOS}), SMTH=mpi::Allow::but({mpi::ABS,mpi::MAX,mpi::MIN,mpi::ASIN,mpi::ACOS,mpi::ATAN});
// a box, functions on it, a point of it and a codomain which holds (or just misses) the values at the point
struct Pb { size_t n,m; QP l,h,p; std::vector<I> dom; std::vector<Expr> e; std::vector<I> v; std::vector<double> cl,ch; std::string s;
    ExactBoxType box() const { Array<ExactIntervalType> a(n,ExactIntervalType(0,1)); for (size_t i=0;i<n;++i) a[i]=ExactIntervalType(fd(l[i]),fd(h[i])); return ExactBoxType(Vector<ExactIntervalType>(a)); }
    UpperBoxType ubox() const { return UpperBoxType(box()); }
    ExactIntervalType cod(size_t i) const { return ExactIntervalType(fdn(cl[i]),fdn(ch[i])); } ExactBoxType codomain() const { Array<ExactIntervalType> a(m,ExactIntervalType(0,1)); for (size_t i=0;i<m;++i) a[i]=cod(i); return ExactBoxType(Vector<ExactIntervalType>(a)); }
    EV f() const { EV r(m,EuclideanDomain(n)); for (size_t i=0;i<m;++i) r[i]=effective(e[i],n); return r; }
    int sat(QP const& x) const { int r=1; for (size_t i=0;i<m;++i) { I w=mpi::eval(e[i],ivs(x)); if (w.bad) return 0; Q a(cl[i]),b(ch[i]); if (std::isinf(cl[i])||std::isinf(ch[i])) return 0; if (w.lo()>b||w.hi()<a) return -1; if (!(w.lo()>=a&&w.hi()<=b)) r=0; } return r; } };
static bool problem(vf::Rng& r,Pb& b,mpi::Allow const& al,size_t nmax,size_t mmax,int size,bool fat=false,double bound=100) { b.n=1+r.below(nmax); b.m=1+r.below(mmax); for (size_t i=0;i<b.n;++i) { Q a=mk(r.range(-40,40),16); Q c=Q(a+mk(r.range(1,48),16)); b.l.push_back(a); b.h.push_back(c); b.dom.push_back(I(a,c)); Q t=r.pick(std::vector<Q>{Q(0),Q(1),mk(1,2),mk(long(r.below(65)),64),mk(long(r.below(65)),64)}); b.p.push_back(Q(a+(c-a)*t)); } b.s="on "+pts(b.l)+".."+pts(b.h)+" p="+pts(b.p);
    for (size_t i=0;i<b.m;++i) { bool good=false; for (int k=0;k<30&&!good;++k) { Expr e=mpi::random(r,b.dom,int(r.range(1,size)),al,0.2,bound,4); I v=mpi::eval(e,ivs(b.p)); if (v.bad) continue; bool low=false; for (auto& x:e.v) if (x.op==mpi::POW&&x.n==0) low=true; if (low) continue; good=true; b.e.push_back(e); b.v.push_back(v); double lo=v.dl(),hi=v.du(),w=std::ldexp(1.0,int(r.range(-12,3)));; if (fat) w=std::max(w,0.25); bool thin=!fat&&r.coin(1,4); b.cl.push_back(thin||(!fat&&r.coin(1,4))?lo:lo-w); b.ch.push_back(thin||(!fat&&r.coin(1,4))?hi:hi+w); b.s+=cat("; ",e.str()," in [",b.cl.back(),",",b.ch.back(),"]"); } if (!good) return false; } return true; }
static bool inside(UpperBoxType const& d,QP const& p) { for (size_t i=0;i<p.size();++i) { X a=ref::x(d[i].lower_bound().raw()),b=ref::x(d[i].upper_bound().raw()); if (!mpi::holds(a,b,I(p[i]))) return false; } return true; }
static std::string bstr(UpperBoxType const& d) { std::string s; for (size_t i=0;i<d.size();++i) s+=cat("[",ref::str(ref::x(d[i].lower_bound().raw())),",",ref::str(ref::x(d[i].upper_bound().raw())),"]"); return s; }
static bool subbox(UpperBoxType const& d,Pb const& b) { for (size_t i=0;i<b.n;++i) { double x=d[i].lower_bound().raw().get_d(),y=d[i].upper_bound().raw().get_d(); if (x>y) continue; if (!(x>=b.l[i].get_d()&&y<=b.h[i].get_d())) return false; } return true; }
template<class G> static void contract(std::string const& P,Pb const& b,G const& g) { total(P,[&]{ UpperBoxType d=b.ubox(); bool e=g(d); ok(P+"/keeps-solution",inside(d,b.p),[&]{return cat(b.s," reduced to ",bstr(d)," without the point");}); ok(P+"/not-empty",!e,[&]{return cat(b.s," said to be empty");}); ok(P+"/subset",subbox(d,b),[&]{return cat(b.s," reduced to ",bstr(d)," outside the domain");}); },[&]{return b.s;}); }
VF_SCENARIO(contractors,8) { Pb b; if (!problem(r,b,OPS,3,2,8)) return; vf::distinct(mpi::shape(b.e[0])+b.s.substr(0,40)); ConstraintSolver S; EV ef=b.f(); VV f(ef); VF f0(ef[0]);
    contract("hull_reduce/function",b,[&](UpperBoxType& d){return S.hull_reduce(d,f0,b.cod(0));}); contract("hull_reduce/vector",b,[&](UpperBoxType& d){return S.hull_reduce(d,f,b.codomain());}); contract("hull_reduce/procedure",b,[&](UpperBoxType& d){return S.hull_reduce(d,ValidatedProcedure(f0),b.cod(0));});
    contract("box_reduce",b,[&](UpperBoxType& d){return S.box_reduce(d,f0,b.cod(0),r.below(b.n));}); contract("box_reduce/repeated",b,[&](UpperBoxType& d){ bool e=false; for (int k=0;k<4;++k) e=S.box_reduce(d,f0,b.cod(0),r.below(b.n))||e; return e;});
    contract("reduce/function",b,[&](UpperBoxType& d){return S.reduce(d,f,b.codomain());}); contract("reduce/constraints",b,[&](UpperBoxType& d){ List<ValidatedConstraint> cs; for (size_t i=0;i<b.m;++i) { int k=int(r.below(3)); VF g(ef[i]); if (k==0) cs.append(ValidatedConstraint(ValidatedNumber(fdn(b.cl[i])),g,ValidatedNumber(fdn(b.ch[i])))); else if (k==1) cs.append(g<=ValidatedNumber(fdn(b.ch[i]))); else cs.append(ValidatedNumber(fdn(b.cl[i]))<=g); } return S.reduce(d,cs);}); }
static EF monotone(vf::Rng&,Expr const& e,size_t n,size_t k) { return effective(e,n)+num(Q(200))*EF::coordinate(n,k); }
VF_SCENARIO(derivative_contractors,4) { Pb b; if (!problem(r,b,mpi::Allow::only({mpi::CNST,mpi::NEG,mpi::HLF,mpi::SQR,mpi::ADD,mpi::SUB,mpi::MUL,mpi::SIN,mpi::COS}),2,1,5,false,8)) return; vf::distinct(mpi::shape(b.e[0])+b.s.substr(0,40)); ConstraintSolver S; EV ef=b.f(); size_t k=r.below(b.n);
    contract("monotone_reduce",b,[&](UpperBoxType& d){return S.monotone_reduce(d,VF(ef[0]),b.cod(0),k);});
    Q s=b.p[k]; { Pb c=b; EF g=ef[0]+num(Q(16))*EF::coordinate(b.n,k); double lo=(b.v[0]+I(16)*I(s)).dl(),hi=(b.v[0]+I(16)*I(s)).du(); double w=r.coin(1,3)?0:0.125; c.cl[0]=lo-w; c.ch[0]=hi+w; c.s+=cat(" plus 16 x",k," in [",c.cl[0],",",c.ch[0],"]"); contract("monotone_reduce/steep",c,[&](UpperBoxType& d){return S.monotone_reduce(d,VF(g),c.cod(0),k);}); }
    bool trig=false; for (auto& x:b.e[0].v) if (x.op==mpi::SIN||x.op==mpi::COS) trig=true; // Taylor models of the sine over wide ranges take very long
    if (!trig) contract("lyapunov_reduce",b,[&](UpperBoxType& d){ ThresholdSweeper<FloatDP> sw(dp,1e-8); ValidatedVectorMultivariateTaylorFunctionModelDP t(b.box(),VV(ef),sw); Vector<FloatDP> c(b.n,dp),y(b.m,dp); for (size_t i=0;i<b.n;++i) c[i]=FloatDP(ExactDouble((b.l[i].get_d()+b.h[i].get_d())/2),dp); for (size_t i=0;i<b.m;++i) y[i]=FloatDP(ExactDouble(double(r.range(-4,4))/2),dp); return S.lyapunov_reduce(d,t,b.codomain(),c,y); }); }
static QP sample(vf::Rng& r,Pb const& b) { QP p; for (size_t i=0;i<b.n;++i) p.push_back(Q(b.l[i]+(b.h[i]-b.l[i])*mk(long(r.below(65)),64))); return p; }
template<class T> static int tri(T const& k) { return definitely(k)?1:definitely(!k)?-1:0; }
VF_SCENARIO(feasibility,4) { Pb b; int k=int(r.below(4)); /* series over Taylor models can take minutes: the search is given polynomials only */ auto A=k<=2?mpi::Allow::only({mpi::VAR,mpi::CNST,mpi::NEG,mpi::POS,mpi::HLF,mpi::SQR,mpi::ADD,mpi::SUB,mpi::MUL}):mpi::Allow::but({mpi::ABS,mpi::MAX,mpi::MIN,mpi::ASIN,mpi::ACOS,mpi::ATAN,mpi::EXP}); if (!problem(r,b,A,2,2,4,r.coin(2,3),8)) return; bool hit=r.coin(2,3); if (!hit) for (size_t i=0;i<b.m;++i) { double s=r.coin(1,2)?3:-3; b.cl[i]+=s; b.ch[i]+=s; } b.s+=hit?"":" shifted"; vf::distinct(b.s.substr(0,80)); ConstraintSolver S; EV ef=b.f(); VV f(ef); auto judge=[&](std::string const& P,int t,QP const* at){ vf::note(cat(P," ",t)); if (t==1&&at) { bool in=at->size()==b.n; for (size_t i=0;in&&i<b.n;++i) in=(*at)[i]>=b.l[i]&&(*at)[i]<=b.h[i]; ok(P+"/true",in&&b.sat(*at)>=0,[&]{return cat(b.s," said feasible at ",pts(*at));}); } if (t==-1) { ok(P+"/false",b.sat(b.p)!=1,[&]{return cat(b.s," said infeasible, but p is a solution");}); for (int k=0;k<8;++k) { QP q=sample(r,b); ok(P+"/false",b.sat(q)!=1,[&]{return cat(b.s," said infeasible, but ",pts(q)," is a solution");}); } } };
    std::string P; if (k<=1) { P="feasible"; vf::partial(P,[&]{ auto a=S.feasible(b.box(),f,b.codomain()); QP at; if (tri(a.first)==1&&a.second.size()==b.n) for (size_t i=0;i<b.n;++i) at.push_back(ref::q(a.second[i])); judge(P,tri(a.first),at.empty()?nullptr:&at); }); }
    else if (k==2) { P="feasible/constraints"; vf::partial(P,[&]{ List<ValidatedConstraint> cs; for (size_t i=0;i<b.m;++i) cs.append(ValidatedConstraint(ValidatedNumber(fdn(b.cl[i])),VF(ef[i]),ValidatedNumber(fdn(b.ch[i])))); auto a=S.feasible(b.box(),cs); judge(P,tri(a.first),nullptr); }); }
    P="check_feasibility"; for (int j=0;j<3;++j) total(P,[&]{ QP q=j==0?b.p:sample(r,b); if (j==2) q[0]=Q(q[0]+mk(r.range(-32,32),16)); Point<FloatDP> y(b.n,[&](SizeType i){return fd(q[i]);}); int t=tri(S.check_feasibility(b.box(),f,b.codomain(),y)); int s=b.sat(q); bool in=true; for (size_t i=0;i<b.n;++i) in=in&&q[i]>=b.l[i]&&q[i]<=b.h[i]; if (!in) s=-1; ok(P,!(t==1&&s==-1)&&!(t==-1&&s==1),[&]{return cat(b.s," at ",pts(q)," said ",t);}); },[&]{return b.s;}); }
// linear programs with small integers, decided exactly by enumerating the vertices
struct LP { size_t m,n; std::vector<std::vector<Q>> A; QP b,c,l,u; bool feas=false; Q best; std::string s; };
static bool gauss(std::vector<std::vector<Q>> M,QP& x) { size_t n=M.size(); for (size_t i=0;i<n;++i) { size_t p=i; while (p<n&&M[p][i]==0) ++p; if (p==n) return false; std::swap(M[p],M[i]); for (size_t k=0;k<n;++k) if (k!=i&&M[k][i]!=0) { Q t=M[k][i]/M[i][i]; for (size_t j=i;j<=n;++j) M[k][j]-=t*M[i][j]; } } x.resize(n); for (size_t i=0;i<n;++i) x[i]=M[i][n]/M[i][i]; return true; }
static void enumerate(LP& p) { for (size_t S=0;S<(size_t(1)<<p.n);++S) { if (size_t(__builtin_popcountll(S))!=p.m) continue; std::vector<size_t> B,N; for (size_t j=0;j<p.n;++j) ((S>>j)&1?B:N).push_back(j); for (size_t T=0;T<(size_t(1)<<N.size());++T) { QP x(p.n); for (size_t k=0;k<N.size();++k) x[N[k]]=(T>>k)&1?p.u[N[k]]:p.l[N[k]]; std::vector<std::vector<Q>> M(p.m,QP(p.m+1)); for (size_t i=0;i<p.m;++i) { for (size_t k=0;k<p.m;++k) M[i][k]=p.A[i][B[k]]; Q s=p.b[i]; for (size_t j:N) s-=p.A[i][j]*x[j]; M[i][p.m]=s; } QP y; if (!gauss(M,y)) continue; bool in=true; for (size_t k=0;k<p.m;++k) { x[B[k]]=y[k]; in=in&&y[k]>=p.l[B[k]]&&y[k]<=p.u[B[k]]; } if (!in) continue; Q v=0; for (size_t j=0;j<p.n;++j) v+=p.c[j]*x[j]; if (!p.feas||v<p.best) p.best=v; p.feas=true; } } }
static size_t rank(std::vector<std::vector<Q>> M) { size_t r=0; for (size_t c=0;!M.empty()&&c<M[0].size()&&r<M.size();++c) { size_t p=r; while (p<M.size()&&M[p][c]==0) ++p; if (p==M.size()) continue; std::swap(M[p],M[r]); for (size_t k=r+1;k<M.size();++k) { Q t=M[k][c]/M[r][c]; for (size_t j=c;j<M[0].size();++j) M[k][j]-=t*M[r][j]; } ++r; } return r; }
static LP rlp(vf::Rng& r) { LP p; do { p.m=1+r.below(3); p.n=p.m+r.below(4); p.A.assign(p.m,QP(p.n)); for (auto& w:p.A) for (auto& a:w) a=r.coin(1,4)?Q(0):Q(r.range(-4,4)); } while (rank(p.A)<p.m); QP x; for (size_t j=0;j<p.n;++j) { Q a(r.range(-3,2)); Q w(r.coin(1,8)?0:long(r.range(1,4))); p.l.push_back(a); p.u.push_back(Q(a+w)); p.c.push_back(Q(r.range(-4,4))); x.push_back(Q(a+w*mk(r.range(0,4),4))); } bool by=r.coin(1,2); for (size_t i=0;i<p.m;++i) { Q s=0; for (size_t j=0;j<p.n;++j) s+=p.A[i][j]*x[j]; p.b.push_back(by?s:Q(Q(r.range(-8,8))/Q(r.coin(1,3)?2:1))); } enumerate(p); p.s="A="; for (auto& w:p.A) p.s+=pts(w); p.s+=cat(" b=",pts(p.b)," c=",pts(p.c)," l=",pts(p.l)," u=",pts(p.u)); return p; }
template<class T> static T conv(Q const& q); template<> Rational conv<Rational>(Q const& q) { return ref::rational(q); } template<> FloatDP conv<FloatDP>(Q const& q) { return fd(q); }
template<class T> static Vector<T> cv(QP const& v) { Array<T> a(v.size(),conv<T>(Q(0))); for (size_t i=0;i<v.size();++i) a[i]=conv<T>(v[i]); return Vector<T>(a); }
template<class T> static Matrix<T> cm(LP const& p) { Matrix<T> A(p.m,p.n,conv<T>(Q(0))); for (size_t i=0;i<p.m;++i) for (size_t j=0;j<p.n;++j) A.set(i,j,conv<T>(p.A[i][j])); return A; }
static bool near(FloatDPBounds const& x,Q const& v) { return mpi::holds(fl::lo(x),fl::hi(x),I(v)); } static bool near(Rational const& x,Q const& v) { return ref::q(x)==v; }
static I iv(FloatDPBounds const& x) { return I(ref::q(x.lower().raw()),ref::q(x.upper().raw())); } static I iv(Rational const& x) { return I(ref::q(x)); }
template<class T> static void simplex(std::string const& P,LP const& p) { SimplexSolver<T> S; auto A=cm<T>(p); auto b=cv<T>(p.b),c=cv<T>(p.c),l=cv<T>(p.l),u=cv<T>(p.u); auto in=[&]{return p.s;};
    vf::partial(P+"/feasible",[&]{ int t=tri(S.feasible(l,u,A,b)); vf::note(cat(P,"/feasible ",t,p.feas?" of feasible":" of infeasible")); ok(P+"/feasible",!(t==1&&!p.feas)&&!(t==-1&&p.feas),[&]{return cat(p.s," said ",t);}); });
    if (p.feas) vf::partial(P+"/minimise",[&]{ auto x=S.minimise(c,l,u,A,b); I v(0); for (size_t j=0;j<p.n;++j) { v=v+I(p.c[j])*iv(x[j]); ok(P+"/minimise-bounds",iv(x[j]).hi()>=p.l[j]&&iv(x[j]).lo()<=p.u[j],[&]{return cat(p.s," x",j," out of bounds");}); } for (size_t i=0;i<p.m;++i) { I s(0); for (size_t j=0;j<p.n;++j) s=s+I(p.A[i][j])*iv(x[j]); ok(P+"/minimise-equations",s.lo()<=p.b[i]&&s.hi()>=p.b[i],[&]{return cat(p.s," row ",i," gives ",mpi::str(s));}); } ok(P+"/minimise-optimal",v.lo()<=p.best&&v.hi()>=p.best,[&]{return cat(p.s," value ",mpi::str(v)," but the minimum is ",ref::str(p.best));}); }); }
VF_SCENARIO(simplex_rational,3) { LP p=rlp(r); vf::distinct(p.s); simplex<Rational>("simplex-rational",p); }
VF_SCENARIO(simplex_float,3) { LP p=rlp(r); vf::distinct(p.s); simplex<FloatDP>("simplex-float",p); }
VF_SCENARIO(interior_point,2) { LP p=rlp(r); vf::distinct(p.s); InteriorPointSolver S; auto A=cm<FloatDP>(p); auto b=cv<FloatDP>(p.b),c=cv<FloatDP>(p.c),l=cv<FloatDP>(p.l),u=cv<FloatDP>(p.u); std::string P="interior-point"; vf::partial(P+"/feasible",[&]{ int t=tri(S.feasible(l,u,A,b)); vf::note(cat(P,"/feasible ",t,p.feas?" of feasible":" of infeasible")); ok(P+"/feasible",!(t==1&&!p.feas)&&!(t==-1&&p.feas),[&]{return cat(p.s," said ",t);}); }); }
VF_SCENARIO(nonlinear,3) { Pb b; if (!problem(r,b,mpi::Allow::only({mpi::CNST,mpi::NEG,mpi::HLF,mpi::SQR,mpi::ADD,mpi::SUB,mpi::MUL,mpi::SIN}),2,2,3,r.coin(3,4))) return; bool hit=r.coin(2,3); if (!hit) for (size_t i=0;i<b.m;++i) { double s=r.coin(1,2)?3:-3; b.cl[i]+=s; b.ch[i]+=s; } b.s+=hit?"":" shifted"; vf::distinct(b.s.substr(0,80)); EV ef=b.f(); VV f(ef); std::unique_ptr<OptimiserInterface> S; int k=int(r.below(3)); std::string P=k==0?"PenaltyFunction":k==1?"InfeasibleInteriorPoint":"InteriorPoint"; if (k==0) S.reset(new PenaltyFunctionOptimiser()); else if (k==1) S.reset(new NonlinearInfeasibleInteriorPointOptimiser()); else S.reset(new NonlinearInteriorPointOptimiser());
    // the penalty method iterates without a limit when it does not converge
    if (k!=0) vf::partial(P+"/feasible",[&]{ int t=tri(S->feasible(b.box(),f,b.codomain())); vf::note(cat(P,"/feasible ",t,hit?" of feasible":" of shifted")); if (t==-1) { ok(P+"/feasible-false",b.sat(b.p)!=1,[&]{return cat(b.s," said infeasible, but p is a solution");}); for (int j=0;j<8;++j) { QP q=sample(r,b); ok(P+"/feasible-false",b.sat(q)!=1,[&]{return cat(b.s," said infeasible, but ",pts(q)," is a solution");}); } } if (t==1) { bool out=false; for (size_t i=0;i<b.m;++i) { I w=mpi::eval(b.e[i],b.dom); if (!w.bad&&(w.lo()>Q(b.ch[i])||w.hi()<Q(b.cl[i]))) out=true; } ok(P+"/feasible-true",!out,[&]{return cat(b.s," said feasible");}); } });
    QP q=r.coin(1,2)?b.p:sample(r,b); FloatDPBoundsVector y(b.n,dp); Vector<FloatDP> ye(b.n,dp); for (size_t i=0;i<b.n;++i) { y[i]=FloatDPBounds(fd(q[i])); ye[i]=fd(q[i]); } vf::partial(P+"/points",[&]{ bool t=S->is_feasible_point(b.box(),f,b.codomain(),ye); ok(P+"/is_feasible_point",!(t&&b.sat(q)==-1),[&]{return cat(b.s," at ",pts(q)," said to be feasible");}); bool v=S->validate_feasibility(b.box(),f,b.codomain(),ye); vf::note(cat(P,"/validate_feasibility ",v)); }); }
