// Algebraic equation solvers (C24): what a solver reports about the zeros of a function is true of the zeros it has.
#include "floats.hpp"
#include "alg.hpp"
#include "function/function.hpp"
#include "function/function_patch.hpp"
#include "function/taylor_model.hpp"
#include "function/taylor_function.hpp"
#include "algebra/algebra.hpp"
#include "geometry/interval.hpp"
#include "geometry/box.hpp"
#include "solvers/solver.hpp"
using namespace Ariadne; using vf::ok; using vf::cat; using vf::total; using ref::Q; using ref::X; using mpi::I; using mpi::Expr;
using EF=EffectiveScalarMultivariateFunction; using EV=EffectiveVectorMultivariateFunction; using VV=ValidatedVectorMultivariateFunction; using VF=ValidatedScalarMultivariateFunction; using BV=Vector<FloatDPBounds>; using QP=std::vector<Q>;
static Q mk(long n,long k) { Q q(n,k); q.canonicalize(); return q; }
static std::string pts(QP const& x) { std::string s="("; for (auto& q:x) s+=(s.size()>1?",":"")+ref::str(q); return s+")"; }
static std::string bstr(BV const& b) { std::string s; for (size_t i=0;i<b.size();++i) s+=cat("[",ref::str(fl::lo(b[i])),",",ref::str(fl::hi(b[i])),"]"); return s; }
static EffectiveNumber num(Q const& q) { return EffectiveNumber(ref::rational(q)); }
struct Bx { QP l,h; size_t n() const { return l.size(); } bool in(QP const& p) const { for (size_t i=0;i<n();++i) if (p[i]<l[i]||p[i]>h[i]) return false; return true; } bool inside(QP const& p,Q const& m) const { for (size_t i=0;i<n();++i) if (p[i]<l[i]+m||p[i]>h[i]-m) return false; return true; } std::string str() const { return pts(l)+".."+pts(h); }
    ExactBoxType box() const { Array<ExactIntervalType> a(n(),ExactIntervalType(0,1)); for (size_t i=0;i<n();++i) a[i]=ExactIntervalType(FloatDP(ExactDouble(l[i].get_d()),dp),FloatDP(ExactDouble(h[i].get_d()),dp)); return ExactBoxType(Vector<ExactIntervalType>(a)); } };
static bool has(BV const& b,QP const& p) { for (size_t i=0;i<p.size();++i) if (!mpi::holds(fl::lo(b[i]),fl::hi(b[i]),I(p[i]))) return false; return true; }
// strictly monotone maps which keep zero
static EF phi(int k,EF const& u) { switch (k) { case 1: return u+u*u*u; case 2: return atan(u); case 3: return exp(u)-num(1); case 4: return exp(u)-exp(-u); default: return u; } }
static char const* PHI[]={"u","u+u^3","atan u","exp u-1","2sinh u"};
static std::unique_ptr<SolverInterface> solver(vf::Rng& r,std::string& s) { double e=r.pick(std::vector<double>{1e-3,1e-6,1e-8,1e-10}); unsigned m=unsigned(r.pick(std::vector<int>{1,2,4,8,16,32})); int k=int(r.below(3)); s=cat(k==0?"IntervalNewton":k==1?"Krawczyk":"FactoredKrawczyk","(",e,",",m,")"); if (k==0) return std::unique_ptr<SolverInterface>(new IntervalNewtonSolver(e,m)); if (k==1) return std::unique_ptr<SolverInterface>(new KrawczykSolver(e,m)); return std::unique_ptr<SolverInterface>(new FactoredKrawczykSolver(e,m)); }
static std::string kind(std::string const& s) { return s.substr(0,s.find('(')); }
// a function with all its zeros: in each coordinate a product of linear factors, then monotone maps, then a matrix
struct Fn { EV f; std::vector<QP> roots; std::string s; bool simple=true; double slope=1; };
static Fn known(vf::Rng& r,size_t n) { std::vector<QP> rs; std::vector<EF> u; Fn F; for (size_t i=0;i<n;++i) { size_t k=r.coin(1,2)?1:1+r.below(3); QP v; EF x=EF::coordinate(n,i); EF p=EF::constant(n,num(r.coin(1,2)?Q(1):mk(r.coin(1,2)?-1:1,1+long(r.below(4))))); std::string t; for (size_t j=0;j<k;++j) { Q a=r.coin(1,3)?mk(r.range(-32,32),16):mk(r.range(-60,60),long(r.pick(std::vector<int>{3,7,10,11}))); if (j&&r.coin(1,12)) a=v[0]; for (auto& b:v) { if (a==b) F.simple=false; else F.slope=std::min(F.slope,std::fabs(Q(a-b).get_d())); } v.push_back(a); p=p*(x-num(a)); t+=cat("(x",i,"-",ref::str(a),")"); } int w=int(r.below(5)); u.push_back(phi(k==3&&w!=2?0:w,p)); F.s+=cat(PHI[k==3&&w!=2?0:w]," at u=",t,"; "); std::sort(v.begin(),v.end()); v.erase(std::unique(v.begin(),v.end()),v.end()); rs.push_back(v); }
    std::vector<std::vector<long>> A(n,std::vector<long>(n,0)); for (;;) { for (auto& w:A) for (auto& c:w) c=r.range(-3,3); long d=n==1?A[0][0]:n==2?A[0][0]*A[1][1]-A[0][1]*A[1][0]:A[0][0]*(A[1][1]*A[2][2]-A[1][2]*A[2][1])-A[0][1]*(A[1][0]*A[2][2]-A[1][2]*A[2][0])+A[0][2]*(A[1][0]*A[2][1]-A[1][1]*A[2][0]); if (d) break; } EV f(n,EuclideanDomain(n)); for (size_t i=0;i<n;++i) { EF s=EF::constant(n,num(0)); for (size_t j=0;j<n;++j) { s=s+num(A[i][j])*u[j]; F.s+=cat(A[i][j]," "); } f[i]=s; } F.f=f;
    F.roots={QP()}; for (size_t i=0;i<n;++i) { std::vector<QP> z; for (auto& p:F.roots) for (auto& a:rs[i]) { QP q=p; q.push_back(a); z.push_back(q); } F.roots=z; } return F; }
static Bx rbox(vf::Rng& r,Fn const& F,size_t n) { Bx b; QP c=r.pick(F.roots); for (size_t i=0;i<n;++i) { long m=long(std::floor(c[i].get_d()*16)); long w=r.pick(std::vector<int>{2,4,8,16,40}); long a=r.coin(1,5)?r.range(-80,60):m-long(r.below(size_t(w)+1)); long e=a+1+long(r.below(size_t(w)*2)); b.l.push_back(mk(a,16)); b.h.push_back(mk(e,16)); } return b; }
static std::vector<QP> within(Fn const& F,Bx const& b) { std::vector<QP> v; for (auto& p:F.roots) if (b.in(p)) v.push_back(p); return v; }
template<class G> static int attempt(std::string const& key,G const& g,std::string const& in) { // 0 answered, 1 refused, 2 no solution
    try { g(); return 0; } catch (NoSolutionException const&) { return 2; } catch (SolverException const&) { return 1; } catch (SingularMatrixException const&) { return 1; } catch (DivideByZeroException const&) { return 1; } catch (std::runtime_error const& e) { ok(key+"/fails",false,[&]{return cat(in," failed with ",std::string(e.what()).substr(0,150));}); return 1; } }
VF_SCENARIO(zero,5) { size_t n=1+r.below(3); Fn F=known(r,n); Bx b=rbox(r,F,n); std::string sn; auto S=solver(r,sn); std::string in=cat(sn," on ",F.s," in ",b.str()); vf::distinct(F.s+b.str()); auto w=within(F,b); VV f(F.f); std::string P="zero/"; BV y(n,dp); bool fp=r.coin(1,5)&&n<3&&(F.simple||n==1); if (!F.simple||n>1) S->set_maximum_error(1e-3); if (fp) { P="fixed_point/"; f=F.f+EV::identity(n); } int a=attempt(P+kind(sn),[&]{ y=fp?S->fixed_point(f,b.box()):S->zero(f,b.box()); },in); vf::note(cat(P,kind(sn),a==0?" found":a==1?" undecided":" none"));
    if (a==0) { bool any=false; for (auto& p:F.roots) any=any||has(y,p); ok(P+kind(sn)+"/solution-exists",any,[&]{return cat(in," returned ",bstr(y)," where there is no zero");}); if (!fp) for (auto& p:w) ok(P+kind(sn)+"/keeps-every-zero",has(y,p),[&]{return cat(in," returned ",bstr(y)," losing ",pts(p));}); }
    if (a==2&&!fp) ok(P+kind(sn)+"/no-solution-is-true",w.empty(),[&]{return cat(in," said no solution but there is ",pts(w[0]));}); if (a==2&&fp) ok(P+kind(sn)+"/no-solution-is-true",w.empty(),[&]{return cat(in," said no fixed point but there is ",pts(w[0]));}); }
VF_SCENARIO(solve_all,4) { size_t n=1+r.below(2); Fn F=known(r,n); if (!F.simple) { if (n>1) return; } Bx b=rbox(r,F,n); std::string sn; auto S=solver(r,sn); if (!F.simple) S->set_maximum_error(1e-3); std::string in=cat(sn," on ",F.s," in ",b.str()); vf::distinct(F.s+b.str()); auto w=within(F,b); VV f(F.f); std::string P="solve_all/"; std::vector<BV> ys; int a=attempt(P+kind(sn),[&]{ auto s=S->solve_all(f,b.box()); for (auto& y:s) ys.push_back(y); },in); if (a) { vf::note("solve_all refused"); return; } vf::note(cat("solve_all ",ys.size()));
    for (auto& y:ys) { bool any=false; for (auto& p:F.roots) any=any||has(y,p); ok(P+kind(sn)+"/solution-exists",any,[&]{return cat(in," returned ",bstr(y)," where there is no zero");}); }
    if (F.simple&&F.slope>0.05&&S->maximum_number_of_steps()>=4) for (auto& p:w) { bool easy=b.inside(p,mk(1,64)); for (auto& c:p) if (mpz_divisible_ui_p(c.get_den_mpz_t(),3)==0&&mpz_divisible_ui_p(c.get_den_mpz_t(),7)==0&&mpz_divisible_ui_p(c.get_den_mpz_t(),11)==0) easy=false; if (!easy) continue; bool any=false; for (auto& y:ys) any=any||has(y,p); ok(P+kind(sn)+"/finds-every-zero",any,[&]{return cat(in," returned ",ys.size()," solutions without ",pts(p));}); }
    BV y(n,dp); a=attempt("solve/"+kind(sn),[&]{ y=S->solve(f,b.box()); },in); vf::note(cat("solve ",a)); if (a==0) { bool any=false; for (auto& p:F.roots) any=any||has(y,p); ok("solve/"+kind(sn)+"/solution-exists",any,[&]{return cat(in," returned ",bstr(y)," where there is no zero");}); } if (a==2) ok("solve/"+kind(sn)+"/no-solution-is-true",w.empty(),[&]{return cat(in," said no solution but there is ",pts(w[0]));}); }
static EF effective(Expr const& e,size_t n) { std::vector<EF> xs; for (size_t i=0;i<n;++i) xs.push_back(EF::coordinate(n,i)); return mpi::build(e,xs,[&](Q const& q){return EF::constant(n,num(q));}); }
// f(p,x) = A phi(x - h(p)): x=h(p) is the only solution for every p
VF_SCENARIO(implicit,4) { size_t m=1+r.below(2),n=r.coin(2,3)?1:2; Bx ip,ix; std::vector<I> dom; for (size_t i=0;i<m;++i) { Q a=mk(r.range(-24,24),16); ip.l.push_back(a); ip.h.push_back(Q(a+mk(1+long(r.below(16)),16))); dom.push_back(I(ip.l[i],ip.h[i])); } auto al=mpi::Allow::only({mpi::CNST,mpi::NEG,mpi::HLF,mpi::SQR,mpi::ADD,mpi::SUB,mpi::MUL,mpi::EXP,mpi::SIN,mpi::COS}); std::vector<Expr> h; std::vector<I> hr; std::string sn; auto S=solver(r,sn); if (m+n>2) S->set_maximum_number_of_steps(unsigned(2+r.below(5))); else if (r.coin(1,2)) S->set_maximum_number_of_steps(8+unsigned(r.below(8))); std::string in=cat(sn," p in ",ip.str()); for (size_t i=0;i<n;++i) { h.push_back(mpi::random(r,dom,int(r.range(0,4)),al,0.2,4,3)); I v=mpi::eval(h[i],dom); if (v.bad) return; long l=long(std::floor(v.dl()*16)),u=long(std::ceil(v.du()*16)); l-=long(r.below(6)); u+=1+long(r.below(6)); int t=int(r.below(8)); if (t==0) { l+=4; u+=6; } if (t==1) { l+=30; u+=40; } if (u<=l) u=l+1; ix.l.push_back(mk(l,16)); ix.h.push_back(mk(u,16)); in+=cat(" h",i,"=",h[i].str()); } in+=" x in "+ix.str();
    std::vector<EF> u; for (size_t i=0;i<n;++i) { EF hh=effective(h[i],m+n); int w=int(m+n>2?r.pick(std::vector<int>{0,0,1}):r.pick(std::vector<int>{0,1,3,4})); if (w>=3&&Q(ix.h[i]-ix.l[i])>mk(3,4)) w=0; /* the terms of an exponential over a wide range take too long */ in+=cat(" ",PHI[w]); u.push_back(phi(w,EF::coordinate(m+n,m+i)-hh)); } EV f(n,EuclideanDomain(m+n)); long A[2][2]; do { for (auto& w:A) for (auto& c:w) c=r.range(-3,3); } while (n==1?A[0][0]==0:A[0][0]*A[1][1]==A[0][1]*A[1][0]); for (size_t i=0;i<n;++i) { EF s=EF::constant(m+n,num(0)); for (size_t j=0;j<n;++j) { s=s+num(A[i][j])*u[j]; in+=cat(" ",A[i][j]); } f[i]=s; } vf::distinct(in);
    ValidatedVectorMultivariateFunctionPatch g; std::string P="implicit/"+kind(sn); bool sc=n==1&&r.coin(1,2); ValidatedScalarMultivariateFunctionPatch gs; int a=attempt(P,[&]{ if (sc) gs=S->implicit(VF(f[0]),ip.box(),ix.box()[0]); else g=S->implicit(VV(f),ip.box(),ix.box()); },in); vf::note(cat(P,a==0?" found":a==1?" undecided":" none")); if (a==2) { for (int k=0;k<12;++k) { std::vector<I> pi; QP p; for (size_t i=0;i<m;++i) { Q t=k==0?ip.l[i]:k==1?ip.h[i]:Q(ip.l[i]+(ip.h[i]-ip.l[i])*mk(r.range(0,64),64)); p.push_back(t); pi.push_back(I(t)); } bool some=true; for (size_t i=0;i<n;++i) { I v=mpi::eval(h[i],pi); some=some&&v.lo()>ix.l[i]&&v.hi()<ix.h[i]; } ok(P+"/no-solution-is-true",!some,[&]{return cat(in," said no solution but there is one at ",pts(p));}); } } if (a) return;
    ok(P+"/domain",(sc?gs.domain():g.domain())==ip.box(),[&]{return in;}); for (int k=0;k<6;++k) { QP p; BV x(m,dp); for (size_t i=0;i<m;++i) { Q t=k==0?ip.l[i]:k==1?ip.h[i]:Q(ip.l[i]+(ip.h[i]-ip.l[i])*mk(r.range(0,16),16)); p.push_back(t); x[i]=FloatDPBounds(FloatDP(ExactDouble(t.get_d()),dp)); } std::vector<I> pi; for (auto& q:p) pi.push_back(I(q)); BV y(n,dp); if (sc) y[0]=gs(x); else y=g(x); for (size_t i=0;i<n;++i) { I v=mpi::eval(h[i],pi); ok(P+"/contains-solution",mpi::holds(fl::lo(y[i]),fl::hi(y[i]),v),[&]{return cat(in," at ",pts(p)," gave ",bstr(y)," which misses ",mpi::str(v));}); } } }
