// Differentials of any order and power series (C11): every coefficient compared with truncated power-series arithmetic over MPFR intervals.
#include "floats.hpp"
#include "tps.hpp"
#include "algebra/differential.hpp"
#include "algebra/univariate_differential.hpp"
#include "algebra/fixed_differential.hpp"
#include "algebra/fixed_univariate_differential.hpp"
#include "algebra/series.hpp"
#include "algebra/expansion.inl.hpp"
using namespace Ariadne; using vf::ok; using vf::cat; using vf::total; using vf::partial; using ref::Q; using mpi::I; using tps::S; using tps::PV; using fl::lo; using fl::hi;
static MultiIndex mi(PV const& p) { MultiIndex a(p.size()); for (size_t i=0;i<p.size();++i) a[i]=DegreeType(p[i]); return a; }
template<class A> static PV pv(A const& a) { PV p; for (size_t i=0;i<a.size();++i) p.push_back(int(a[i])); return p; }
static bool gl(PV const& a,PV const& b) { if (tps::deg(a)!=tps::deg(b)) return tps::deg(a)<tps::deg(b); for (size_t i=0;i<a.size();++i) if (a[i]!=b[i]) return a[i]>b[i]; return false; }
template<class B> static bool in(B const& x,I const& e) { return e.bad||mpi::holds(lo(x),hi(x),e); }
template<class B> static std::string bs(B const& x) { return "["+ref::str(lo(x))+","+ref::str(hi(x))+"]"; }
template<class T> using Bt=Bounds<typename T::F>;
// one exact coefficient and a number enclosing it
template<class T> static Bt<T> enc(vf::Rng& r,typename T::PR pr,Q const& q,bool wide) { Bt<T> b(ref::rational(q),pr); if (!wide) return b; Q w=ref::abs(q)/Q(64)+Q(1,1024); Bt<T> l(ref::rational(Q(q-w*Q(long(r.below(5)),4))),pr),u(ref::rational(Q(q+w*Q(long(r.below(5)),4))),pr); return Bt<T>(l.lower_raw(),u.upper_raw()); }
static Q coef(vf::Rng& r) { if (r.coin(1,6)) return Q(0); Q c(ref::Z(r.range(-40,40)),ref::Z(r.pick({1l,2l,4l,8l,3l,10l}))); c.canonicalize(); return c; }
template<class T> struct DS { Differential<Bt<T>> D; S s; };
template<class T> static DS<T> rnd(vf::Rng& r,typename T::PR pr,size_t n,int d,bool wide,Q const* value=nullptr) { using B=Bt<T>; Expansion<MultiIndex,B> e(n,B(0,pr)); S s(n,d); int dens=int(r.range(1,5)); std::vector<PV> all; tps::each(n,d,[&](PV const& p){all.push_back(p);}); std::sort(all.begin(),all.end(),gl); if (r.coin(1,4)) for (size_t i=all.size();i>1;--i) std::swap(all[i-1],all[r.below(i)]);
    for (auto& p:all) { bool cst=tps::deg(p)==0; if (!(cst&&value)&&!r.coin(dens,5)) continue; Q q=cst&&value?*value:coef(r); s.set(p,I(q)); e.append(mi(p),enc<T>(r,pr,q,wide)); } return DS<T>{Differential<B>(e,DegreeType(d)),s}; }
template<class B> static bool judge(std::string const& key,Differential<B> const& D,S const& s,std::string const& inp) { bool g=D.argument_size()==s.n; std::string w="argument_size"; if (g&&int(D.degree())!=s.d) { g=false; w=cat("degree ",int(D.degree())," not ",s.d); }
    if (g) { PV last; bool f=true; for (auto it=D.begin();it!=D.end();++it) { PV p=pv(MultiIndex(it->index())); if (tps::deg(p)>s.d) { g=false; w="term beyond the degree"; } if (!f&&!gl(last,p)) { g=false; w="terms out of order"; } f=false; last=p; } }
    if (g) tps::each(s.n,s.d,[&](PV const& p){ if (!g) return; B const& c=D[mi(p)]; if (!in(c,s.get(p))) { g=false; w="coefficient ("; for (int k:p) w+=cat(k,","); w+=cat(") ",bs(c)," misses ",mpi::str(s.get(p))); } });
    return ok(key,g,[&]{return cat(inp,": ",w);}); }
template<class T> static std::string nm() { return cat("Differential",T::name(),"/"); }
static void shrink(size_t n,int& d) { if (n>=3) d=std::min(d,4); }

template<class T> static void arith(vf::Rng& r) { auto pr=T::pr(r); if constexpr (!T::isdp) if (pr.bits()<40) pr=MultiplePrecision(64); using B=Bt<T>; size_t n=1+r.below(3); int d=int(r.range(0,5)); shrink(n,d); int d2=r.coin(1,4)?int(r.range(0,d)):d; bool wide=r.coin(1,4); auto x=rnd<T>(r,pr,n,d,wide), y=rnd<T>(r,pr,n,d2,wide); if (r.coin()) std::swap(x,y); Q c=coef(r); B cb=enc<T>(r,pr,c,wide&&c!=0); std::string N=nm<T>(); std::string is=cat("x=",tps::str(x.s)," y=",tps::str(y.s)," c=",ref::str(c)); int dm=std::min(d,d2); vf::distinct(cat(n,d,d2,x.s.c.size(),y.s.c.size(),wide));
    auto J=[&](char const* op,auto f,S const& e){ total(N+op,[&]{ judge(N+op,Differential<B>(f()),e,is); },[&]{return is;}); };
    S cs=tps::constant(n,x.s.d,I(c)); (void)dm;
    J("construct",[&]{return x.D;},x.s); J("pos",[&]{return +x.D;},x.s); J("neg",[&]{return -x.D;},tps::neg(x.s)); J("add",[&]{return x.D+y.D;},tps::add(x.s,y.s)); J("sub",[&]{return x.D-y.D;},tps::sub(x.s,y.s)); J("mul",[&]{return x.D*y.D;},tps::mul(x.s,y.s)); J("sqr",[&]{return sqr(x.D);},tps::mul(x.s,x.s)); J("hlf",[&]{return hlf(x.D);},tps::scale(x.s,I(Q(1,2))));
    J("add-scalar",[&]{return x.D+cb;},tps::add(x.s,cs)); J("scalar-add",[&]{return cb+x.D;},tps::add(x.s,cs)); J("sub-scalar",[&]{return x.D-cb;},tps::sub(x.s,cs)); J("scalar-sub",[&]{return cb-x.D;},tps::sub(cs,x.s)); J("mul-scalar",[&]{return x.D*cb;},tps::scale(x.s,I(c))); J("scalar-mul",[&]{return cb*x.D;},tps::scale(x.s,I(c))); if (c!=0&&!ref::le(lo(cb),Q(0))==ref::ge(hi(cb),Q(0))) J("div-scalar",[&]{return x.D/cb;},tps::scale(x.s,I(Q(1)/c)));
    J("+=",[&]{auto z=x.D; z+=y.D; return z;},tps::add(x.s,y.s)); J("-=",[&]{auto z=x.D; z-=y.D; return z;},tps::sub(x.s,y.s)); J("*=",[&]{auto z=x.D; z*=y.D; return z;},tps::mul(x.s,y.s)); J("+=self",[&]{auto z=x.D; z+=z; return z;},tps::scale(x.s,I(2))); J("*=self",[&]{auto z=x.D; z*=z; return z;},tps::mul(x.s,x.s)); J("+=scalar",[&]{auto z=x.D; z+=cb; return z;},tps::add(x.s,cs)); J("*=scalar",[&]{auto z=x.D; z*=cb; return z;},tps::scale(x.s,I(c)));
    unsigned m=unsigned(r.below(6)); J("pow",[&]{return pow(x.D,Nat(m));},tps::pow(x.s,long(m))); J("pow-int",[&]{return pow(x.D,Int(m));},tps::pow(x.s,long(m)));
    size_t k=r.below(n); J("derivative",[&]{return derivative(x.D,k);},tps::derivative(x.s,k)); J("antiderivative",[&]{return antiderivative(x.D,k);},tps::antiderivative(x.s,k));
    int nd=int(r.range(0,d+1)); J("set_degree",[&]{auto z=x.D; z.set_degree(DegreeType(nd)); return z;},tps::trunc(x.s,nd)); { S e=x.s; e.set(PV(n,0),I(c)); J("set_value",[&]{auto z=x.D; z.set_value(cb); return z;},e); } if (x.s.d>=1) { S e=x.s; PV u(n,0); u[k]=1; e.set(u,I(c)); J("set_gradient",[&]{auto z=x.D; z.set_gradient(k,cb); return z;},e); J("[j]=",[&]{auto z=x.D; z[k]=cb; return z;},e); }
    J("assign-constant",[&]{auto z=x.D; z=cb; return z;},cs); J("clear",[&]{auto z=x.D; z.clear(); return z;},S(n,x.s.d)); J("constant",[&]{return Differential<B>::constant(n,DegreeType(d),cb);},tps::constant(n,d,I(c))); J("create_constant",[&]{return x.D.create_constant(cb);},cs); J("create_zero",[&]{return x.D.create_zero();},S(n,x.s.d)); if (d>=1) J("variable",[&]{return Differential<B>::variable(n,DegreeType(d),cb,k);},tps::variable(n,d,I(c),k));
    { Covector<B> g(n,B(0,pr)); S e=tps::constant(n,std::max(d,1),I(c)); for (size_t j=0;j<n;++j) { Q q=coef(r); g[j]=enc<T>(r,pr,q,wide); PV u(n,0); u[j]=1; e.set(u,I(q)); } J("affine",[&]{return Differential<B>::affine(n,DegreeType(std::max(d,1)),cb,g);},e); J("affine2",[&]{return Differential<B>::affine(DegreeType(std::max(d,1)),cb,g);},e); }
    ok(N+"value",in(x.D.value(),x.s.value()),[&]{return is;}); if (x.s.d>=1) total(N+"gradient",[&]{ auto g=x.D.gradient(); for (size_t j=0;j<n;++j) { PV u(n,0); u[j]=1; ok(N+"gradient",in(g[j],x.s.get(u))&&in(x.D.gradient(j),x.s.get(u)),[&]{return is;}); } });
    if (x.s.d>=2) total(N+"hessian",[&]{ auto H=x.D.hessian(); auto HH=x.D.half_hessian(); for (size_t i=0;i<n;++i) for (size_t j=0;j<n;++j) { PV u(n,0); ++u[i]; ++u[j]; I t=x.s.get(u); I h=i==j?t*I(2):t; ok(N+"hessian",in(H[i][j],h),[&]{return cat(is," H[",i,"][",j,"]=",bs(H[i][j])," misses ",mpi::str(h));}); ok(N+"half_hessian",in(HH[i][j],mpi::hlf(h)),[&]{return is;}); } });
    total(N+"==",[&]{ auto e=(x.D==y.D); bool same=true; tps::each(n,std::max(d,d2),[&](PV const& p){ I a=x.s.get(p)-y.s.get(p); same=same&&a.zero(); }); ok(N+"==",!(definitely(e)&&!same)&&!(definitely(!e)&&same),[&]{return is;}); ok(N+"==self",possibly(x.D==x.D),[&]{return is;}); },[&]{return is;}); }
VF_SCENARIO(arith_dp,4) { arith<fl::TDP>(r); }
VF_SCENARIO(arith_mp,3) { arith<fl::TMP>(r); }

static const mpi::Op FUN[]={mpi::POS,mpi::NEG,mpi::HLF,mpi::SQR,mpi::REC,mpi::SQRT,mpi::EXP,mpi::LOG,mpi::SIN,mpi::COS,mpi::TAN,mpi::ATAN,mpi::ASIN,mpi::ACOS,mpi::ABS};
static Q centre(vf::Rng& r,mpi::Op o) { for (;;) { Q c=coef(r); if (r.coin(1,8)) c=Q(0); double v=c.get_d(); switch (o) { case mpi::REC: case mpi::ABS: if (std::fabs(v)<0.2) continue; break; case mpi::SQRT: case mpi::LOG: if (v<0.2) continue; break; case mpi::TAN: if (std::fabs(v)>1.3) continue; break; case mpi::EXP: if (std::fabs(v)>6) continue; break; case mpi::ASIN: case mpi::ACOS: if (std::fabs(v)>0.9) continue; break; default: ; } return c; } }
template<class D> static D app(mpi::Op o,D const& x) { using namespace mpi; switch (o) { case ASIN: return asin(x); case ACOS: return acos(x); case ABS: if constexpr (requires{abs(x);}) return abs(x); else throw std::runtime_error("no abs"); default: return mpi::apply1(o,x); } }
template<class T> static void elementary(vf::Rng& r) { auto pr=T::pr(r); if constexpr (!T::isdp) if (pr.bits()<40) pr=MultiplePrecision(64); using B=Bt<T>; std::string N=nm<T>(); size_t n=1+r.below(3); int d=int(r.range(0,6)); shrink(n,d); mpi::Op o=FUN[r.below(15)]; Q c=centre(r,o); bool wide=r.coin(1,4); auto x=rnd<T>(r,pr,n,d,wide,&c); S e=tps::apply1(o,x.s); std::string key=N+mpi::opname(o); auto is=[&]{return cat("x=",tps::str(x.s));}; vf::distinct(cat(o,n,d,ref::str(c)));
    if (o==mpi::ASIN||o==mpi::ACOS) partial(key,[&]{ judge(key,app(o,x.D),e,is()); }); else total(key,[&]{ judge(key,app(o,x.D),e,is()); },is);
    if (o==mpi::REC) { auto y=rnd<T>(r,pr,n,d,wide); total(N+"div",[&]{ judge(N+"div",Differential<B>(y.D/x.D),tps::mul(y.s,e),is()); judge(N+"pow-negative",pow(x.D,-3),tps::pow(x.s,-3),is()); B cb=enc<T>(r,pr,Q(3),wide); judge(N+"scalar-div",Differential<B>(cb/x.D),tps::scale(e,I(3)),is()); auto z=y.D; z/=x.D; judge(N+"/=",z,tps::mul(y.s,e),is()); },is); }
    // values that may be zero or equal: no branch may be claimed
    if (r.coin(1,3)) { Q a=coef(r),b=r.coin(1,2)?Q(a+Q(r.range(-2,2),16)):coef(r); auto u=rnd<T>(r,pr,n,d,true,&a), v=rnd<T>(r,pr,n,d,true,&b); bool sep=a!=b; for (bool mx:{false,true}) partial(N+(mx?"max":"min"),[&]{ auto w=mx?max(u.D,v.D):min(u.D,v.D); if (sep) judge(N+(mx?"max":"min"),w,((a>b)==mx)?u.s:v.s,cat("u=",tps::str(u.s)," v=",tps::str(v.s))); }); partial(N+"abs-wide",[&]{ auto w=abs(u.D); if (a!=0) judge(N+"abs-wide",w,a>0?u.s:tps::neg(u.s),tps::str(u.s)); }); } }
VF_SCENARIO(elem_dp,4) { elementary<fl::TDP>(r); }
VF_SCENARIO(elem_mp,3) { elementary<fl::TMP>(r); }

template<class T> static void vectors(vf::Rng& r) { auto pr=T::pr(r); if constexpr (!T::isdp) if (pr.bits()<60) pr=MultiplePrecision(96); using B=Bt<T>; using DV=Vector<Differential<B>>; std::string N=nm<T>(); size_t n=1+r.below(2),m=1+r.below(3),k=1+r.below(2); int d=int(r.range(1,4)),d2=r.coin(1,3)?int(r.range(1,4)):d; bool wide=r.coin(1,5); std::vector<DS<T>> f,y; for (size_t i=0;i<k;++i) f.push_back(rnd<T>(r,pr,m,d,wide)); for (size_t i=0;i<m;++i) y.push_back(rnd<T>(r,pr,n,d2,wide)); auto mkv=[&](std::vector<DS<T>> const& a){ Array<Differential<B>> w(a.size(),a[0].D); for (size_t i=0;i<a.size();++i) w[i]=a[i].D; return DV(w); }; auto ser=[&](std::vector<DS<T>> const& a){ std::vector<S> s; for (auto& t:a) s.push_back(t.s); return s; };
    DV F=mkv(f),Y=mkv(y); auto ys=ser(y); auto is=[&]{ std::string s="f="; for (auto& t:f) s+=tps::str(t.s); s+=" y="; for (auto& t:y) s+=tps::str(t.s); return s; }; vf::distinct(cat(n,m,k,d,d2,wide,f[0].s.c.size()));
    auto jv=[&](std::string const& key,DV const& V,std::vector<S> const& e){ if (!ok(key+"/size",V.size()==e.size()&&V.argument_size()==e[0].n,is)) return; ok(key+"/degree",int(V.degree())==e[0].d,[&]{return cat(is()," degree ",int(V.degree())," not ",e[0].d);}); for (size_t i=0;i<e.size();++i) judge(key,V[i],e[i],is()); };
    total(N+"compose",[&]{ for (size_t i=0;i<k;++i) judge(N+"compose",compose(F[i],Y),tps::compose(f[i].s,ys),is()); },is); total(N+"compose-vector",[&]{ std::vector<S> e; for (auto& t:f) e.push_back(tps::compose(t.s,ys)); DV C=compose(F,Y); jv(N+"compose-vector",C,e); auto A=antiderivative(C,0); std::vector<S> ea; for (auto& t:e) ea.push_back(tps::antiderivative(t,0)); jv(N+"antiderivative-compose",A,ea); },is); for (size_t i=0;i<m;++i) judge(N+"compose/argument-unchanged",Y[i],y[i].s,is());
    if (n==m) total(N+"compose-alias",[&]{ judge(N+"compose-alias",compose(Y[0],Y),tps::compose(ys[0],ys),is()); std::vector<S> e; for (auto& t:ys) e.push_back(tps::compose(t,ys)); jv(N+"compose-alias-vector",compose(Y,Y),e); },is);
    total(N+"jacobian",[&]{ auto J=F.jacobian(); auto v=F.value(); for (size_t i=0;i<k;++i) { ok(N+"vector-value",in(v[i],f[i].s.value()),is); for (size_t j=0;j<m;++j) { PV u(m,0); u[j]=1; ok(N+"jacobian",in(J[i][j],f[i].s.get(u)),is); } } },is);
    size_t j=r.below(m); total(N+"vector-derivative",[&]{ std::vector<S> e,a; for (auto& t:f) { e.push_back(tps::derivative(t.s,j)); a.push_back(tps::antiderivative(t.s,j)); } jv(N+"vector-derivative",derivative(F,j),e); jv(N+"vector-antiderivative",antiderivative(F,j),a); },is);
    { std::vector<DS<T>> g; for (size_t i=0;i<m;++i) g.push_back(rnd<T>(r,pr,m,d,wide)); DV G=mkv(g); total(N+"lie_derivative",[&]{ std::vector<S> e; for (auto& t:f) { S s(m,d-1); for (size_t q=0;q<m;++q) s=tps::add(s,tps::mul(tps::derivative(t.s,q),g[q].s)); e.push_back(s); } jv(N+"lie_derivative",lie_derivative(F,G),e); },is); }
    { Vector<B> v(m,B(0,pr)); Matrix<B> G(m,n,B(0,pr)); std::vector<S> e,id,cs; for (size_t i=0;i<m;++i) { Q q=coef(r); v[i]=enc<T>(r,pr,q,wide); e.push_back(tps::constant(n,d,I(q))); cs.push_back(tps::constant(n,d,I(q))); id.push_back(tps::variable(m,d,I(q),i)); for (size_t l=0;l<n;++l) { Q g=coef(r); G[i][l]=enc<T>(r,pr,g,wide); PV u(n,0); u[l]=1; e[i].set(u,I(g)); } } total(N+"affine-vector",[&]{ jv(N+"affine-vector",Differential<B>::affine(DegreeType(d),v,G),e); },is); total(N+"variables",[&]{ jv(N+"variables",Differential<B>::variables(DegreeType(d),v),id); jv(N+"identity",Differential<B>::identity(DegreeType(d),v),id); jv(N+"constants",Differential<B>::constants(n,DegreeType(d),v),cs); },is);
      total(N+"vector-set_degree",[&]{ int nd=int(r.range(0,d)); DV V=F; V.set_degree(DegreeType(nd)); std::vector<S> t; for (auto& s:f) t.push_back(tps::trunc(s.s,nd)); jv(N+"vector-set_degree",V,t); },is); }
    total(N+"vector-ops",[&]{ std::vector<DS<T>> h; for (size_t i=0;i<k;++i) h.push_back(rnd<T>(r,pr,m,d,wide)); DV H=mkv(h); std::vector<S> a,b,c; for (size_t i=0;i<k;++i) { a.push_back(tps::add(f[i].s,h[i].s)); b.push_back(tps::sub(f[i].s,h[i].s)); c.push_back(tps::mul(h[0].s,f[i].s)); } jv(N+"vector-add",DV(F+H),a); jv(N+"vector-sub",DV(F-H),b); jv(N+"vector-mul",DV(H[0]*F),c); auto jj=ser(f); for (auto& t:h) jj.push_back(t.s); jv(N+"vector-join",DV(join(F,H)),jj); },is);
    // flows: phi_t=f(phi), against Picard iteration on series
    { size_t q=1+r.below(2); size_t na=r.below(2); bool time=r.coin(); int fd=int(r.range(1,q==2?2:3)); size_t as=q+(time?1:0)+na; std::vector<DS<T>> g; for (size_t i=0;i<q;++i) g.push_back(rnd<T>(r,pr,as,fd,wide)); DV G=mkv(g); Vector<B> x0(q,B(0,pr)),a0(na,B(0,pr)); std::vector<Q> xq,aq; for (size_t i=0;i<q;++i) { xq.push_back(coef(r)); x0[i]=enc<T>(r,pr,xq[i],wide); } Q tq=coef(r); B t0=enc<T>(r,pr,tq,wide); for (size_t i=0;i<na;++i) { aq.push_back(coef(r)); a0[i]=enc<T>(r,pr,aq[i],wide); }
      size_t p=q+1+na; int od=fd+1; std::vector<S> sx,phi; for (size_t i=0;i<q;++i) sx.push_back(tps::variable(p,od,I(xq[i]),i)); phi=sx; for (int it=0;it<=od;++it) { std::vector<S> arg; for (auto& s:phi) arg.push_back(tps::trunc(s,fd)); if (time) arg.push_back(tps::variable(p,fd,I(tq),q)); for (size_t i=0;i<na;++i) arg.push_back(tps::variable(p,fd,I(aq[i]),q+1+i)); std::vector<S> nx; for (size_t i=0;i<q;++i) nx.push_back(tps::add(sx[i],tps::antiderivative(tps::compose(g[i].s,arg),q))); phi=nx; }
      std::string key=N+(time?(na?"flow-time-param":"flow-time"):(na?"flow-param":"flow")); auto fi=[&]{ std::string s; for (auto& t:g) s+=tps::str(t.s)+" "; return s; }; total(key,[&]{ DV P=time?(na?flow(G,x0,t0,a0):flow(G,x0,t0)):(na?flow(G,x0,a0):flow(G,x0)); if (!ok(key+"/size",P.size()==q&&P.argument_size()==p,[&]{return cat(fi()," ",P.size()," ",P.argument_size());})) return; for (size_t i=0;i<q;++i) judge(key,P[i],phi[i],fi()); },fi); }
    // implicit functions: f(x,h(x))=0
    { size_t l=1+r.below(2),q=1+r.below(2); int sd=int(r.range(1,3)); std::vector<DS<T>> g; Q zero(0); for (size_t i=0;i<q;++i) g.push_back(rnd<T>(r,pr,l+q,sd,false,&zero)); for (size_t i=0;i<q;++i) { PV u(l+q,0); u[l+i]=1; Q big(long(60+10*i)); g[i].s.set(u,I(big)); g[i].D[mi(u)]=B(ref::rational(big),pr); for (size_t jx=0;jx<q;++jx) if (jx!=i) { PV w(l+q,0); w[l+jx]=1; Q sm(long(r.range(-5,5))); g[i].s.set(w,I(sm)); g[i].D[mi(w)]=B(ref::rational(sm),pr); } } DV G=mkv(g); Vector<B> y0(q,B(0,pr)); std::vector<Q> yq; for (size_t i=0;i<q;++i) { yq.push_back(coef(r)); y0[i]=enc<T>(r,pr,yq[i],false); } auto fi=[&]{ std::string s; for (auto& t:g) s+=tps::str(t.s)+" "; return s; };
      // oracle: Newton with the diagonal-dominant linear part solved by series fixed point h = -D^-1 (f - D h)
      std::vector<S> h(q,tps::constant(l,sd,I(0))); for (int it=0;it<200;++it) { std::vector<S> arg; for (size_t i=0;i<l;++i) arg.push_back(tps::variable(l,sd,I(0),i)); for (auto& s:h) arg.push_back(s); std::vector<S> nx; for (size_t i=0;i<q;++i) { PV u(l+q,0); u[l+i]=1; nx.push_back(tps::sub(h[i],tps::scale(tps::compose(g[i].s,arg),mpi::rec(g[i].s.get(u))))); } h=nx; if (q==1&&it>sd+1) break; }
      for (size_t i=0;i<q;++i) { S e=h[i]; Q eps=ref::pow(Q(2),-150); for (auto& t:e.c) t.second=t.second+I(Q(-eps),eps); e.set(PV(l,0),I(yq[i])); h[i]=e; } total(N+"solve",[&]{ DV H=solve(G,y0); ok(N+"solve/size",H.size()==q&&H.argument_size()==l); for (size_t i=0;i<q;++i) judge(N+"solve",H[i],h[i],fi()); },fi); } }
VF_SCENARIO(vec_dp,2) { vectors<fl::TDP>(r); }
VF_SCENARIO(vec_mp,1) { vectors<fl::TMP>(r); }

template<class T> static void series(vf::Rng& r) { auto pr=T::pr(r); if constexpr (!T::isdp) if (pr.bits()<40) pr=MultiplePrecision(64); using B=Bt<T>; std::string N=cat("Series",T::name(),"/"); mpi::Op o=FUN[r.below(12)]; Q c=centre(r,o); bool wide=r.coin(1,4); B b=enc<T>(r,pr,c,wide); int d=int(r.range(0,12)); auto e=tps::taylor(o,I(c),d); std::string key=N+mpi::opname(o); auto is=[&]{return cat(mpi::opname(o)," at ",bs(b));}; vf::distinct(cat(o,ref::str(c),d));
    auto chk=[&](auto op){ total(key,[&]{ Series<B> s(op,b); auto at=[&](int k){ ok(key,in(s[DegreeType(k)],e[size_t(k)]),[&]{return cat(is()," coefficient ",k,": ",bs(s[DegreeType(k)])," misses ",mpi::str(e[size_t(k)]));}); }; if (r.coin()) at(int(r.below(size_t(d)+1))); for (int k=0;k<=d;++k) at(k); auto l=s.coefficients(DegreeType(d)); ok(key+"/coefficients",l.size()>=size_t(d)+1,is);
        // exact one-variable differentials built from the series and from the variable
        UnivariateDifferential<B> u(op,DegreeType(d),b); for (int k=0;k<=d;++k) ok(key+"/univariate",in(u[DegreeType(k)],e[size_t(k)]),is); },is); };
    switch (o) { case mpi::POS: chk(Pos()); break; case mpi::NEG: chk(Neg()); break; case mpi::HLF: chk(Hlf()); break; case mpi::SQR: chk(Sqr()); break; case mpi::REC: chk(Rec()); break; case mpi::SQRT: chk(Sqrt()); break; case mpi::EXP: chk(Exp()); break; case mpi::LOG: chk(Log()); break; case mpi::SIN: chk(Sin()); break; case mpi::COS: chk(Cos()); break; case mpi::TAN: chk(Tan()); break; default: chk(Atan()); }
    // univariate differentials
    std::string U=cat("UnivariateDifferential",T::name(),"/"); auto mk=[&](int dd,std::vector<I>& s,Q const* v){ UnivariateDifferential<B> x=UnivariateDifferential<B>::constant(DegreeType(dd),B(0,pr)); s.clear(); for (int k=0;k<=dd;++k) { Q q=k==0&&v?*v:coef(r); x[DegreeType(k)]=enc<T>(r,pr,q,wide); s.push_back(I(q)); } return x; };
    std::vector<I> xs,ys; int d2=r.coin(1,4)?int(r.range(0,8)):std::min(d,8); d=std::min(d,8); auto x=mk(d,xs,&c),y=mk(d2,ys,nullptr); size_t m=size_t(std::min(d,d2))+1; auto tr=[&](std::vector<I> v,size_t z){ v.resize(z,I(0)); return v; }; auto xt=tr(xs,m),yt=tr(ys,m);
    auto J=[&](char const* op,auto f,std::vector<I> const& ex){ total(U+op,[&]{ UnivariateDifferential<B> z=f(); if (!ok(U+op+"/degree",size_t(z.degree())+1==ex.size(),[&]{return cat(int(z.degree())," not ",ex.size()-1);})) return; for (size_t k=0;k<ex.size();++k) ok(U+op,in(z[k],ex[k]),[&]{return cat("coefficient ",k," ",bs(z[k])," misses ",mpi::str(ex[k]));}); },is); };
    auto zip=[&](auto f){ std::vector<I> v; for (size_t k=0;k<m;++k) v.push_back(f(xt[k],yt[k])); return v; }; J("add",[&]{return x+y;},zip([](I const& a,I const& b_){return a+b_;})); J("sub",[&]{return x-y;},zip([](I const& a,I const& b_){return a-b_;})); J("mul",[&]{return x*y;},tps::umul(xt,yt)); J("neg",[&]{return -x;},[&]{auto v=xs; for (auto& q:v) q=-q; return v;}()); J("sqr",[&]{return sqr(x);},tps::umul(xs,xs)); { auto v=xs; v[0]=v[0]+I(c); J("add-scalar",[&]{return x+b;},v); v=xs; for (auto& q:v) q=q*I(c); J("mul-scalar",[&]{return x*b;},v); }
    auto comp=[&](std::vector<I> const& f,std::vector<I> w){ w[0]=I(0); std::vector<I> rr(w.size(),I(0)); rr[0]=f.back(); for (size_t k=f.size()-1;k-->0;) { rr=tps::umul(rr,w); rr[0]=rr[0]+f[k]; } return rr; };
    J("compose",[&]{return compose(x,y);},comp(xt,yt)); J("compose-alias",[&]{return compose(x,x);},comp(xs,xs)); J("operand",[&]{return x;},xs); { std::vector<I> v; for (size_t k=1;k<xs.size();++k) v.push_back(xs[k]*I(long(k))); if (v.empty()) v.push_back(I(0)); J("derivative",[&]{return derivative(x);},v); } { std::vector<I> v{I(0)}; for (size_t k=0;k<xs.size();++k) v.push_back(xs[k]/I(long(k)+1)); J("antiderivative",[&]{return antiderivative(x);},v); v[0]=I(c); J("antiderivative-constant",[&]{return antiderivative(x,b);},v); }
    if (c!=0||(o!=mpi::REC&&o!=mpi::LOG&&o!=mpi::SQRT)) { auto f=tps::taylor(o,I(c),d); J(mpi::opname(o),[&]{return mpi::apply1(o,x);},comp(f,xs)); } { std::vector<I> v(size_t(d)+1,I(0)); v[0]=I(c); J("constant",[&]{return UnivariateDifferential<B>::constant(DegreeType(d),b);},v); if (d>=1) v[1]=I(1); J("variable",[&]{return UnivariateDifferential<B>::variable(DegreeType(d),b);},v); } }
VF_SCENARIO(series_dp,3) { series<fl::TDP>(r); }
VF_SCENARIO(series_mp,2) { series<fl::TMP>(r); }

// random expressions of many operations evaluated on differentials
template<class T> static void expressions(vf::Rng& r) { auto pr=T::pr(r); if constexpr (!T::isdp) pr=MultiplePrecision(std::max<long>(long(pr.bits()),96)); using B=Bt<T>; std::string N=nm<T>(); size_t n=1+r.below(3); int d=int(r.range(1,4)); if (n==3) d=std::min(d,3); std::vector<I> dom; std::vector<Q> c; std::vector<S> xs; std::vector<Differential<B>> X; for (size_t i=0;i<n;++i) { Q q(r.range(-16,16),8); c.push_back(q); dom.push_back(I(Q(q-Q(1,64)),Q(q+Q(1,64)))); xs.push_back(tps::variable(n,d,I(q),i)); X.push_back(Differential<B>::variable(n,DegreeType(d),B(ref::rational(q),pr),i)); }
    auto e=mpi::random(r,dom,int(r.range(2,9)),mpi::Allow::but({mpi::ASIN,mpi::ACOS}),0.1,1e4,4); S s=tps::eval(e,xs); vf::distinct(mpi::shape(e)); std::function<Differential<B>(int)> ev; auto body=[&]{ std::vector<Differential<B>> w; for (auto const& v:e.v) switch (v.op) { case mpi::VAR: w.push_back(X[size_t(v.n)]); break; case mpi::CNST: w.push_back(Differential<B>::constant(n,DegreeType(d),B(ref::rational(v.c),pr))); break; case mpi::POW: w.push_back(pow(w[size_t(v.a)],Int(v.n))); break; case mpi::ADD: w.push_back(w[size_t(v.a)]+w[size_t(v.b)]); break; case mpi::SUB: w.push_back(w[size_t(v.a)]-w[size_t(v.b)]); break; case mpi::MUL: w.push_back(w[size_t(v.a)]*w[size_t(v.b)]); break; case mpi::DIV: w.push_back(w[size_t(v.a)]/w[size_t(v.b)]); break; case mpi::MAX: w.push_back(max(w[size_t(v.a)],w[size_t(v.b)])); break; case mpi::MIN: w.push_back(min(w[size_t(v.a)],w[size_t(v.b)])); break; default: w.push_back(app(v.op,w[size_t(v.a)])); } if (!s.bad) judge(N+"expression",w.back(),s,e.str()); };
    bool kinks=false; for (auto& v:e.v) if (v.op==mpi::ABS||v.op==mpi::MAX||v.op==mpi::MIN) kinks=true; if (kinks) partial(N+"expression",body); else total(N+"expression",body,[&]{return e.str();}); }
VF_SCENARIO(expr_dp,3) { expressions<fl::TDP>(r); }
VF_SCENARIO(expr_mp,2) { expressions<fl::TMP>(r); }
