// Functions, formulae and procedures (C14): whatever representation is evaluated or differentiated, it stands for the same real function.
#include "floats.hpp"
#include "alg.hpp"
#include "tps.hpp"
#include "function/function.hpp"
#include "function/formula.hpp"
#include "function/formula.tpl.hpp"
#include "function/procedure.hpp"
#include "function/taylor_model.hpp"
#include "algebra/algebra.hpp"
#include "algebra/differential.hpp"
#include "algebra/expansion.inl.hpp"
#include "geometry/interval.hpp"
#include "geometry/box.hpp"
using namespace Ariadne; using vf::ok; using vf::cat; using vf::total; using vf::partial; using ref::Q; using ref::X; using mpi::I; using mpi::Expr;
using EF=EffectiveScalarMultivariateFunction; using EV=EffectiveVectorMultivariateFunction; using VF=ValidatedScalarMultivariateFunction; using VV=ValidatedVectorMultivariateFunction; using EU=EffectiveScalarUnivariateFunction; using VU=ValidatedScalarUnivariateFunction;
static std::string pts(std::vector<Q> const& x) { std::string s="("; for (auto& q:x) s+=(s.size()>1?",":"")+ref::str(q); return s+")"; }
static Q pick(vf::Rng& r,Q const& l,Q const& h) { switch (r.below(5)) { case 0: return l; case 1: return h; default: { Q t(r.range(0,16),16); t.canonicalize(); return Q(l+(h-l)*t); } } }
static const mpi::Allow ALL=mpi::Allow::but({mpi::ASIN,mpi::ACOS}), SMTH=mpi::Allow::but({mpi::ASIN,mpi::ACOS,mpi::MAX,mpi::MIN,mpi::ABS}), POLY=mpi::Allow::only({mpi::CNST,mpi::NEG,mpi::POS,mpi::HLF,mpi::SQR,mpi::ADD,mpi::SUB,mpi::MUL,mpi::POW});
// a random expression on a random box of dyadic numbers
struct Cs { size_t n; std::vector<Q> l,h; std::vector<I> dom; Expr e; std::string is; };
// a zeroth or first power has a derivative written with a negative power of its argument, which need not be defined: those belong to evaluation only
static Expr rexpr(vf::Rng& r,std::vector<I> const& dom,int size,mpi::Allow const& al,double cap,int d=4) { for (;;) { Expr e=mpi::random(r,dom,size,al,0.15,cap,d); bool low=false; for (auto& n:e.v) if (n.op==mpi::POW&&(n.n==0||n.n==1)) low=true; if (!low||&al==&ALL) return e; } }
static Cs rcase(vf::Rng& r,size_t n,mpi::Allow const& al,int size,double cap=1e3) { Cs c; c.n=n; for (size_t i=0;i<n;++i) { Q a(r.range(-32,32),16); a.canonicalize(); Q b=r.coin(1,4)?a:Q(a+Q(r.range(0,24),16)); b.canonicalize(); c.l.push_back(a); c.h.push_back(b); c.dom.push_back(I(a,b)); } c.e=rexpr(r,c.dom,size,al,cap); c.is=cat(c.e.str()," on ",pts(c.l),"..",pts(c.h)); return c; }
static std::vector<Q> point(vf::Rng& r,Cs const& c) { std::vector<Q> p; for (size_t i=0;i<c.n;++i) p.push_back(pick(r,c.l[i],c.h[i])); return p; }
static std::vector<I> ivs(std::vector<Q> const& p) { std::vector<I> v; for (auto& q:p) v.push_back(I(q)); return v; }
template<class X> static X nmax(X const& a,X const& b) { return max(a,b); } template<class X> static X nmin(X const& a,X const& b) { return min(a,b); } template<class X> static X nabs(X const& a) { return abs(a); }
// build with scalar-operand forms too
template<class T,class N,class K> static T make(vf::Rng& r,Expr const& e,std::vector<T> const& xs,K const& k,N const& num) { std::vector<T> w; w.reserve(e.v.size()); for (auto const& n:e.v) { auto A=[&](int i)->T const&{return w[size_t(i)];}; bool ca=n.a>=0&&e.v[size_t(n.a)].op==mpi::CNST, cb=n.b>=0&&e.v[size_t(n.b)].op==mpi::CNST; bool ua=ca&&!cb&&r.coin(2,3), ub=cb&&!ca&&r.coin(2,3); auto nu=[&](int i){return num(e.v[size_t(i)].c);};
    switch (n.op) { case mpi::VAR: w.push_back(xs[size_t(n.n)]); break; case mpi::CNST: w.push_back(k(n.c)); break;
      case mpi::ADD: w.push_back(ua?nu(n.a)+A(n.b):ub?A(n.a)+nu(n.b):A(n.a)+A(n.b)); break; case mpi::SUB: w.push_back(ua?nu(n.a)-A(n.b):ub?A(n.a)-nu(n.b):A(n.a)-A(n.b)); break; case mpi::MUL: w.push_back(ua?nu(n.a)*A(n.b):ub?A(n.a)*nu(n.b):A(n.a)*A(n.b)); break; case mpi::DIV: w.push_back(ua?nu(n.a)/A(n.b):ub?A(n.a)/nu(n.b):A(n.a)/A(n.b)); break;
      case mpi::MAX: w.push_back(nmax(A(n.a),A(n.b))); break; case mpi::MIN: w.push_back(nmin(A(n.a),A(n.b))); break; case mpi::ABS: w.push_back(nabs(A(n.a))); break; case mpi::POW: w.push_back(pow(A(n.a),int(n.n))); break; default: w.push_back(mpi::apply1(n.op,A(n.a))); } } return w.back(); }
static EF effective(vf::Rng& r,Expr const& e,size_t n) { std::vector<EF> xs; for (size_t i=0;i<n;++i) xs.push_back(EF::coordinate(n,i)); return make(r,e,xs,[&](Q const& q){return EF::constant(n,EffectiveNumber(ref::rational(q)));},[&](Q const& q){return EffectiveNumber(ref::rational(q));}); }
static VF validated(vf::Rng& r,Expr const& e,size_t n) { std::vector<VF> xs; for (size_t i=0;i<n;++i) xs.push_back(VF::coordinate(n,i)); return make(r,e,xs,[&](Q const& q){return VF::constant(n,ValidatedNumber(ref::rational(q)));},[&](Q const& q){return ValidatedNumber(ref::rational(q));}); }
template<class Y> static Formula<Y> formula(vf::Rng& r,Expr const& e,size_t n) { std::vector<Formula<Y>> xs; for (size_t i=0;i<n;++i) xs.push_back(Formula<Y>::coordinate(i)); return make(r,e,xs,[&](Q const& q){return Formula<Y>::constant(Y(ref::rational(q)));},[&](Q const& q){return Y(ref::rational(q));}); }
template<class T> static Bounds<typename T::F> bnd(Q const& a,Q const& b,typename T::PR pr) { return Bounds<typename T::F>(T::of(a,pr),T::of(b,pr)); }
template<class T> static Vector<Bounds<typename T::F>> bvec(Cs const& c,typename T::PR pr) { Vector<Bounds<typename T::F>> b(c.n,Bounds<typename T::F>(pr)); for (size_t i=0;i<c.n;++i) b[i]=bnd<T>(c.l[i],c.h[i],pr); return b; }
template<class B> static void enc(std::string const& key,B const& b,I const& v,std::string const& in) { if (v.bad) return; if (fl::lo(b).isnan()&&fl::hi(b).isnan()&&(key.find("erivative")!=std::string::npos||key.find("gradient")!=std::string::npos||key.find("hessian")!=std::string::npos||key.find("acobian")!=std::string::npos)&&in.find("pow(")!=std::string::npos) { vf::note("derivative not defined as written"); return; } ok(key,mpi::holds(fl::lo(b),fl::hi(b),v),[&]{return cat(in," gave [",ref::str(fl::lo(b)),",",ref::str(fl::hi(b)),"] misses ",mpi::str(v));}); }
static void encu(std::string const& key,UpperIntervalType const& b,I const& v,std::string const& in) { if (v.bad) return; X l=ref::x(b.lower_bound().raw()),u=ref::x(b.upper_bound().raw()); ok(key,mpi::holds(l,u,v),[&]{return cat(in," gave [",ref::str(l),",",ref::str(u),"] misses ",mpi::str(v));}); }
static UpperBoxType ubox(Cs const& c) { Array<UpperIntervalType> a(c.n,UpperIntervalType()); for (size_t i=0;i<c.n;++i) a[i]=UpperIntervalType(FloatDPLowerBound(FloatDP(ExactDouble(c.l[i].get_d()),dp)),FloatDPUpperBound(FloatDP(ExactDouble(c.h[i].get_d()),dp))); return UpperBoxType(Vector<UpperIntervalType>(a)); }

// every way to evaluate a multivariate function
VF_SCENARIO(evaluate,6) { size_t n=1+r.below(3); Cs c=rcase(r,n,ALL,int(r.range(1,10))); vf::distinct(mpi::shape(c.e)); std::string P="Function/"; MultiplePrecision mp_(fl::TMP::pr(r)); auto in=[&]{return c.is;}; std::vector<std::vector<Q>> ps; for (int i=0;i<3;++i) ps.push_back(point(r,c)); auto each=[&](std::string key,auto const& b){ for (auto& p:ps) enc(key,b,mpi::eval(c.e,ivs(p)),c.is+" at "+pts(p)); };
    auto bd=bvec<fl::TDP>(c,dp); auto bm=bvec<fl::TMP>(c,mp_); for (size_t i=0;i<n;++i) if (ref::q(bm[i].lower().raw())>c.l[i]||ref::q(bm[i].upper().raw())<c.h[i]) bm=bvec<fl::TMP>(c,MultiplePrecision(64));
    total(P+"evaluate",[&]{ EF f=effective(r,c.e,n); ok(P+"argument_size",f.argument_size()==n,in); each(P+"effective-dp",f(bd)); each(P+"effective-mp",f(bm)); each(P+"effective-evaluate",evaluate(f,bd)); VF g(f); each(P+"effective-as-validated",g(bd)); each(P+"effective-as-validated-mp",g(bm)); VF v=validated(r,c.e,n); each(P+"validated-dp",v(bd)); each(P+"validated-mp",v(bm)); Vector<ValidatedNumber> y(n,ValidatedNumber(0)); for (size_t i=0;i<n;++i) y[i]=ValidatedNumber(bd[i]); each(P+"validated-number",v(y).get(dp)); UpperIntervalType u=evaluate_range(g,cast_vector(ubox(c))); for (auto& p:ps) encu(P+"evaluate_range",u,mpi::eval(c.e,ivs(p)),c.is); UpperIntervalType im=image(ubox(c),g); for (auto& p:ps) encu(P+"image",im,mpi::eval(c.e,ivs(p)),c.is);
        // at a point
        auto p=ps[0]; I ev=mpi::eval(c.e,ivs(p)); Vector<Real> x(n,Real(0)); for (size_t i=0;i<n;++i) x[i]=Real(ref::rational(p[i])); enc(P+"effective-real",f(x).get(dp),ev,c.is); Vector<FloatDP> xe(n,FloatDP(0,dp)); for (size_t i=0;i<n;++i) xe[i]=FloatDP(ExactDouble(p[i].get_d()),dp); enc(P+"validated-exact",v(xe),ev,c.is); Vector<FloatDPApproximation> xa(xe); double a=v(xa).get_d(); double lo=ev.dl(),hi=ev.du(); (void)a; (void)lo; (void)hi; if (!ev.bad) { FloatDPBounds tight=v(xe); double w=tight.upper().get_d()-tight.lower().get_d(); ok(P+"approximate-near",w!=w||std::fabs(a-lo)<=4*w+1e-9*(1+std::fabs(lo)),[&]{return cat(c.is," approximately ",a," but exactly ",mpi::str(ev));}); } },in); }
VF_SCENARIO(vectors,4) { size_t n=1+r.below(3); Cs c=rcase(r,n,ALL,int(r.range(1,6))); Expr e2=mpi::random(r,c.dom,int(r.range(1,6)),ALL,0.15,1e3,3); vf::distinct(mpi::shape(c.e)+mpi::shape(e2)); std::string P="VectorFunction/"; std::string is=c.is+" and "+e2.str(); auto in=[&]{return is;}; auto bd=bvec<fl::TDP>(c,dp); std::vector<std::vector<Q>> ps; for (int i=0;i<2;++i) ps.push_back(point(r,c)); using VI=std::vector<I>;
    total(P+"algebra",[&]{ EF f=effective(r,c.e,n),g=effective(r,e2,n); EV v({f,g}),w({g,f}); EffectiveNumber k(Rational(1,3)); auto ck=[&](char const* nm,EV const& z,auto q){ auto b=z(bd); for (auto& p:ps) { auto x=ivs(p); VI ex=q(mpi::eval(c.e,x),mpi::eval(e2,x),x); if (!ok(cat(P,nm,"-size"),z.result_size()==ex.size()&&z.argument_size()==n,in)) return; for (size_t i=0;i<ex.size();++i) { enc(cat(P,nm),b[i],ex[i],cat(is," at ",pts(p)," ",i)); enc(cat(P,nm,"-element"),z[i](bd),ex[i],cat(is," at ",pts(p)," ",i)); } } }; using C=I const&; using X=std::vector<I> const&;
        ck("list",v,[](C a,C b,X){return VI{a,b};}); ck("add",v+w,[](C a,C b,X){return VI{a+b,a+b};}); ck("sub",v-w,[](C a,C b,X){return VI{a-b,b-a};}); ck("scalar-mul",k*v,[](C a,C b,X){return VI{a*I(Q(1,3)),b*I(Q(1,3))};}); ck("function-mul",f*w,[](C a,C b,X){return VI{a*b,a*a};}); ck("mul-function",w*f,[](C a,C b,X){return VI{a*b,a*a};}); ck("join-ss",join(f,g),[](C a,C b,X){return VI{a,b};}); ck("join-sv",join(g,v),[](C a,C b,X){return VI{b,a,b};}); ck("join-vs",join(v,f),[](C a,C b,X){return VI{a,b,a};}); ck("join-vv",join(v,w),[](C a,C b,X){return VI{a,b,b,a};}); ck("identity",EV::identity(n),[](C,C,X x){return VI(x);}); ck("zeros",EV::zeros(2,n),[](C,C,X){return VI{I(0),I(0)};}); { EV z=v; z[0]=g; ck("element-set",z,[](C,C b,X){return VI{b,b};}); EV y=v; EV y2=y; y[1]=f; ck("copy-independent",y2,[](C a,C b,X){return VI{a,b};}); } ck("neg",-v,[](C a,C b,X){return VI{-a,-b};});
        VV vv(v); auto b=vv(bd); for (auto& p:ps) { auto x=ivs(p); enc(P+"validated",b[0],mpi::eval(c.e,x),is); enc(P+"validated",b[1],mpi::eval(e2,x),is); } auto ub=evaluate_range(vv,cast_vector(ubox(c))); for (auto& p:ps) encu(P+"evaluate_range",ub[1],mpi::eval(e2,ivs(p)),is); VV jn=join(VF(g),vv); enc(P+"validated-join",jn(bd)[0],mpi::eval(e2,ivs(ps[0])),is); VV j2=join(vv,VF(f)); enc(P+"validated-join-vs",j2(bd)[2],mpi::eval(c.e,ivs(ps[0])),is); },in); }
VF_SCENARIO(compose,4) { // outer expression on a box that holds the values of the inner ones
    size_t n=1+r.below(2),m=1+r.below(2); Cs c=rcase(r,n,SMTH,int(r.range(1,5)),20); std::vector<Expr> in{c.e}; if (m==2) in.push_back(rexpr(r,c.dom,int(r.range(1,5)),SMTH,20,3)); std::vector<I> mid; for (auto& e:in) mid.push_back(mpi::eval(e,c.dom)); for (auto& i:mid) if (i.bad) return; Expr o=mpi::random(r,mid,int(r.range(1,5)),SMTH,0.15,1e4,3), o2=mpi::random(r,mid,3,SMTH,0.15,1e4,3); std::string P="compose/"; std::string is=cat(o.str(),",",o2.str()," of ",c.is,m==2?" and "+in[1].str():""); vf::distinct(mpi::shape(o)+mpi::shape(c.e)); auto f_=[&]{return is;}; auto bd=bvec<fl::TDP>(c,dp); std::vector<std::vector<Q>> ps; for (int i=0;i<2;++i) ps.push_back(point(r,c)); auto val=[&](Expr const& w,std::vector<Q> const& p){ std::vector<I> y; for (auto& e:in) y.push_back(mpi::eval(e,ivs(p))); return mpi::eval(w,y); };
    partial(P+"compose",[&]{ EF f=effective(r,o,m),f2=effective(r,o2,m); EV g(m,n); for (size_t i=0;i<m;++i) g[i]=effective(r,in[i],n); EF z=compose(f,g); EV zv=compose(EV({f,f2}),g); VF zz=compose(VF(f),VV(g)); VV zzv=compose(VV(EV({f,f2})),VV(g)); for (auto& p:ps) { enc(P+"scalar",z(bd),val(o,p),is); enc(P+"vector",zv(bd)[1],val(o2,p),is); enc(P+"validated-scalar",zz(bd),val(o,p),is); enc(P+"validated-vector",zzv(bd)[1],val(o2,p),is); }
        if (m==1) { EU u=make(r,o,std::vector<EU>{EU::coordinate()},[&](Q const& q){return EU::constant(EffectiveNumber(ref::rational(q)));},[&](Q const& q){return EffectiveNumber(ref::rational(q));}); EF w=compose(u,effective(r,in[0],n)); for (auto& p:ps) { enc(P+"univariate-of-multivariate",w(bd),val(o,p),is); } VF wv=compose(VU(u),VF(effective(r,in[0],n))); for (auto& p:ps) enc(P+"validated-univariate-of-multivariate",wv(bd),val(o,p),is); if (n==1) { EU ui=make(r,in[0],std::vector<EU>{EU::coordinate()},[&](Q const& q){return EU::constant(EffectiveNumber(ref::rational(q)));},[&](Q const& q){return EffectiveNumber(ref::rational(q));}); EU uu=compose(u,ui); for (auto& p:ps) { enc(P+"univariate",uu(bd[0]),val(o,p),is); enc(P+"univariate-inner",ui(bd[0]),mpi::eval(in[0],ivs(p)),is); } } } }); }

// derivatives of every kind
VF_SCENARIO(derivatives,6) { size_t n=1+r.below(3); Cs c=rcase(r,n,SMTH,int(r.range(1,7)),100); for (size_t i=0;i<n;++i) if (r.coin(2,3)) { c.h[i]=c.l[i]; c.dom[i]=I(c.l[i]); } Expr e2=rexpr(r,c.dom,int(r.range(1,5)),SMTH,100,3); vf::distinct("d"+mpi::shape(c.e)); std::string P="derivative/"; std::string is=c.is+" and "+e2.str(); auto in=[&]{return is;}; auto bd=bvec<fl::TDP>(c,dp); auto p=point(r,c); std::vector<tps::S> xs; for (size_t i=0;i<n;++i) xs.push_back(tps::variable(n,2,I(p[i]),i)); tps::S s=tps::eval(c.e,xs),s2=tps::eval(e2,xs); if (s.bad||s2.bad) return; auto D=[&](tps::S const& t,size_t i){ tps::PV v(n,0); v[i]=1; return t.get(v); }; auto H=[&](tps::S const& t,size_t i,size_t j){ tps::PV v(n,0); ++v[i]; ++v[j]; return i==j?t.get(v)*I(2):t.get(v); };
    total(P+"derivatives",[&]{ EF f=effective(r,c.e,n),g=effective(r,e2,n); VF v=validated(r,c.e,n); EV fv({f,g}); VV vv(fv); for (size_t k=0;k<n;++k) { EF d=derivative(f,k); enc(P+"effective",d(bd),D(s,k),cat(is," k=",k)); enc(P+"member",f.derivative(k)(bd),D(s,k),cat(is," k=",k)); enc(P+"validated",derivative(v,k)(bd),D(s,k),cat(is," k=",k)); enc(P+"vector",derivative(fv,k)(bd)[1],D(s2,k),cat(is," k=",k)); size_t j=r.below(n); enc(P+"second",derivative(d,j)(bd),H(s,k,j),cat(is," k=",k,",",j)); }
        auto gr=gradient(f,bd); auto gv=v.gradient(bd); auto J=jacobian(fv,bd); auto Jv=vv.jacobian(bd); auto he=hessian(v,bd); auto df=f.differential(bd,2); for (size_t k=0;k<n;++k) { enc(P+"gradient",gr[k],D(s,k),cat(is," k=",k)); enc(P+"validated-gradient",gv[k],D(s,k),cat(is," k=",k)); enc(P+"jacobian",J[0][k],D(s,k),cat(is," k=",k)); enc(P+"jacobian",J[1][k],D(s2,k),cat(is," k=",k)); enc(P+"validated-jacobian",Jv[1][k],D(s2,k),cat(is," k=",k)); enc(P+"differential-gradient",df.gradient(k),D(s,k),cat(is," k=",k)); for (size_t j=0;j<n;++j) enc(P+"hessian",he.at(k,j),H(s,k,j),cat(is," ",k,",",j)); } enc(P+"differential-value",df.value(),s.value(),is);
        auto ds=derivatives(f); for (size_t k=0;k<n;++k) enc(P+"derivatives",ds(bd)[k],D(s,k),is); EV fld(n,n); for (size_t k=0;k<n;++k) fld[k]=k%2?g:f; EF ld=lie_derivative(g,fld); I lv(0); for (size_t k=0;k<n;++k) lv=lv+D(s2,k)*(k%2?s2.value():s.value()); enc(P+"lie_derivative",ld(bd),lv,is); EV lvv=lie_derivative(fv,fld); enc(P+"vector-lie_derivative",lvv(bd)[1],lv,is); auto grr=gradient_range(VF(f),cast_vector(ubox(c))); for (size_t k=0;k<n;++k) encu(P+"gradient_range",grr[k],D(s,k),is); auto jr=jacobian_range(vv,cast_vector(ubox(c))); for (size_t k=0;k<n;++k) encu(P+"jacobian_range",jr[1][k],D(s2,k),is); },in);
    if (n==1) total(P+"univariate",[&]{ EU u=make(r,c.e,std::vector<EU>{EU::coordinate()},[&](Q const& q){return EU::constant(EffectiveNumber(ref::rational(q)));},[&](Q const& q){return EffectiveNumber(ref::rational(q));}); enc(P+"univariate-value",u(bd[0]),s.value(),is); enc(P+"univariate",derivative(u,IndexZero())(bd[0]),D(s,0),is); enc(P+"slope",slope(u,bd[0]),D(s,0),is); enc(P+"validated-univariate",derivative(VU(u),IndexZero())(bd[0]),D(s,0),is); },in); }

// formulae: evaluation, differentiation, substitution, simplification
template<class Y> static void formulae(vf::Rng& r,char const* nm) { size_t n=1+r.below(3); Cs c=rcase(r,n,r.coin()?ALL:SMTH,int(r.range(1,8)),200); bool smooth=true; for (auto& v:c.e.v) if (v.op==mpi::MAX||v.op==mpi::MIN||v.op==mpi::ABS||(v.op==mpi::POW&&(v.n==0||v.n==1))) smooth=false; vf::distinct("f"+mpi::shape(c.e)); std::string P=cat("Formula",nm,"/"); auto in=[&]{return c.is;}; auto bd=bvec<fl::TDP>(c,dp); std::vector<std::vector<Q>> ps; for (int i=0;i<2;++i) ps.push_back(point(r,c)); auto each=[&](std::string key,auto const& b){ for (auto& p:ps) enc(key,b,mpi::eval(c.e,ivs(p)),c.is+" at "+pts(p)); };
    total(P+"evaluate",[&]{ Formula<Y> f=formula<Y>(r,c.e,n); each(P+"evaluate",evaluate(f,bd)); each(P+"cached_evaluate",cached_evaluate(f,bd)); each(P+"direct_evaluate",direct_evaluate(f,bd)); Formula<Y> s=simplify(f); each(P+"simplify",evaluate(s,bd)); Formula<Y> ss=simplify(s); each(P+"simplify-twice",evaluate(ss,bd)); Vector<Formula<Y>> fv(2,f); fv[1]=s; auto w=evaluate(fv,bd); each(P+"vector-evaluate",w[0]); each(P+"vector-evaluate",w[1]); auto wc=cached_evaluate(fv,bd); each(P+"vector-cached_evaluate",wc[1]); Vector<Formula<Y>> sv=simplify(fv); each(P+"vector-simplify",evaluate(sv,bd)[0]);
        if (smooth) { auto& p=ps[0]; Vector<FloatDPBounds> pp(n,FloatDPBounds(dp)); for (size_t i=0;i<n;++i) pp[i]=bnd<fl::TDP>(p[i],p[i],dp); std::vector<tps::S> xs; for (size_t i=0;i<n;++i) xs.push_back(tps::variable(n,1,I(p[i]),i)); tps::S t=tps::eval(c.e,xs); if (!t.bad) for (size_t k=0;k<n;++k) { tps::PV v(n,0); v[k]=1; Formula<Y> d=derivative(f,k); enc(P+"derivative",evaluate(d,pp),t.get(v),cat(c.is," k=",k)); enc(P+"derivative-simplified",evaluate(simplify(d),pp),t.get(v),cat(c.is," k=",k)); } }
        // substitution of a constant, and of formulae
        { size_t k=r.below(n); auto p=ps[0]; Formula<Y> z=substitute(f,Nat(k),Y(ref::rational(p[k]))); Vector<FloatDPBounds> q=bd; q[k]=FloatDPBounds(FloatDP(ExactDouble(1e300),dp)); for (auto& t:ps) { auto u=t; u[k]=p[k]; enc(P+"substitute-constant",evaluate(z,q),mpi::eval(c.e,ivs(u)),cat(c.is," x",k,"=",ref::str(p[k]))); } if (n>=2) { size_t j=(k+1)%n; // swap two coordinates simultaneously
            List<Pair<Nat,Formula<Y>>> as; as.append(Pair<Nat,Formula<Y>>(Nat(k),Formula<Y>::coordinate(k)+Y(ref::rational(Q(1))))); as.append(Pair<Nat,Formula<Y>>(Nat(j),Formula<Y>::coordinate(j)*Y(ref::rational(Q(2))))); Formula<Y> sw=substitute(f,as); auto q2=bd; q2[k]=bnd<fl::TDP>(Q(c.l[k]-1),Q(c.h[k]-1),dp); q2[j]=bnd<fl::TDP>(Q(c.l[j]/2),Q(c.h[j]/2),dp); each(P+"substitute-list",evaluate(sw,q2)); } } },in);
    // structural claims about affine dependence, checked on exact values
    total(P+"structure",[&]{ std::vector<I> dd=c.dom; Expr pe=mpi::random(r,dd,int(r.range(1,6)),POLY,0.1,1e6,3); Formula<Y> f=formula<Y>(r,pe,n); std::string is=pe.str(); Set<Nat> is_; std::vector<size_t> idx; for (size_t i=0;i<n;++i) if (r.coin()) { is_.insert(Nat(i)); idx.push_back(i); } bool af=is_affine_in(f,is_), co=is_constant_in(f,is_); auto base=point(r,c); std::vector<Q> dir(n,Q(0)); for (size_t i:idx) dir[i]=Q(r.range(-5,5)); auto at=[&](long k){ std::vector<I> x; for (size_t i=0;i<n;++i) x.push_back(I(Q(base[i]+k*dir[i]))); return mpi::eval(pe,x); }; I a=at(-1),b=at(0),d=at(1); I second=a+d-b*I(2),first=d-b; if (co) ok(P+"is_constant_in",first.zero(),[&]{return cat(is," changes along a direction of the index set");}); if (af) ok(P+"is_affine_in",second.zero(),[&]{return cat(is," is not affine along a direction of the index set");}); },in); }
VF_SCENARIO(formula_effective,3) { formulae<EffectiveNumber>(r,"Effective"); }
VF_SCENARIO(formula_real,2) { formulae<Real>(r,"Real"); }

// procedures: straight-line programs
VF_SCENARIO(procedures,4) { size_t n=1+r.below(3); bool sm=r.coin(2,3); Cs c=rcase(r,n,sm?SMTH:ALL,int(r.range(1,9)),200); Expr e2=rexpr(r,c.dom,int(r.range(1,5)),sm?SMTH:ALL,100,3); vf::distinct("p"+mpi::shape(c.e)); std::string P="Procedure/"; std::string is=c.is+" and "+e2.str(); auto in=[&]{return is;}; auto bd=bvec<fl::TDP>(c,dp); std::vector<std::vector<Q>> ps; for (int i=0;i<2;++i) ps.push_back(point(r,c)); auto each=[&](std::string key,auto const& b,Expr const& e){ for (auto& p:ps) enc(key,b,mpi::eval(e,ivs(p)),is+" at "+pts(p)); };
    total(P+"evaluate",[&]{ VF v=validated(r,c.e,n); ValidatedProcedure q=make_procedure(v); each(P+"evaluate",evaluate(q,bd),c.e); ValidatedProcedure q2(n,formula<ValidatedNumber>(r,c.e,n)); each(P+"from-formula",evaluate(q2,bd),c.e); VV vv(VV(n?2u:2u,n)); vv[0]=v; vv[1]=validated(r,e2,n); Vector<ValidatedProcedure> pv(vv); List<FloatDPBounds> t(pv._instructions.size(),FloatDPBounds(dp)); execute(t,pv,bd); each(P+"vector",t[pv._results[0]],c.e); each(P+"vector",t[pv._results[1]],e2); Vector<ValidatedProcedure> p1(q); List<FloatDPBounds> t1(p1._instructions.size(),FloatDPBounds(dp)); execute(t1,p1,bd); each(P+"vector-of-one",t1[p1._results[0]],c.e); Vector<Formula<ValidatedNumber>> fv(3,formula<ValidatedNumber>(r,c.e,n)); fv[1]=formula<ValidatedNumber>(r,e2,n); fv[2]=fv[0]*fv[1]; Vector<ValidatedProcedure> p3(n,fv); List<FloatDPBounds> t3(p3._instructions.size(),FloatDPBounds(dp)); execute(t3,p3,bd); each(P+"shared-subterms",t3[p3._results[1]],e2); for (auto& p:ps) enc(P+"shared-product",t3[p3._results[2]],mpi::eval(c.e,ivs(p))*mpi::eval(e2,ivs(p)),is); List<UpperIntervalType> tu(q._instructions.size()); _execute(tu,q._instructions,q._constants,Vector<UpperIntervalType>(cast_vector(ubox(c)))); for (auto& p:ps) encu(P+"interval",tu.back(),mpi::eval(c.e,ivs(p)),is);
        if (sm) { auto& p=ps[0]; Vector<FloatDPBounds> pp(n,FloatDPBounds(dp)),dir(n,FloatDPBounds(dp)); std::vector<Q> dq; for (size_t i=0;i<n;++i) { pp[i]=bnd<fl::TDP>(p[i],p[i],dp); dq.push_back(Q(r.range(-8,8),4)); dq.back().canonicalize(); dir[i]=bnd<fl::TDP>(dq[i],dq[i],dp); } std::vector<tps::S> xs; for (size_t i=0;i<n;++i) xs.push_back(tps::variable(n,2,I(p[i]),i)); tps::S t2=tps::eval(c.e,xs); if (!t2.bad) { auto g=gradient(q,pp); for (size_t k=0;k<n;++k) { tps::PV v2(n,0); v2[k]=1; enc(P+"gradient",g[k],t2.get(v2),cat(is," k=",k," at ",pts(p))); } I h(0); for (size_t i=0;i<n;++i) for (size_t j=0;j<n;++j) { tps::PV v2(n,0); ++v2[i]; ++v2[j]; I w=i==j?t2.get(v2)*I(2):t2.get(v2); h=h+w*I(dq[i])*I(dq[j]); } enc(P+"hessian",hessian(q,pp,dir),h,cat(is," at ",pts(p)," direction ",pts(dq))); } } },in); }
