// Polynomials, Chebyshev polynomials, affine forms and affine models (C15), compared with exact rational polynomials.
#include "floats.hpp"
#include "tm.hpp"
#include "alg.hpp"
#include <map>
#include "numeric/numeric.hpp"
#include "algebra/algebra.hpp"
#include "algebra/expansion.hpp"
#include "algebra/expansion.inl.hpp"
#include "function/polynomial.hpp"
#include "function/chebyshev_polynomial.hpp"
#include "function/function.hpp"
#include "function/affine.hpp"
#include "function/affine_model.hpp"
#include "function/taylor_function.hpp"
#include "function/affine_model.tpl.hpp"
#include "geometry/box.hpp"
using namespace Ariadne; using vf::ok; using vf::cat; using vf::total; using ref::Q; using ref::X; using mpi::I;
using PV=std::vector<int>;
// exact polynomials
struct RP { size_t n=0; std::map<PV,Q> t; RP() { } explicit RP(size_t n_) : n(n_) { } Q at(PV const& p) const { auto i=t.find(p); return i==t.end()?Q(0):i->second; }
    std::string str() const { std::string s="{"; for (auto& e:t) { s+="("; for (int x:e.first) s+=std::to_string(x)+","; s+="):"+ref::str(e.second)+" "; } return s+"}"; }
    Q operator()(std::vector<Q> const& x) const { Q v(0); for (auto& e:t) { Q m=e.second; for (size_t i=0;i<n;++i) m*=ref::pow(x[i],e.first[i]); v+=m; } return v; } };
static int deg(PV const& p) { int d=0; for (int x:p) d+=x; return d; }
static RP operator+(RP const& a,RP const& b) { RP c=a; for (auto& e:b.t) c.t[e.first]+=e.second; return c; }
static RP operator*(Q const& k,RP const& a) { RP c(a.n); for (auto& e:a.t) c.t[e.first]=k*e.second; return c; }
static RP operator-(RP const& a,RP const& b) { return a+Q(-1)*b; }
static RP operator*(RP const& a,RP const& b) { RP c(a.n); for (auto& x:a.t) for (auto& y:b.t) { PV p=x.first; for (size_t i=0;i<p.size();++i) p[i]+=y.first[i]; c.t[p]+=x.second*y.second; } return c; }
static RP cst(size_t n,Q const& k) { RP c(n); c.t[PV(n,0)]=k; return c; }
static RP crd(size_t n,size_t j) { RP c(n); PV p(n,0); p[j]=1; c.t[p]=1; return c; }
static RP comp(RP const& p,std::vector<RP> const& q) { RP r(q[0].n); for (auto& e:p.t) { RP m=cst(q[0].n,e.second); for (size_t i=0;i<p.n;++i) for (int k=0;k<e.first[i];++k) m=m*q[i]; r=r+m; } return r; }
static RP der(RP const& p,size_t j) { RP r(p.n); for (auto& e:p.t) if (e.first[j]) { PV a=e.first; Q k=e.second*a[j]; --a[j]; r.t[a]+=k; } return r; }
static RP anti(RP const& p,size_t j) { RP r(p.n); for (auto& e:p.t) { PV a=e.first; ++a[j]; r.t[a]+=Q(e.second/a[j]); } return r; }
static RP trunc(RP const& p,int d) { RP r(p.n); for (auto& e:p.t) if (deg(e.first)<=d) r.t[e.first]=e.second; return r; }
static Q rc(vf::Rng& r) { if (r.coin(1,8)) return Q(0); Q q(r.range(-24,24),1<<r.below(4)); q.canonicalize(); return q; }
static RP rpoly(vf::Rng& r,size_t n,int terms,int md) { RP p(n); int k=int(r.below(uint64_t(terms)+1)); for (int i=0;i<k;++i) { PV a(n); for (auto& x:a) x=int(r.below(uint64_t(md)+1)); p.t[a]=rc(r); } return p; }
// index handling
static MultiIndex mi(PV const& p) { MultiIndex a(p.size()); for (size_t i=0;i<p.size();++i) a[i]=DegreeType(p[i]); return a; }
template<class Ix> static PV pv(Ix const& a) { if constexpr (std::is_convertible_v<Ix,UniIndex>) { return PV{int(DegreeType(UniIndex(a)))}; } else { PV p; for (size_t i=0;i<a.size();++i) p.push_back(int(a[i])); return p; } }
// number types
template<class T> struct NB { using N=Bounds<typename T::F>; using PR=typename T::PR; static constexpr bool exact=false; static N of(Q const& q,PR pr) { return N(T::of(q,pr)); } };
template<class T> struct NA { using N=Approximation<typename T::F>; using PR=typename T::PR; static constexpr bool exact=true; static N of(Q const& q,PR pr) { return N(T::of(q,pr)); } };
// an approximation of small dyadic numbers may be off by rounding only
template<class N> static void isv(std::string const& key,N const& v,Q const& q,std::string const& in) { if constexpr (requires { fl::lo(v); }) fl::encloses(key,v,q,in); else { X x=ref::x(v.raw()); Q tol(1,1<<20); ok(key,x.finite()&&ref::abs(Q(x.v-q))<=tol*(1+ref::abs(q)),[&]{return cat(in," gave ",ref::str(x)," expected ",ref::str(q));}); } }
template<class P> static void same(std::string const& key,P const& p,RP const& e,std::string const& in) { RP left=e; std::map<PV,int> seen; for (auto it=p.begin();it!=p.end();++it) { PV a=pv(it->index()); if (a.size()!=e.n) { vf::fail(key+"/size",in); return; } if (++seen[a]>1) { vf::fail(key+"/repeated-term",in); return; } isv(key,it->coefficient(),e.at(a),in); left.t.erase(a); } for (auto& t:left.t) ok(key+"/missing-term",t.second==0,[&]{return cat(in," lacks a term; expected ",e.str());}); }

template<class A> static void multi(vf::Rng& r,std::string const& nm,typename A::PR pr) { using N=typename A::N; using P=MultivariatePolynomial<N>; std::string K="Polynomial"+nm+"/"; size_t n=1+r.below(3); N z=A::of(Q(0),pr); auto num=[&](Q const& q){return A::of(q,pr);};
    RP a=rpoly(r,n,6,3),b=rpoly(r,n,5,2); Q c=rc(r),d=rc(r); if (d==0) d=2; int dd=1<<r.below(4); std::string is=cat(a.str()," and ",b.str()," c=",ref::str(c)," d=",ref::str(d)); auto in=[&]{return is;}; vf::distinct(is);
    total(K+"arithmetic",[&]{ auto mk=[&](RP const& q){ // build in random order, with cancelling and repeated terms combined on the way
            P p(n,z); std::vector<std::pair<PV,Q>> ts(q.t.begin(),q.t.end()); for (size_t i=ts.size();i>1;--i) std::swap(ts[i-1],ts[r.below(i)]); for (auto& t:ts) { switch (r.below(3)) { case 0: p[mi(t.first)]=num(t.second); break; case 1: p.insert(mi(t.first),num(t.second)); break; default: p[mi(t.first)]=num(Q(t.second-1)); p[mi(t.first)]+=num(Q(1)); } } return p; };
        P p=mk(a),q=mk(b); same(K+"build",p,a,is); same(K+"add",p+q,a+b,is); same(K+"sub",p-q,a-b,is); same(K+"mul",p*q,a*b,is); same(K+"neg",-p,Q(-1)*a,is); same(K+"pos",+p,a,is); same(K+"add-number",p+num(c),a+cst(n,c),is); same(K+"number-add",num(c)+p,a+cst(n,c),is); same(K+"sub-number",p-num(c),a-cst(n,c),is); same(K+"number-sub",num(c)-p,cst(n,c)-a,is); same(K+"mul-number",p*num(c),c*a,is); same(K+"number-mul",num(c)*p,c*a,is); same(K+"div-number",p/num(Q(dd)),Q(1,dd)*a,is);
        { P w=p; w+=q; same(K+"iadd",w,a+b,is); } { P w=p; w-=q; same(K+"isub",w,a-b,is); } { P w=p; w*=q; same(K+"imul",w,a*b,is); } { P w=p; w+=num(c); same(K+"iadd-number",w,a+cst(n,c),is); } { P w=p; w-=num(c); same(K+"isub-number",w,a-cst(n,c),is); } { P w=p; w*=num(c); same(K+"imul-number",w,c*a,is); } { P w=p; w/=num(Q(dd)); same(K+"idiv-number",w,Q(1,dd)*a,is); } { P w=p; w+=w; same(K+"iadd-self",w,Q(2)*a,is); } { P w=p; w*=w; same(K+"imul-self",w,a*a,is); } { P w=p; w=num(c); same(K+"assign-number",w,cst(n,c),is); }
        same(K+"constant",P::constant(n,num(c)),cst(n,c),is); size_t j=r.below(n); same(K+"coordinate",P::coordinate(n,j,z),crd(n,j),is); same(K+"coordinates",P::coordinates(n,z)[j],crd(n,j),is); same(K+"create_zero",p.create_zero(),RP(n),is);
        same(K+"derivative",derivative(p,j),der(a,j),cat(is," j=",j)); same(K+"antiderivative",antiderivative(p,j),anti(a,j),cat(is," j=",j)); int td=int(r.below(6)); same(K+"truncate",truncate(p,DegreeType(td)),trunc(a,td),cat(is," degree ",td)); { int dm=0; for (auto& t:a.t) if (t.second!=0) dm=std::max(dm,deg(t.first)); P w=p; w.cleanup(); same(K+"cleanup",w,a,is); { bool z0=false; for (auto& t:a.t) if (t.second==0) z0=true; ok(K+"degree",z0?int(w.degree())>=dm:int(w.degree())==dm,in); } isv(K+"value",w.value(),a.at(PV(n,0)),is); }
        for (auto& t:a.t) { isv(K+"lookup",const_cast<P const&>(p)[mi(t.first)],t.second,is); } same(K+"operands",p,a,is); same(K+"operands",q,b,is);
        // evaluation
        std::vector<Q> x; Vector<N> vx(n,z); for (size_t i=0;i<n;++i) { x.push_back(rc(r)); vx[i]=num(x[i]); } isv(K+"evaluate",evaluate(p,vx),a(x),is); isv(K+"horner",horner_evaluate(p.expansion(),vx),a(x),is); size_t k=r.below(n); RP pe(n-1); for (auto& t:a.t) { PV y=t.first; Q m=t.second*ref::pow(x[k],y[k]); y.erase(y.begin()+long(k)); pe.t[y]+=m; } if (n>1) same(K+"partial_evaluate",partial_evaluate(p,k,vx[k]),pe,cat(is," k=",k," at ",ref::str(x[k])));
        { size_t m=1+r.below(2); RP sa=rpoly(r,n,4,2); P sp=mk(sa); std::vector<RP> qs; Vector<P> vq(n,P(m,z)); for (size_t i=0;i<n;++i) { qs.push_back(rpoly(r,m,3,2)); for (auto& t:qs[i].t) vq[i][mi(t.first)]=num(t.second); } std::string ci=cat(sa.str()," of"); for (auto& u:qs) ci+=" "+u.str(); same(K+"compose",compose(sp,vq),comp(sa,qs),ci); Vector<P> va(m,P(m,z)); }
        { Vector<P> v(2,p); v[1]=q; auto w=evaluate(v,vx); isv(K+"vector-evaluate",w[0],a(x),is); isv(K+"vector-evaluate",w[1],b(x),is); auto dv=derivative(v,j); same(K+"vector-derivative",dv[1],der(b,j),is); auto av=antiderivative(v,j); same(K+"vector-antiderivative",av[1],anti(b,j),is); auto tv=truncate(v,DegreeType(td)); same(K+"vector-truncate",tv[0],trunc(a,td),is); }
        if (!a.t.empty()) { auto t=*a.t.begin(); Monomial<MultiIndex,N> m(mi(t.first),num(d)); RP rm(n); rm.t[t.first]=d; P w=q; w=AlgebraOperations<P>::apply(Mul(),w,m); same(K+"mul-monomial",w,b*rm,is); P w2=q; AlgebraOperations<P>::iapply(Mul(),w2,m); same(K+"imul-monomial",w2,b*rm,is); }
        if (a.t.size()==size_t(p.number_of_terms())) for (auto& t:a.t) { P w=p; auto it=w.find(mi(t.first)); ok(K+"find",it!=w.end()&&pv(it->index())==t.first,in); if (it!=w.end()) { w.erase(it); RP e=a; e.t.erase(t.first); same(K+"erase",w,e,is); } break; }
        { P w=p; w.clear(); same(K+"clear",w,RP(n),is); } },in); }
VF_SCENARIO(poly_dp,4) { multi<NB<fl::TDP>>(r,"DPBounds",dp); }
VF_SCENARIO(poly_mp,2) { multi<NB<fl::TMP>>(r,"MPBounds",MultiplePrecision(64)); }
VF_SCENARIO(poly_dpa,2) { multi<NA<fl::TDP>>(r,"DPApproximation",dp); }
// bounds as coefficients and argument
VF_SCENARIO(poly_sets,3) { size_t n=1+r.below(2); using N=FloatDPBounds; using P=MultivariatePolynomial<N>; std::string K="PolynomialSets/"; auto gen=[&](RP& mid,P& p){ int k=1+int(r.below(4)); for (int i=0;i<k;++i) { PV a(n); for (auto& x:a) x=int(r.below(4)); N b=fl::bounds<fl::TDP>(r,dp,3); auto ps=fl::points(r,b); mid.t[a]=ps[r.below(ps.size())]; p[mi(a)]=b; } };
    RP a(n),b(n); P p(n,N(dp)),q(n,N(dp)); gen(a,p); gen(b,q); std::vector<Q> x; Vector<N> vx(n,N(dp)); for (size_t i=0;i<n;++i) { vx[i]=fl::bounds<fl::TDP>(r,dp,2); auto ps=fl::points(r,vx[i]); x.push_back(ps[r.below(ps.size())]); } std::string is=cat(a.str()," ",b.str()); vf::distinct(is); total(K+"all",[&]{ same(K+"add",p+q,a+b,is); same(K+"sub",p-q,a-b,is); same(K+"mul",p*q,a*b,is); isv(K+"evaluate",evaluate(p,vx),a(x),is); size_t j=r.below(n); same(K+"derivative",derivative(p,j),der(a,j),is); same(K+"antiderivative",antiderivative(p,j),anti(a,j),is); Vector<P> qq(n,q); std::vector<RP> bb(n,b); same(K+"compose",compose(p,qq),comp(a,bb),is); },[&]{return is;}); }

template<class A> static void uni(vf::Rng& r,std::string const& nm,typename A::PR pr) { using N=typename A::N; using P=UnivariatePolynomial<N>; std::string K="UnivariatePolynomial"+nm+"/"; N z=A::of(Q(0),pr); auto num=[&](Q const& q){return A::of(q,pr);}; SizeOne one; IndexZero i0;
    RP a=rpoly(r,1,6,7),b=rpoly(r,1,4,4); Q c=rc(r); int dd=1<<r.below(4); std::string is=cat(a.str()," and ",b.str()," c=",ref::str(c)); auto in=[&]{return is;}; vf::distinct(is);
    total(K+"arithmetic",[&]{ auto mk=[&](RP const& q){ P p(one,z); std::vector<std::pair<PV,Q>> ts(q.t.begin(),q.t.end()); for (size_t i=ts.size();i>1;--i) std::swap(ts[i-1],ts[r.below(i)]); for (auto& t:ts) p[UniIndex(DegreeType(t.first[0]))]=num(t.second); return p; };
        P p=mk(a),q=mk(b); same(K+"build",p,a,is); same(K+"add",p+q,a+b,is); same(K+"sub",p-q,a-b,is); same(K+"mul",p*q,a*b,is); same(K+"neg",-p,Q(-1)*a,is); same(K+"add-number",p+num(c),a+cst(1,c),is); same(K+"number-sub",num(c)-p,cst(1,c)-a,is); same(K+"mul-number",num(c)*p,c*a,is); same(K+"div-number",p/num(Q(dd)),Q(1,dd)*a,is);
        same(K+"constant",P::constant(num(c)),cst(1,c),is); same(K+"coordinate",P::coordinate(z),crd(1,0),is); Q x=rc(r); isv(K+"evaluate",evaluate(p,num(x)),a({x}),is); isv(K+"horner",horner_evaluate(p.expansion(),num(x)),a({x}),is); { RP sa=rpoly(r,1,4,4); same(K+"compose",compose(mk(sa),q),comp(sa,{b}),is+" "+sa.str()); } { P w=p; w.differentiate(i0); same(K+"differentiate",w,der(a,0),is); } { P w=p; w.antidifferentiate(i0); same(K+"antidifferentiate",w,anti(a,0),is); } int td=int(r.below(8)); same(K+"truncate",truncate(p,DegreeType(td)),trunc(a,td),cat(is," degree ",td)); { bool z0=false; int dm=0; for (auto& t:a.t) { if (t.second==0) z0=true; dm=std::max(dm,t.first[0]); } if (!z0) ok(K+"degree",int(p.degree())==dm,in); } { P w=p; w=num(c); same(K+"assign-number",w,cst(1,c),is); } same(K+"operands",p,a,is); },in); }
VF_SCENARIO(uni_dp,3) { uni<NB<fl::TDP>>(r,"DPBounds",dp); }
VF_SCENARIO(uni_mp,1) { uni<NB<fl::TMP>>(r,"MPBounds",MultiplePrecision(64)); }
VF_SCENARIO(uni_dpa,1) { uni<NA<fl::TDP>>(r,"DPApproximation",dp); }

// Chebyshev polynomials, through their values
static Q cheb(int k,Q const& x) { Q p(1),c(x); if (k==0) return p; for (int i=1;i<k;++i) { Q n=2*x*c-p; p=c; c=n; } return c; }
template<class T> static void chebyshev(vf::Rng& r,std::string const& nm,typename T::PR pr) { using N=Approximation<typename T::F>; using U=UnivariateChebyshevPolynomial<N>; using M=MultivariateChebyshevPolynomial<N>; auto num=[&](Q const& q){return N(T::of(q,pr));};
    { std::string K="UnivariateChebyshev"+nm+"/"; auto mk=[&](std::map<int,Q>& c){ U p(pr); std::vector<Q> cs; int d=int(r.below(7)); for (int i=0;i<=d;++i) { cs.push_back(rc(r)); c[i]=cs.back(); } if (r.coin()) return U(DegreeType(d),[&](DegreeType i){return num(cs[i]);}); U s=U::constant(num(cs[0])); for (int i=1;i<=d;++i) s=s+num(cs[size_t(i)])*U::basis(SizeType(i),pr); return s; };
      std::map<int,Q> ca,cb; total(K+"arithmetic",[&]{ U a=mk(ca),b=mk(cb); Q c=rc(r); auto val=[&](std::map<int,Q> const& m,Q const& x){ Q v(0); for (auto& e:m) v+=e.second*cheb(e.first,x); return v; }; std::string is; for (auto& e:ca) is+=cat(e.first,":",ref::str(e.second)," "); is+="and "; for (auto& e:cb) is+=cat(e.first,":",ref::str(e.second)," "); vf::distinct(is); is+=cat("c=",ref::str(c)); Q sa(0); for (int t=0;t<5;++t) { Q x(r.range(-8,8),8); x.canonicalize(); std::string it=is+" at "+ref::str(x); Q va=val(ca,x),vb=val(cb,x); sa=std::max(sa,ref::abs(va)); N X=num(x); isv(K+"evaluate",a(X),va,it); isv(K+"evaluate-friend",evaluate(a,X),va,it); isv(K+"add",(a+b)(X),va+vb,it); isv(K+"sub",(a-b)(X),va-vb,it); isv(K+"mul",(a*b)(X),va*vb,it); isv(K+"neg",(-a)(X),-va,it); isv(K+"add-number",(a+num(c))(X),va+c,it); isv(K+"number-mul",(num(c)*a)(X),c*va,it); isv(K+"sub-number",(a-num(c))(X),va-c,it); isv(K+"sqr",sqr(a)(X),va*va,it); int k=int(r.below(8)); isv(K+"basis",U::basis(SizeType(k),pr)(X),cheb(k,x),cat(k," at ",ref::str(x))); isv(K+"coordinate",U::coordinate(pr)(X),x,it); } X s=ref::x(a.sup_norm().raw()); ok(K+"sup_norm",s.finite()&&s.v*Q(1000001,1000000)>=sa,[&]{return is;}); },[&]{return std::string("univariate");}); }
    { std::string K="MultivariateChebyshev"+nm+"/"; size_t n=1+r.below(3); using C=std::map<PV,Q>; auto val=[&](C const& m,std::vector<Q> const& x){ Q v(0); for (auto& e:m) { Q t=e.second; for (size_t i=0;i<n;++i) t*=cheb(e.first[i],x[i]); v+=t; } return v; }; auto mk=[&](C& c){ M p=M::constant(n,num(Q(0))); int k=1+int(r.below(4)); for (int i=0;i<k;++i) { PV a(n); for (auto& x:a) x=int(r.below(r.coin()?3:2)); Q q=rc(r); c[a]+=q; M m=M::constant(n,num(q)); for (size_t j=0;j<n;++j) if (a[j]) m=m*M::basis(n,j,SizeType(a[j]),pr); p=p+m; } return p; };
      C ca,cb; total(K+"arithmetic",[&]{ M a=mk(ca),b=mk(cb); Q c=rc(r); std::string is; for (auto& e:ca) { for (int i:e.first) is+=std::to_string(i)+","; is+=ref::str(e.second)+" "; } vf::distinct("m"+is); for (int t=0;t<4;++t) { std::vector<Q> x; Vector<N> vx(n,num(Q(0))); for (size_t i=0;i<n;++i) { Q q(r.range(-8,8),8); q.canonicalize(); x.push_back(q); vx[i]=num(q); } std::string it=is+" at "+tmo::pts(x); Q va=val(ca,x),vb=val(cb,x); isv(K+"evaluate",a(vx),va,it); isv(K+"add",(a+b)(vx),va+vb,it); isv(K+"sub",(a-b)(vx),va-vb,it); isv(K+"mul",(a*b)(vx),va*vb,it); isv(K+"neg",(-a)(vx),-va,it); isv(K+"add-number",(a+num(c))(vx),va+c,it); isv(K+"mul-number",(a*num(c))(vx),va*c,it); isv(K+"sqr",sqr(a)(vx),va*va,it); size_t j=r.below(n); int k=int(r.below(6)); isv(K+"basis",M::basis(n,j,SizeType(k),pr)(vx),cheb(k,x[j]),it); isv(K+"coordinate",M::coordinate(n,j,pr)(vx),x[j],it); X s=ref::x(a.sup_norm().raw()); ok(K+"sup_norm",s.finite()&&s.v*Q(1000001,1000000)>=ref::abs(va),[&]{return it;}); } },[&]{return std::string("multivariate");}); } }
VF_SCENARIO(chebyshev_dp,3) { chebyshev<fl::TDP>(r,"DP",dp); }
VF_SCENARIO(chebyshev_mp,1) { chebyshev<fl::TMP>(r,"MP",MultiplePrecision(64)); }

// affine forms with interval coefficients
template<class T> static void affine(vf::Rng& r,std::string const& nm,typename T::PR pr) { using F=typename T::F; using N=Bounds<F>; using A=Affine<N>; std::string K="Affine"+nm+"/"; size_t n=1+r.below(3); auto gen=[&](std::vector<Q>& q){ Covector<N> g(n,N(pr)); for (size_t i=0;i<n;++i) { g[i]=fl::bounds<T>(r,pr,4); auto p=fl::points(r,g[i]); q.push_back(p[r.below(p.size())]); } N c=fl::bounds<T>(r,pr,4); auto p=fl::points(r,c); q.push_back(p[r.below(p.size())]); return A(g,c); };
    std::vector<Q> a,b,x; A f=gen(a),g=gen(b); N k=fl::bounds<T>(r,pr,3); auto kp=fl::points(r,k); Q c=kp[r.below(kp.size())]; Vector<N> vx(n,N(pr)); for (size_t i=0;i<n;++i) { vx[i]=fl::bounds<T>(r,pr,3); auto p=fl::points(r,vx[i]); x.push_back(p[r.below(p.size())]); } auto val=[&](std::vector<Q> const& q){ Q v=q[n]; for (size_t i=0;i<n;++i) v+=q[i]*x[i]; return v; }; Q va=val(a),vb=val(b); std::string is=cat(tmo::pts(a)," and ",tmo::pts(b)," at ",tmo::pts(x)," c=",ref::str(c)); vf::distinct(is);
    total(K+"arithmetic",[&]{ auto ck=[&](char const* o,A const& h,Q const& v){ fl::encloses(K+o,h.evaluate(vx),v,is); Q w(0); bool g_=true; (void)g_; (void)w; };
        ck("evaluate",f,va); ck("add",f+g,va+vb); ck("sub",f-g,va-vb); ck("neg",-f,-va); ck("add-number",f+k,va+c); ck("number-add",k+f,va+c); ck("sub-number",f-k,va-c); ck("number-sub",k-f,c-va); ck("mul-number",f*k,va*c); ck("number-mul",k*f,c*va); X l=fl::lo(k),u=fl::hi(k); if (l.v>Q(1,16)||u.v<Q(-1,16)) ck("div-number",f/k,va/c); size_t j=r.below(n); fl::encloses(K+"derivative",f.derivative(j),a[j],is); fl::encloses(K+"derivative-friend",derivative(f,Nat(j)),a[j],is); fl::encloses(K+"value",f.value(),a[n],is); ck("constant",A::constant(n,k),c); ck("coordinate",A::coordinate(n,j,pr),x[j]); A s=f; s=k; ck("assign-number",s,c);
        AffineModel<ValidatedTag,F> m(f); // on the unit box
        std::vector<Q> u_=tmo::point(r,n); Q v=a[n]; for (size_t i=0;i<n;++i) v+=a[i]*u_[i]; Q lo=ref::q(m.value())-ref::x(m.error().raw()).v,hi=ref::q(m.value())+ref::x(m.error().raw()).v; for (size_t i=0;i<n;++i) { Q t=ref::q(m.gradient(i))*u_[i]; lo+=t; hi+=t; } ok(K+"to-model",lo<=v&&v<=hi,[&]{return is+" unit "+tmo::pts(u_);}); },[&]{return is;}); }
VF_SCENARIO(affine_dp,2) { affine<fl::TDP>(r,"DP",dp); }
VF_SCENARIO(affine_mp,1) { affine<fl::TMP>(r,"MP",MultiplePrecision(mpfr_prec_t(r.pick({24l,53l,64l,128l})))); }

// affine models: the values they allow on the unit box
template<class F> static tmo::V mat(AffineModel<ValidatedTag,F> const& m,std::vector<Q> const& x) { tmo::V v; X e=ref::x(m.error().raw()),c=ref::x(m.value()); if (m.argument_size()!=x.size()||!e.finite()||!c.finite()||e.v<0) { v.bad=true; if (e.kind==1) { v.bad=false; v.all=true; } return v; } Q s=c.v; for (size_t i=0;i<x.size();++i) { X g=ref::x(m.gradient(i)); if (!g.finite()) { v.bad=true; return v; } s+=g.v*x[i]; } v.l=s-e.v; v.u=s+e.v; return v; }
template<class T> static void models(vf::Rng& r,std::string const& nm,typename T::PR pr) { using F=typename T::F; using N=Bounds<F>; using M=AffineModel<ValidatedTag,F>; using TM=TaylorModel<ValidatedTag,F>; std::string K="AffineModel"+nm+"/"; size_t n=1+r.below(3); auto gen=[&](){ Covector<F> g(n,F(pr)); for (size_t i=0;i<n;++i) g[i]=r.coin(1,5)?T::of(Q(0),pr):T::mod(r,pr,4); Q e=r.coin(1,4)?Q(0):Q(ref::abs(ref::q(T::mod(r,pr,4)))*ref::pow(Q(2),-long(r.below(12)))); return M(T::mod(r,pr,4),g,Error<F>(T::of(e,pr))); };
    M a=gen(),b=gen(); N k=fl::bounds<T>(r,pr,3); auto kp=fl::points(r,k); Q c=kp[r.below(kp.size())]; std::vector<std::vector<Q>> ps; for (int i=0;i<4;++i) ps.push_back(tmo::point(r,n)); std::string is=cat(a," and ",b," c=",ref::str(c)); vf::distinct(is);
    total(K+"arithmetic",[&]{ auto each=[&](char const* o,M const& h,auto f){ for (auto& x:ps) { tmo::V A=mat(a,x),B=mat(b,x),H=mat(h,x); Q va=tmo::value(r,A),vb=tmo::value(r,B); Q v=f(va,vb); ok(K+o,H.has(v),[&]{return cat(is," at ",tmo::pts(x)," with values ",ref::str(va),", ",ref::str(vb)," gave ",H.str()," misses ",ref::str(v));}); } };
        each("add",a+b,[](Q p,Q q){return Q(p+q);}); each("mul",a*b,[](Q p,Q q){return Q(p*q);}); each("neg",-a,[](Q p,Q){return Q(-p);}); each("add-number",a+k,[&](Q p,Q){return Q(p+c);}); each("number-add",k+a,[&](Q p,Q){return Q(p+c);}); each("sub-number",a-k,[&](Q p,Q){return Q(p-c);}); each("number-sub",k-a,[&](Q p,Q){return Q(c-p);}); each("mul-number",a*k,[&](Q p,Q){return Q(p*c);}); each("number-mul",k*a,[&](Q p,Q){return Q(p*c);}); { M s=a; s+=b; each("iadd",s,[](Q p,Q q){return Q(p+q);}); } { M s=a; s*=k; each("imul-number",s,[&](Q p,Q){return Q(p*c);}); } { M s=a; s+=k; each("iadd-number",s,[&](Q p,Q){return Q(p+c);}); }
        auto rg=a.range(); X rl=ref::x(rg.lower_bound().raw()),ru=ref::x(rg.upper_bound().raw()); for (auto& x:ps) { tmo::V A=mat(a,x); ok(K+"range",ref::le(rl,A.l)&&ref::ge(ru,A.u),[&]{return cat(is," range [",ref::str(rl),",",ref::str(ru),"]");}); Vector<N> vx(n,N(pr)); for (size_t i=0;i<n;++i) vx[i]=N(T::of(x[i],pr)); auto y=a.evaluate(vx); ok(K+"evaluate",ref::le(fl::lo(y),A.l)&&ref::ge(fl::hi(y),A.u),[&]{return cat(is," at ",tmo::pts(x)," gave ",fl::str(y));}); }
        size_t j=r.below(n); Q l(r.range(-40,40),16),w(r.range(1,40),16); l.canonicalize(); w.canonicalize(); IntervalDomainType iv(FloatDP(ExactDouble(l.get_d()),dp),FloatDP(ExactDouble(Q(l+w).get_d()),dp)); M sc=M::scaling(n,j,iv,pr); BoxDomainType bx(n,iv); auto scs=M::scalings(bx,pr); for (auto& x:ps) { Q v=l+w/2+w/2*x[j]; ok(K+"scaling",mat(sc,x).has(v),[&]{return cat(ref::str(l),"+",ref::str(w)," at ",tmo::pts(x));}); ok(K+"scalings",mat(scs[j],x).has(v),[&]{return cat(ref::str(l),"+",ref::str(w)," at ",tmo::pts(x));}); } each("constant",M::constant(n,T::of(Q(3),pr)),[](Q,Q){return Q(3);});
        // from a Taylor model
        auto sw=tmo::sweeper<T>(r,pr); TM t(n,sw); for (int i=0;i<5;++i) { PV p(n); for (auto& q:p) q=int(r.below(3)); t[mi(p)]=T::mod(r,pr,4); } t.set_error(Error<F>(T::of(Q(ref::abs(ref::q(T::mod(r,pr,2)))),pr))); M tm(t); for (auto& x:ps) { tmo::V A=tmo::at(t,x),H=mat(tm,x); if (!A.bad&&!A.all) ok(K+"from-taylor-model",H.all||(!H.bad&&H.l<=A.l&&A.u<=H.u),[&]{return cat(tmo::str(t)," at ",tmo::pts(x)," gave ",H.str()," for ",A.str());}); } },[&]{return is;});
    if constexpr (std::is_same_v<T,fl::TDP>) { std::vector<I> dom; std::vector<Q> l,h; BoxDomainType bx(n,IntervalDomainType(FloatDP(dp),FloatDP(dp))); for (size_t i=0;i<n;++i) { Q a_(r.range(-24,24),16),w(r.range(1,16),16); a_.canonicalize(); w.canonicalize(); l.push_back(a_); h.push_back(Q(a_+w)); dom.push_back(I(a_,Q(a_+w))); bx[i]=IntervalDomainType(FloatDP(ExactDouble(a_.get_d()),dp),FloatDP(ExactDouble(Q(a_+w).get_d()),dp)); } mpi::Expr e=mpi::random(r,dom,int(r.range(1,6)),mpi::Allow::but({mpi::ASIN,mpi::ACOS,mpi::ATAN,mpi::MAX,mpi::MIN,mpi::ABS}),0.2,100,3); std::string ei=cat(e.str()," on ",tmo::pts(l),"..",tmo::pts(h)); vf::distinct(mpi::shape(e)); vf::partial(K+"function",[&]{ EffectiveScalarMultivariateFunction f=mpi::build(e,EffectiveScalarMultivariateFunction::coordinates(n),[&](Q const& q){return EffectiveScalarMultivariateFunction::constant(n,EffectiveNumber(ref::rational(q)));}); M m=affine_model(bx,ValidatedScalarMultivariateFunction(f),dp); auto gs=M::scalings(bx,dp); M cm=compose(ValidatedScalarMultivariateFunction(f),gs); for (auto& u:ps) { std::vector<I> x; for (size_t i=0;i<n;++i) x.push_back(I(Q(l[i]+(h[i]-l[i])*(u[i]+1)/2))); I v=mpi::eval(e,x); ok(K+"of-function",mat(m,u).has(v),[&]{return cat(ei," at unit ",tmo::pts(u)," gave ",mat(m,u).str()," misses ",mpi::str(v));}); ok(K+"compose",mat(cm,u).has(v),[&]{return cat(ei," at unit ",tmo::pts(u)," gave ",mat(cm,u).str()," misses ",mpi::str(v));}); } }); } }
VF_SCENARIO(model_dp,4) { models<fl::TDP>(r,"DP",dp); }
VF_SCENARIO(model_mp,2) { models<fl::TMP>(r,"MP",MultiplePrecision(mpfr_prec_t(r.pick({24l,53l,64l,128l})))); }
