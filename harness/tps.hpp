// Truncated multivariate power series over MPFR intervals: the oracle for derivatives of any order.
#ifndef VERIF_TPS_HPP
#define VERIF_TPS_HPP
#include "mpi.hpp"
#include <map>
namespace tps {
using mpi::I; using ref::Q; using PV=std::vector<int>;
inline int deg(PV const& p) { int d=0; for (int x:p) d+=x; return d; }
struct S { size_t n; int d; std::map<PV,I> c; bool bad=false;
    S(size_t n_,int d_) : n(n_), d(d_) { }
    I get(PV const& p) const { auto it=c.find(p); return it==c.end()?I(Q(0)):it->second; }
    I value() const { return get(PV(n,0)); }
    void set(PV const& p,I const& x) { if (deg(p)<=d) { auto it=c.find(p); if (it==c.end()) c.emplace(p,x); else it->second=x; } }
    void add(PV const& p,I const& x) { if (deg(p)<=d) { auto it=c.find(p); if (it==c.end()) c.emplace(p,x); else it->second=it->second+x; } } };
inline S constant(size_t n,int d,I const& c) { S s(n,d); s.set(PV(n,0),c); return s; }
inline S variable(size_t n,int d,I const& c,size_t i) { S s=constant(n,d,c); PV p(n,0); p[i]=1; s.set(p,I(1)); return s; }
inline S trunc(S const& a,int d) { S r(a.n,d); for (auto& t:a.c) r.set(t.first,t.second); return r; }
inline S neg(S const& a) { S r=a; for (auto& t:r.c) t.second=-t.second; return r; }
inline S add(S const& a,S const& b) { S r=trunc(a,std::min(a.d,b.d)); for (auto& t:b.c) r.add(t.first,t.second); return r; }
inline S sub(S const& a,S const& b) { return add(a,neg(b)); }
inline S scale(S const& a,I const& k) { S r=a; for (auto& t:r.c) t.second=t.second*k; return r; }
inline S mul(S const& a,S const& b) { S r(a.n,std::min(a.d,b.d)); for (auto& s:a.c) for (auto& t:b.c) { PV p=s.first; for (size_t i=0;i<a.n;++i) p[i]+=t.first[i]; if (deg(p)<=r.d) r.add(p,s.second*t.second); } return r; }
// univariate outer series f (coefficients f[k]) with inner series a (its value is the centre)
inline S compose(std::vector<I> const& f,S const& a) { S w=a; w.set(PV(a.n,0),I(0)); int d=std::min(a.d,int(f.size())-1); w.d=d; S r=constant(a.n,d,f[size_t(d)]); for (int k=d-1;k>=0;--k) r=add(mul(r,trunc(w,d)),constant(a.n,d,f[size_t(k)])); return r; }
inline std::vector<I> umul(std::vector<I> const& a,std::vector<I> const& b) { std::vector<I> r(a.size(),I(0)); for (size_t i=0;i<a.size();++i) for (size_t j=0;i+j<a.size();++j) r[i+j]=r[i+j]+a[i]*b[j]; return r; }
inline std::vector<I> udiv(std::vector<I> const& a,std::vector<I> const& b) { std::vector<I> r; for (size_t k=0;k<a.size();++k) { I s=a[k]; for (size_t i=0;i<k;++i) s=s-r[i]*b[k-i]; r.push_back(s/b[0]); } return r; }
inline std::vector<I> usqrt(std::vector<I> const& a) { std::vector<I> r; for (size_t k=0;k<a.size();++k) { if (k==0) { r.push_back(mpi::sqrt(a[0])); continue; } I s=a[k]; for (size_t i=1;i<k;++i) s=s-r[i]*r[k-i]; r.push_back(s/(I(2)*r[0])); } return r; }
// Taylor coefficients of an elementary function at c
inline std::vector<I> taylor(mpi::Op o,I const& c,int d) { using namespace mpi; size_t m=size_t(d)+1; std::vector<I> r(m,I(0)); auto fact=[&](std::vector<I>& v){ I f(1); for (size_t k=0;k<m;++k) { if (k) f=f*I(long(k)); v[k]=v[k]/f; } };
    auto integ=[&](std::vector<I> const& v,I const& c0){ std::vector<I> w(m,I(0)); w[0]=c0; for (size_t k=1;k<m;++k) w[k]=v[k-1]/I(long(k)); return w; };
    std::vector<I> id(m,I(0)),one(m,I(0)); one[0]=I(1); id[0]=c; if (m>1) id[1]=I(1);
    switch (o) { case POS: return id; case NEG: for (auto& x:id) x=-x; return id; case HLF: for (auto& x:id) x=mpi::hlf(x); return id; case SQR: return umul(id,id); case REC: return udiv(one,id); case SQRT: return usqrt(id);
      case EXP: for (auto& x:r) x=mpi::exp(c); fact(r); return r; case LOG: return integ(udiv(one,id),mpi::log(c));
      case SIN: for (size_t k=0;k<m;++k) { I s=mpi::sin(c),t=mpi::cos(c); r[k]=k%4==0?s:k%4==1?t:k%4==2?-s:-t; } fact(r); return r; case COS: for (size_t k=0;k<m;++k) { I s=mpi::sin(c),t=mpi::cos(c); r[k]=k%4==0?t:k%4==1?-s:k%4==2?-t:s; } fact(r); return r;
      case TAN: return udiv(taylor(SIN,c,d),taylor(COS,c,d)); case ATAN: { auto q=umul(id,id); q[0]=q[0]+I(1); return integ(udiv(one,q),mpi::atan(c)); }
      case ASIN: case ACOS: { auto q=umul(id,id); for (auto& x:q) x=-x; q[0]=q[0]+I(1); auto w=udiv(one,usqrt(q)); if (o==ACOS) for (auto& x:w) x=-x; return integ(w,o==ASIN?mpi::asin(c):mpi::acos(c)); }
      case ABS: if (!c.zero()) { if (mpfr_sgn(c.u.m)<0) for (auto& x:id) x=-x; return id; } [[fallthrough]]; default: for (auto& x:r) x=I::no(); return r; } }
inline S apply1(mpi::Op o,S const& a) { return compose(taylor(o,a.value(),a.d),a); }
inline S pow(S const& a,long n) { if (n<0) return apply1(mpi::REC,pow(a,-n)); S r=constant(a.n,a.d,I(1)); for (long k=0;k<n;++k) r=mul(r,a); return r; }
inline S derivative(S const& a,size_t i) { S r(a.n,std::max(a.d-1,0)); for (auto& t:a.c) if (t.first[i]) { PV p=t.first; I k(long(p[i])); --p[i]; r.set(p,t.second*k); } return r; }
inline S antiderivative(S const& a,size_t i) { S r(a.n,a.d+1); for (auto& t:a.c) { PV p=t.first; ++p[i]; r.set(p,t.second/I(long(p[i]))); } return r; }
// outer multivariate series with inner series whose values are the centre
inline S compose(S const& f,std::vector<S> const& y) { size_t n=y[0].n; int d=f.d; for (auto& s:y) d=std::min(d,s.d); std::vector<S> w; for (auto& s:y) { S v=trunc(s,d); v.set(PV(n,0),I(0)); w.push_back(v); } S r=constant(n,d,I(0)); for (auto& t:f.c) if (deg(t.first)<=d) { S m=constant(n,d,t.second); for (size_t i=0;i<f.n;++i) for (int k=0;k<t.first[i];++k) m=mul(m,w[i]); r=add(r,m); } return r; }
inline S eval(mpi::Expr const& e,std::vector<S> const& x) { using namespace mpi; std::vector<S> w; bool bad=false; size_t n=x[0].n; int d=x[0].d; for (auto const& v:e.v) switch (v.op) { case VAR: w.push_back(x[size_t(v.n)]); break; case CNST: w.push_back(tps::constant(n,d,I(v.c))); break; case POW: w.push_back(tps::pow(w[size_t(v.a)],v.n)); break;
    case ADD: w.push_back(tps::add(w[size_t(v.a)],w[size_t(v.b)])); break; case SUB: w.push_back(tps::sub(w[size_t(v.a)],w[size_t(v.b)])); break; case MUL: w.push_back(tps::mul(w[size_t(v.a)],w[size_t(v.b)])); break; case DIV: w.push_back(tps::mul(w[size_t(v.a)],tps::apply1(REC,w[size_t(v.b)]))); break;
    case MAX: case MIN: { I a=w[size_t(v.a)].value(),b=w[size_t(v.b)].value(); bool ga=mpfr_cmp(a.l.m,b.u.m)>0,gb=mpfr_cmp(b.l.m,a.u.m)>0; if (!ga&&!gb) { S s=tps::constant(n,d,I::no()); bad=true; w.push_back(s); } else w.push_back((ga==(v.op==MAX))?w[size_t(v.a)]:w[size_t(v.b)]); break; }
    case ABS: if (w[size_t(v.a)].value().zero()) bad=true; [[fallthrough]]; default: w.push_back(tps::apply1(v.op,w[size_t(v.a)])); } S r=w.back(); r.bad=bad; return r; }
inline std::string str(S const& s) { std::string r="{"; for (auto& t:s.c) { r+="("; for (int k:t.first) r+=std::to_string(k)+","; r+="):"+mpi::str(t.second)+" "; } return r+"}"; }
inline void each(size_t n,int d,std::function<void(PV const&)> const& f) { PV p(n,0); std::function<void(size_t,int)> g=[&](size_t i,int left){ if (i==n) { f(p); return; } for (int k=0;k<=left;++k) { p[i]=k; g(i+1,left-k); } p[i]=0; }; g(0,d); }
}
#endif
