// Function patches seen from outside: the values allowed at an exact point of the domain.
#ifndef VERIF_FP_HPP
#define VERIF_FP_HPP
#include "tm.hpp"
#include "alg.hpp"
#include "function/taylor_function.hpp"
#include "function/function.hpp"
#include "function/function_model.hpp"
#include "function/function_patch.hpp"
#include "geometry/box.hpp"
namespace fp {
using namespace Ariadne; using ref::Q; using ref::X; using mpi::I; using tmo::V;
inline Q lo(IntervalDomainType const& d) { return ref::q(d.lower_bound().raw()); }
inline Q hi(IntervalDomainType const& d) { return ref::q(d.upper_bound().raw()); }
inline std::string str(BoxDomainType const& d) { std::string s; for (size_t i=0;i<d.size();++i) s+=vf::cat(i?"x[":"[",ref::str(lo(d[i])),",",ref::str(hi(d[i])),"]"); return s; }
// endpoints are multiples of 1/16, so that centre and radius are floating-point numbers
inline IntervalDomainType ival(vf::Rng& r,long w=64) { long a=r.range(-w,w),b=r.range(-w,w); if (a==b) b=a+1+long(r.below(8)); if (a>b) std::swap(a,b); return IntervalDomainType(FloatDP(ExactDouble(double(a)/16),dp),FloatDP(ExactDouble(double(b)/16),dp)); }
inline BoxDomainType box(vf::Rng& r,size_t n,long w=64) { Array<IntervalDomainType> b(n,ival(r,w)); for (size_t i=0;i<n;++i) b[i]=ival(r,w); return BoxDomainType(Vector<IntervalDomainType>(b)); }
inline BoxDomainType sub(vf::Rng& r,BoxDomainType d) { for (size_t i=0;i<d.size();++i) if (r.coin(3,4)) { long a=long(16*d[i].lower_bound().get_d()),b=long(16*d[i].upper_bound().get_d()); long p=r.range(a,b),q=r.range(a,b); if (p>q) std::swap(p,q); if (p==q) { if (q<b) ++q; else --p; } if (p<q) d[i]=IntervalDomainType(FloatDP(ExactDouble(double(p)/16),dp),FloatDP(ExactDouble(double(q)/16),dp)); } return d; }
inline Q pick(vf::Rng& r,Q const& l,Q const& h) { switch (r.below(5)) { case 0: return l; case 1: return h; default: { Q t(r.range(0,16),16); t.canonicalize(); return Q(l+(h-l)*t); } } }
inline std::vector<Q> point(vf::Rng& r,BoxDomainType const& d) { std::vector<Q> p; for (size_t i=0;i<d.size();++i) p.push_back(pick(r,lo(d[i]),hi(d[i]))); return p; }
inline std::vector<Q> unscale(BoxDomainType const& d,std::vector<Q> const& p) { std::vector<Q> x; for (size_t i=0;i<p.size();++i) { Q l=lo(d[i]),h=hi(d[i]); x.push_back(l==h?Q(0):Q((2*p[i]-l-h)/(h-l))); } return x; }
inline bool in(BoxDomainType const& d,std::vector<Q> const& p) { if (p.size()!=d.size()) return false; for (size_t i=0;i<p.size();++i) if (p[i]<lo(d[i])||p[i]>hi(d[i])) return false; return true; }
template<class M> V at(ScaledFunctionPatch<M> const& f,std::vector<Q> const& p) { if (!in(f.domain(),p)) { V v; v.bad=true; return v; } return tmo::at(f.model(),unscale(f.domain(),p)); }
template<class M> std::string str(ScaledFunctionPatch<M> const& f) { return str(f.domain())+"->"+tmo::str(f.model()); }
template<class M> std::string str(VectorScaledFunctionPatch<M> const& f) { std::string s=str(f.domain())+"->("; for (size_t i=0;i<f.result_size();++i) s+=tmo::str(f.model(i)); return s+")"; }
template<class M> V at(VectorScaledFunctionPatchElementReference<M> const& f,std::vector<Q> const& p) { return at(static_cast<ScaledFunctionPatch<M>>(f),p); }
template<class M> bool holds(std::string const& key,ScaledFunctionPatch<M> const& f,std::vector<Q> const& p,I const& v,std::string const& in) { V w=at(f,p); return vf::ok(key,w.has(v),[&]{return vf::cat(in," at ",tmo::pts(p)," gave ",str(f)," = ",w.str()," which misses ",mpi::str(v));}); }
template<class M> bool holds(std::string const& key,VectorScaledFunctionPatchElementReference<M> const& f,std::vector<Q> const& p,I const& v,std::string const& in) { return holds(key,static_cast<ScaledFunctionPatch<M>>(f),p,v,in); }
}
#endif
