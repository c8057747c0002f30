// Taylor models seen from outside: the exact set of values a model allows at a point of the unit box, and generators.
#ifndef VERIF_TM_HPP
#define VERIF_TM_HPP
#include "floats.hpp"
#include "mpi.hpp"
#include "function/taylor_model.hpp"
#include "geometry/interval.hpp"
#include "algebra/expansion.inl.hpp"
#include "algebra/sweeper.hpp"
namespace tmo {
using namespace Ariadne; using ref::Q; using ref::X; using mpi::I;
template<class F> X clo(F const& c) requires ARawFloat<F> { return ref::x(c); }
template<class F> X chi(F const& c) requires ARawFloat<F> { return ref::x(c); }
template<class F> X clo(Interval<UpperBound<F>> const& c) { return ref::x(c.lower_bound().raw()); }
template<class F> X chi(Interval<UpperBound<F>> const& c) { return ref::x(c.upper_bound().raw()); }
struct V { bool bad=false, all=false; Q l,u; std::string str() const { return bad?"nan":all?"everything":vf::cat("[",ref::str(l),",",ref::str(u),"]"); }
    bool has(I const& v) const { return all||v.bad||(!bad&&l<=v.hi()&&u>=v.lo()); } bool has(Q const& v) const { return all||(!bad&&l<=v&&v<=u); } };
template<class A> Q mono(A const& a,std::vector<Q> const& x) { Q m(1); for (size_t i=0;i<x.size();++i) for (unsigned k=0;k<unsigned(a[i]);++k) m*=x[i]; return m; }
// the values the model allows at x
template<class M> V at(M const& m,std::vector<Q> const& x) { V v; v.l=0; v.u=0; if (m.argument_size()!=x.size()) { v.bad=true; return v; } X e=ref::x(m.error().raw()); if (e.isnan()||e.kind==-1) { v.bad=true; return v; } if (e.kind==1) { v.all=true; return v; }
    for (auto it=m.begin();it!=m.end();++it) { X l=clo(it->coefficient()),u=chi(it->coefficient()); if (l.isnan()||u.isnan()) { v.bad=true; return v; } Q k=mono(it->index(),x); if (l.kind||u.kind) { if (l.kind==-1&&u.kind==1) { if (k!=0) v.all=true; continue; } v.bad=true; return v; } if (k>=0) { v.l+=l.v*k; v.u+=u.v*k; } else { v.l+=u.v*k; v.u+=l.v*k; } }
    v.l-=e.v; v.u+=e.v; if (v.l>v.u) v.bad=true; return v; }
template<class M> std::string str(M const& m) { std::string s="{"; for (auto it=m.begin();it!=m.end();++it) { s+="("; for (size_t i=0;i<m.argument_size();++i) s+=vf::cat(i?",":"",unsigned(it->index()[i])); X l=clo(it->coefficient()),u=chi(it->coefficient()); s+="):"+ref::str(l); if (!(l.kind==u.kind&&l.v==u.v)) s+=".."+ref::str(u); s+=" "; } return s+"+/-"+ref::str(ref::x(m.error().raw()))+"}"; }
inline Q unit(vf::Rng& r) { switch (r.below(5)) { case 0: return Q(1); case 1: return Q(-1); case 2: return Q(0); default: { Q q(ref::Z(r.range(-16,16)),ref::Z(16)); q.canonicalize(); return q; } } }
inline std::vector<Q> point(vf::Rng& r,size_t n) { std::vector<Q> x; for (size_t i=0;i<n;++i) x.push_back(unit(r)); return x; }
// one of the values allowed
inline Q value(vf::Rng& r,V const& v) { switch (r.below(4)) { case 0: return v.l; case 1: return v.u; default: { Q t(ref::Z(r.range(0,64)),ref::Z(64)); t.canonicalize(); return Q(v.l+(v.u-v.l)*t); } } }
inline std::string pts(std::vector<Q> const& x) { std::string s="("; for (auto& q:x) s+=(s.size()>1?",":"")+ref::str(q); return s+")"; }
template<class T> Sweeper<typename T::F> sweeper(vf::Rng& r,typename T::PR pr,std::string* name=nullptr,bool light=false) { using F=typename T::F; if (light) { F th=T::of(ref::pow(Q(2),-long(r.pick({3l,8l,16l,24l,32l}))),pr); DegreeType d=DegreeType(r.pick({1l,2l,3l})); unsigned k=unsigned(r.below(6)); if (name) *name=vf::cat("light",k); switch (k) { case 0: return AffineSweeper<F>(pr); case 1: return GradedSweeper<F>(pr,d); case 2: return GradedThresholdSweeper<F>(pr,DegreeType(d+2),th); case 3: return RelativeThresholdSweeper<F>(pr,th); default: return ThresholdSweeper<F>(pr,th); } } F th=T::of(ref::pow(Q(2),-long(r.pick({3l,8l,16l,24l,40l,52l,60l}))),pr); DegreeType d=DegreeType(r.pick({1l,2l,3l,4l,6l,8l})); unsigned k=unsigned(r.below(9)); if (name) *name=vf::cat("swp",k);
    switch (k) { case 0: return TrivialSweeper<F>(pr); case 1: return ThresholdSweeper<F>(pr,T::of(Q(0),pr)); case 2: return AffineSweeper<F>(pr); case 3: return GradedSweeper<F>(pr,d); case 4: return GradedThresholdSweeper<F>(pr,d,th); case 5: return RelativeThresholdSweeper<F>(pr,th); default: return ThresholdSweeper<F>(pr,th); } }
template<class M> struct is_ivl : std::false_type { }; template<class F> struct is_ivl<TaylorModel<ValidatedTag,Interval<UpperBound<F>>>> : std::true_type { };
template<class T,class M> typename M::CoefficientType coef(vf::Rng& r,typename T::PR pr,int e) { using F=typename T::F; F a=e>0?T::mod(r,pr,e):T::of(Q(ref::q(T::mod(r,pr,2))*ref::pow(Q(2),e-2)),pr); if constexpr (is_ivl<M>::value) { if (r.coin(1,2)) return Interval<UpperBound<F>>(LowerBound<F>(a),UpperBound<F>(a)); Q w=ref::abs(ref::q(a))*ref::pow(Q(2),-long(r.below(30))); F b=T::of(Q(ref::q(a)+w),pr); return Interval<UpperBound<F>>(LowerBound<F>(a),UpperBound<F>(ref::q(a)<=ref::q(b)?b:a)); } else return a; }
// scale: the sum of the magnitudes is kept around it
template<class T,class M> M random(vf::Rng& r,typename T::PR pr,Sweeper<typename T::F> const& swp,size_t n,int deg,int e=4) { using F=typename T::F; M m(n,swp); int terms=int(r.range(0,r.coin(1,3)?12:6)); for (int t=0;t<terms;++t) { MultiIndex a(n); int d=int(r.range(0,deg)); if (n) for (int k=0;k<d;++k) { size_t j=r.below(n); a[j]=DegreeType(a[j]+1); } m[a]=coef<T,M>(r,pr,r.coin(1,5)?30:e); }
    if (r.coin(3,4)) { F er=T::of(ref::abs(ref::q(T::mod(r,pr,2)))*ref::pow(Q(2),e-long(r.below(40))),pr); m.set_error(Error<F>(er)); } return m; }
}
#endif
