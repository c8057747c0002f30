// Unions of intervals, measurable sets and functions (C20).
#include "floats.hpp"
#include "function/measurable_function.hpp"
#include "function/function.hpp"
#include "function/formula.hpp"
#include "function/symbolic_function.hpp"
#include "function/taylor_model.hpp"
#include "algebra/algebra.hpp"
using namespace Ariadne; using vf::ok; using vf::cat; using vf::total; using ref::Q; using ref::X;
// the model: unions of cells [k,k+1]/8 in [-4,4]
static int const N=64; using M=std::vector<char>; static Q at8(int k) { Q q(k-32,8); q.canonicalize(); return q; }
struct IV { int l,u; }; using L=std::vector<IV>;
static M of(L const& l) { M m(N,0); for (IV i : l) for (int k=i.l;k<i.u;++k) m[k]=1; return m; }
static L rlist(vf::Rng& r,int most=6) { L l; int n=r.below(most+1); for (int i=0;i<n;++i) { int a=r.below(N),b=a+1+r.below(r.coin()?4:20); if (!l.empty()&&r.coin(1,3)) { a=r.coin()?l.back().u:l.back().l; if (a>=N) a=N-1; b=a+1+r.below(8); } l.push_back({a,std::min(b,N)}); } return l; }
static std::string str(L const& l) { std::string s; for (IV i : l) s+=cat("[",ref::str(at8(i.l)),",",ref::str(at8(i.u)),"]"); return s; }
static size_t comps(M const& m) { size_t n=0; for (int k=0;k<N;++k) if (m[k]&&(k==0||!m[k-1])) ++n; return n; }
static Q meas(M const& m) { Q q(std::count(m.begin(),m.end(),1),8); q.canonicalize(); return q; }
static X b(Dyadic const& x) { return ref::x(x); } static X b(Rational const& x) { return ref::x(x); } static X b(FloatDP const& x) { return ref::x(x); } static X b(FloatMP const& x) { return ref::x(x); }
template<class T> struct Tr; 
template<> struct Tr<Dyadic> { static Dyadic of(Q const& q) { return ref::dyadic(q); } static char const* n() { return "Dyadic"; } }; template<> struct Tr<FloatDP> { static FloatDP of(Q const& q) { return fl::TDP::of(q,dp); } static char const* n() { return "DP"; } }; template<> struct Tr<FloatMP> { static FloatMP of(Q const& q) { return fl::TMP::of(q,MultiplePrecision(96)); } static char const* n() { return "MP"; } };
template<class U> static Interval<U> iv(IV i) { return Interval<U>(Tr<U>::of(at8(i.l)),Tr<U>::of(at8(i.u))); }
template<class U> static List<Interval<U>> lst(L const& l) { List<Interval<U>> r; for (IV i : l) r.append(iv<U>(i)); return r; }
static IntervalDomainType dom(IV i) { return IntervalDomainType(Tr<FloatDP>::of(at8(i.l)),Tr<FloatDP>::of(at8(i.u))); }
template<class V> static bool same(V const& v,M const& m) { std::vector<IV> want; for (int k=0;k<N;++k) if (m[k]) { int j=k; while (j<N&&m[j]) ++j; want.push_back({k,j}); k=j; } if (v.size()!=want.size()) return false; size_t i=0; for (auto it=v.begin();it!=v.end();++it,++i) if (!ref::same(b(it->lower_bound()),X(at8(want[i].l)))||!ref::same(b(it->upper_bound()),X(at8(want[i].u)))) return false; return true; }
template<class Y> static bool measures(Y const& y,Q const& q) { if constexpr (requires { y.lower_raw(); }) return ref::le(ref::x(y.lower_raw()),q)&&ref::ge(ref::x(y.upper_raw()),q); else if constexpr (requires { y.raw(); }) return ref::ge(ref::x(y.raw()),q); else return ref::same(b(y),X(q)); }
template<class U> static void check(vf::Rng& r,L const& a,L const& c,std::string const& in) { std::string p=Tr<U>::n(); M ma=of(a),mc=of(c); using UI=UnionOfIntervals<U>; auto det=[&](auto const& v){ return [&]{return cat(in," gave ",v);}; };
    UI x(lst<U>(a)),y(lst<U>(c)); ok(p+"/construct",same(x,ma)&&x.size()==comps(ma),det(x));
    M j(N),i(N); bool sub=true,meet=false; for (int k=0;k<N;++k) { j[k]=ma[k]||mc[k]; i[k]=ma[k]&&mc[k]; if (ma[k]&&!mc[k]) sub=false; if (i[k]) meet=true; }
    UI uj=join(x,y),ui=intersection(x,y); ok(p+"/join",same(uj,j),det(uj)); ok(p+"/intersection",same(ui,i)||(!meet&&ui.size()==0u),det(ui)); ok(p+"/subset",subset(x,y)==sub,[&]{return in;}); ok(p+"/intersect",intersect(x,y)==meet,[&]{return in;}); ok(p+"/subset-own",subset(x,uj)&&subset(ui,y)&&subset(x,x),[&]{return in;});
    if (!a.empty()) { auto bb=x.bounding_box(); int lo=N,hi=0; for (IV q : a) { lo=std::min(lo,q.l); hi=std::max(hi,q.u); } ok(p+"/bounding_box",ref::same(b(bb.lower_bound()),X(at8(lo)))&&ref::same(b(bb.upper_bound()),X(at8(hi))),det(bb)); ok(p+"/measure",measures(x.measure(),meas(ma))&&measures(measure(x),meas(ma)),det(x.measure())); }
    if (meet) ok(p+"/measure-intersection",measures(measure(ui),meas(i)),det(measure(ui)));
    if constexpr (!std::is_same_v<U,FloatMP>) { IV s; s.l=r.below(N); s.u=std::min(N,s.l+1+int(r.below(20))); if (!a.empty()&&r.coin()) { s.l=r.pick(a).l; s.u=r.pick(a).u; if (s.l>=s.u) s.u=s.l+1; } bool cov=true,ins=true,ov=false; for (int k=0;k<N;++k) { bool t=k>=s.l&&k<s.u; if (t&&!ma[k]) cov=false; if (!t&&ma[k]) ins=false; if (t&&ma[k]) ov=true; } auto d=[&]{return cat(in," and ",str(L{s}));};
        ok(p+"/covers",x.covers(dom(s))==cov,d); ok(p+"/inside",x.inside(dom(s))==ins,d); ok(p+"/overlaps",x.overlaps(dom(s))==ov,d); ok(p+"/separated",x.separated(dom(s))==!ov,d); M m2=of(L{s}); for (int k=0;k<N;++k) m2[k]=m2[k]&&ma[k]; UI z=intersection(x,dom(s)); ok(p+"/intersection-interval",same(z,m2),det(z));
        ValidatedOpenSet<Real> w=wrap_open(x); auto wc=w.covers(dom(s)); auto wo=w.overlaps(dom(s)); ok(p+"/open-set",definitely(wc)==cov&&definitely(wo)==ov,d); } }
VF_SCENARIO(unions,6) { L a=rlist(r),c=rlist(r); if (r.coin(1,3)) { c=a; if (!c.empty()&&r.coin()) c.erase(c.begin()+r.below(c.size())); if (!c.empty()&&r.coin()) { IV& i=c[r.below(c.size())]; if (i.u-i.l>2) { if (r.coin()) ++i.l; else --i.u; } } } std::string in=cat(str(a)," and ",str(c)); vf::distinct(in); total("unions",[&]{ check<Dyadic>(r,a,c,in); check<FloatDP>(r,a,c,in); check<FloatMP>(r,a,c,in);
    // conversions sort and combine as well
    M m=of(a); UnionOfIntervals<FloatDP> x(lst<Dyadic>(a),dp); ok("convert/list-precision",same(x,m),[&]{return cat(in," gave ",x);}); UnionOfIntervals<FloatMP> y(lst<Dyadic>(a),MultiplePrecision(96)); ok("convert/list-precision-MP",same(y,m),[&]{return cat(in," gave ",y);});
    if (a.size()>=2) { auto p0=iv<Dyadic>(a[0]),p1=iv<Dyadic>(a[1]); M m2=of(L{a[0],a[1]}); UnionOfIntervals<FloatDP> z({p0,p1},dp); ok("convert/initializer-precision",same(z,m2),[&]{return cat(str(L{a[0],a[1]})," gave ",z);}); UnionOfIntervals<Dyadic> w({p0,p1}); ok("construct/initializer",same(w,m2),[&]{return cat(str(L{a[0],a[1]})," gave ",w);}); }
    if (!a.empty()) ok("convert/measure",measures(x.measure(),meas(m)),[&]{return cat(in," gave ",x.measure());});
    },[&]{return in;}); }
VF_SCENARIO(empty,1) { IV s{8,16}; L none; total("empty",[&]{ UnionOfIntervals<Dyadic> e{List<Interval<Dyadic>>()}; UnionOfIntervals<FloatDP> f{List<Interval<FloatDP>>()}; UnionOfIntervals<Dyadic> o(lst<Dyadic>(L{s})); UnionOfIntervals<Dyadic> e2(lst<Dyadic>(L{IV{17,20}})); ok("empty/relations",e.size()==0u&&subset(e,o)&&!subset(o,e)&&!intersect(e,o)&&join(e,o).size()==1u&&intersection(e,o).size()==0u&&intersection(o,e2).size()==0u); vf::at("empty/measure"); ok("empty/measure",measures(e.measure(),0)&&measures(f.measure(),0)&&measures(intersection(o,e2).measure(),0)); ok("empty/box",!e.covers(dom(s))&&!e.overlaps(dom(s))&&e.separated(dom(s))&&e.inside(dom(s))); }); }

// sets known up to a set of small measure: the measure reported is never more than that of any set meant
VF_SCENARIO(models,3) { L a=rlist(r),c=rlist(r); if (a.empty()||c.empty()) return; auto drop=[&](M m,int n){ for (int i=0;i<n;++i) { int k=r.below(N); if (r.coin()) for (int t=0;t<N&&!m[k];++t) k=(k+1)%N; m[k]=0; } return m; }; int ea=r.below(6),ec=r.below(6); std::string in=cat(str(a)," +/-",ea,"/8 and ",str(c)," +/-",ec,"/8"); vf::distinct(in); total("models",[&]{
    auto run=[&]<class U,class E>(std::string const& p,U*,std::function<E(Q)> err){ using S=UnionOfIntervals<U>; using Mo=LowerMeasurableSetModel<S,E>; S x(lst<U>(a)),y(lst<U>(c)); Mo A(x,err(Q(ea,8))),B(y,err(Q(ec,8))); IV s{int(r.below(N)),0}; s.u=std::min(N,s.l+1+int(r.below(24))); for (int t=0;t<6;++t) { M ma=drop(of(a),ea),mc=drop(of(c),ec); M ms=of(L{s}); auto judge=[&](std::string const& key,auto const& m,M const& truth){ auto v=measure(m); Q bound; if constexpr (requires { v.lower_raw(); }) bound=ref::x(v.lower_raw()).v; else if constexpr (requires { v.raw(); }) bound=ref::x(v.raw()).v; else bound=b(v).v; ok(p+key,bound<=meas(truth),[&]{return cat(in," measure ",v," but possibly ",ref::str(meas(truth)));}); ok(p+key+"/nonnegative",bound>=0,[&]{return cat(in," measure ",v);}); };
            judge("/measure",A,ma); M i=ma,j=ma,k=ma; for (int q=0;q<N;++q) { i[q]=ma[q]&&mc[q]; j[q]=ma[q]||mc[q]; k[q]=ma[q]&&ms[q]; } bool any=false; for (int q=0;q<N;++q) any|=of(a)[q]&&of(c)[q]; if (any) judge("/intersection",intersection(A,B),i); judge("/join",join(A,B),j); if (ea>=0) { bool an=false; for (int q=0;q<N;++q) an|=of(a)[q]&&ms[q]; if (an) judge("/intersection-interval",intersection(A,dom(s)),k); } }
        auto v=measure(A); Q bound; if constexpr (requires { v.lower_raw(); }) bound=ref::x(v.lower_raw()).v; else if constexpr (requires { v.raw(); }) bound=ref::x(v.raw()).v; else bound=b(v).v; Q want=ref::qmax(Q(0),Q(meas(of(a))-Q(ea,8))); ok(p+"/value",ref::abs(Q(bound-want))<=Q(1,1l<<40),[&]{return cat(in," measure ",v," instead of ",ref::str(want));}); };
    run.operator()<Dyadic,Dyadic>("Dyadic",(Dyadic*)nullptr,[](Q q){q.canonicalize(); return ref::dyadic(q);}); run.operator()<FloatDP,Error<FloatDP>>("DP",(FloatDP*)nullptr,[](Q q){ q.canonicalize(); return Error<FloatDP>(fl::TDP::of(q,dp));});
    UnionOfIntervals<Dyadic> x(lst<Dyadic>(a)); ValidatedLowerMeasurableSet<Real> lm(x); auto g=lm.measure().get(DoublePrecision()); Q w=meas(of(a)); ok("handle/measure",ref::abs(Q(ref::x(g.raw()).v-w))<=Q(1,1l<<40)&&ref::le(ref::x(g.raw()),w),[&]{return cat(in," measure ",g);}); IV s{a[0].l,a[0].u}; auto gi=lm.measure_in(dom(s)).get(DoublePrecision()); Q wi(s.u-s.l,8); wi.canonicalize(); ok("handle/measure_in",ref::abs(Q(ref::x(gi.raw()).v-wi))<=Q(1,1l<<40)&&ref::le(ref::x(gi.raw()),wi),[&]{return cat(in," measure_in ",gi);});
    LowerSequence<UnionOfIntervals<Dyadic>> sq([&](Natural n){ return UnionOfIntervals<Dyadic>(lst<Dyadic>(a)); }); auto ms=sq.measures(); for (unsigned n=0;n<6;++n) { Q mn=b(Dyadic(ms[Natural(n)])).v; Q ex=w-Q(1,1l<<n); ex=ref::qmax(ex,Q(0)); ok("sequence/measures",mn==ex,[&]{return cat(in," term ",n," is ",ref::str(mn));}); }
    },[&]{return in;}); }

// preimages of open sets under functions
VF_SCENARIO(preimages,3) { L a=rlist(r,4); if (a.empty()) return; int k=r.below(4); Q p=at8(r.below(N)),q=at8(r.below(N)); if (p==0) p=1; int acc=r.range(2,6); IV d{int(r.below(N-1)),0}; d.u=std::min(N,d.l+1+int(r.below(40))); auto f=[&](Q x)->Q { switch (k) { case 0: return Q(p*x+q); case 1: return Q(x*x+q); case 2: return Q(q-p*x*x/4); default: return Q(x*x*x/8-p*x); } }; std::string in=cat(str(a)," under ",k," ",ref::str(p)," ",ref::str(q)," on ",str(L{d})," accuracy ",acc); vf::distinct(in); total("preimages",[&]{
    auto x=EffectiveScalarUnivariateFunction::coordinate(); auto R_=[](Q const& z){ return Real(ref::dyadic(z)); }; EffectiveScalarUnivariateFunction g=k==0?x*R_(p)+R_(q):k==1?sqr(x)+R_(q):k==2?R_(q)-sqr(x)*R_(Q(p/4)):pow(x,3u)*R_(Q(1,8))-x*R_(p);
    UnionOfIntervals<Dyadic> u(lst<Dyadic>(a)); ValidatedOpenSet<Real> ops=wrap_open(u); M ma=of(a); auto member=[&](Q const& y){ for (int i=0;i<N;++i) if (ma[i]&&y>=at8(i)&&y<=at8(i+1)) return true; return false; };
    auto res=preimage(ValidatedContinuousFunction<Real(Real)>(g),ops,dom(d),Accuracy(exp2(-acc))); Q w(1,1l<<acc); int cov=0; for (int t=0;t<40;++t) { int n=16*(1<<acc); Q span=at8(d.u)-at8(d.l); Q l=at8(d.l)+span*Q(long(r.below(n)),n); Q h=l+span/n; l.canonicalize(); h.canonicalize(); // a tiny piece of the domain
        IntervalDomainType pc(Tr<FloatDP>::of(l),Tr<FloatDP>::of(h)); bool in_=definitely(res.covers(pc)); if (in_) { ++cov; for (int i=0;i<=3;++i) { Q z=l+(h-l)*i/3; ok("preimage/inside",member(f(z)),[&]{return cat(in," point ",ref::str(z)," maps to ",ref::str(f(z)));}); } }
        if (k==0) { Q z=(l+h)/2; Q y=f(z),m=ref::abs(Q(p*w))+Q(1,1l<<30); bool deep=true; for (Q s : {Q(y-m),Q(y+m)}) { if (!member(s)) deep=false; } for (int i=0;i<N;++i) if (!ma[i]&&at8(i+1)>=y-m&&at8(i)<=y+m) deep=false; if (z<at8(d.l)+0||z>at8(d.u)) deep=false; if (deep) ok("preimage/complete",definitely(res.covers(IntervalDomainType(Tr<FloatDP>::of(z),Tr<FloatDP>::of(h)))),[&]{return cat(in," misses ",ref::str(z));}); } }
    vf::note("preimage pieces covered",cov);
    // with a measure of error
    Q e(r.below(8),16); e.canonicalize(); FanModel<Real(Real),DoublePrecision> fm(dom(d),ValidatedContinuousFunction<Real(Real)>(g),FloatError<DoublePrecision>(fl::TDP::of(e,dp))); auto pm=fm.preimage(ops); auto me=pm.measure().get(DoublePrecision()); // true measure, from above: cells of the domain that meet the preimage
    int n=2048; Q upper=0,span=at8(d.u)-at8(d.l); Q cw=span/n; auto sl=[&](Q x0,Q x1){ Q s=k==0?ref::abs(p):k==1?Q(2*ref::qmax(ref::abs(x0),ref::abs(x1))):k==2?Q(ref::abs(p)/2*ref::qmax(ref::abs(x0),ref::abs(x1))):Q(ref::qmax(Q(x0*x0),Q(x1*x1))*3/8+ref::abs(p)); return s; }; for (int i=0;i<n;++i) { Q x0=at8(d.l)+cw*i,x1=x0+cw; Q y=f(Q((x0+x1)/2)),m=sl(x0,x1)*cw/2; bool hit=false; for (int c=0;c<N&&!hit;++c) if (ma[c]&&at8(c+1)>=y-m&&at8(c)<=y+m) hit=true; if (hit) upper+=cw; } Q bound=upper-e; if (bound<0) bound=0; ok("fan/measure",ref::le(ref::x(me.raw()),bound),[&]{return cat(in," error ",ref::str(e)," measure ",me," above ",ref::str(bound));}); ok("fan/domain",fm.domain()==dom(d));
    },[&]{return in;}); }
