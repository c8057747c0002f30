// Intervals and boxes (C18): set relations, set operations and interval arithmetic mean what they say.
#include "floats.hpp"
#include "alg.hpp"
#include <set>
#include "geometry/interval.hpp"
#include "geometry/box.hpp"
#include "geometry/point.hpp"
#include "geometry/set.hpp"
#include "function/function.hpp"
#include "function/taylor_model.hpp"
#include "algebra/algebra.hpp"
using namespace Ariadne; using vf::ok; using vf::cat; using vf::total; using ref::Q; using ref::X; using mpi::I; using mpi::Expr;
struct QI { Q l,u; }; static std::string str(QI const& a) { return "["+ref::str(a.l)+","+ref::str(a.u)+"]"; }
static Q qk(vf::Rng& r) { switch (r.below(8)) { case 0: { Q q(ref::q(ref::rmod(r,60))); return q; } case 1: return Q(r.range(-3,3)); default: { Q q(r.range(-16,16),8); q.canonicalize(); return q; } } }
static QI rivl(vf::Rng& r) { Q a=qk(r),b=qk(r); if (r.coin(1,10)) b=a; if (b<a) std::swap(a,b); return QI{a,b}; }
// a relative of the given interval: sharing end points, touching, nested
static QI nearby(vf::Rng& r,QI const& a) { Q d(r.range(0,4),16); d.canonicalize(); QI b; switch (r.below(9)) { case 0: b=a; break; case 1: b=QI{Q(a.l+d),a.u}; break; case 2: b=QI{a.l,Q(a.u+d)}; break; case 3: b=QI{Q(a.l-d),Q(a.u+d)}; break; case 4: b=QI{a.u,Q(a.u+d)}; break; case 5: b=QI{Q(a.l-d),a.l}; break; case 6: b=QI{Q(a.u+Q(1,32)),Q(a.u+1)}; break; default: b=rivl(r); } if (b.u<b.l) std::swap(b.l,b.u); return b; }
static QI sub(vf::Rng& r,QI const& a) { Q s(r.range(0,8),8),t(r.range(0,8),8); s.canonicalize(); t.canonicalize(); if (t<s) std::swap(s,t); Q w=a.u-a.l; return QI{Q(a.l+w*s),Q(a.l+w*t)}; }
static QI sup(vf::Rng& r,QI const& a) { Q s(r.range(0,3),8),t(r.range(0,3),8); s.canonicalize(); t.canonicalize(); return QI{Q(a.l-s),Q(a.u+t)}; }
static bool deg(QI const& a) { return a.l==a.u; }
static FloatDP D(Q const& q) { return fl::TDP::of(q,dp); } static bool fits(Q const& q) { return ref::q(q.get_d())==q; } static bool fits(QI const& a) { return fits(a.l)&&fits(a.u); }
static FloatMP Mp(Q const& q) { return fl::TMP::of(q,MultiplePrecision(128)); }
using ED=Interval<FloatDP>; using UD=Interval<FloatDPUpperBound>; using LD=Interval<FloatDPLowerBound>; using AD=Interval<FloatDPApproximation>; using EM=Interval<FloatMP>; using UM=Interval<FloatMPUpperBound>; using WI=Interval<Dyadic>; using RI=Interval<Rational>; using SI=Interval<Real>;
static ED ed(QI const& a) { return ED(D(a.l),D(a.u)); } static UD ud(QI const& a) { return UD(FloatDPLowerBound(D(a.l)),FloatDPUpperBound(D(a.u))); } static LD ld(QI const& a) { return LD(FloatDPUpperBound(D(a.l)),FloatDPLowerBound(D(a.u))); }
static AD ad(QI const& a) { return AD(FloatDPApproximation(D(a.l)),FloatDPApproximation(D(a.u))); } static EM em(QI const& a) { return EM(Mp(a.l),Mp(a.u)); } static UM um(QI const& a) { return UM(FloatMPLowerBound(Mp(a.l)),FloatMPUpperBound(Mp(a.u))); }
static WI wi(QI const& a) { return WI(ref::dyadic(a.l),ref::dyadic(a.u)); } static RI ri(QI const& a) { return RI(ref::rational(a.l),ref::rational(a.u)); } static SI si(QI const& a) { return SI(Real(ref::rational(a.l)),Real(ref::rational(a.u))); }
static X b(FloatDP const& x) { return ref::x(x); } static X b(FloatMP const& x) { return ref::x(x); } static X b(Dyadic const& x) { return ref::x(x); } static X b(Rational const& x) { return ref::x(x); }
template<class T> requires requires(T const& t) { t.raw(); } static X b(T const& x) { return ref::x(x.raw()); }
template<class IV> static std::string xs(IV const& a) { return "["+ref::str(b(a.lower_bound()))+","+ref::str(b(a.upper_bound()))+"]"; }
static X lo(FloatDP const& x) { return ref::x(x); } static X hi(FloatDP const& x) { return ref::x(x); } static X lo(FloatMP const& x) { return ref::x(x); } static X hi(FloatMP const& x) { return ref::x(x); } static X lo(Rational const& x) { return ref::x(x); } static X hi(Rational const& x) { return ref::x(x); } static X lo(Dyadic const& x) { return ref::x(x); } static X hi(Dyadic const& x) { return ref::x(x); }
template<class F> static X lo(Bounds<F> const& x) { return ref::x(x.lower_raw()); } template<class F> static X hi(Bounds<F> const& x) { return ref::x(x.upper_raw()); }
static void judge(std::string const& key,bool k,bool t,std::function<std::string()> in) { ok(key,k==t,[&]{return cat(in()," gave ",k);}); }
template<class K> requires (!std::is_same_v<K,bool>) static void judge(std::string const& key,K const& k,bool t,std::function<std::string()> in) {
    if constexpr (requires { k.check(Effort(8)); }) { auto v=k.check(Effort(8)); ok(key,t?possibly(v):!definitely(v),[&]{return cat(in()," gave ",v);}); } else ok(key,t?possibly(k):!definitely(k),[&]{return cat(in()," gave ",k);}); }
struct Rel { char const* n; std::function<bool(QI const&,QI const&)> t; bool thin; };
static std::vector<Rel> const RELS={{"subset",[](QI const& a,QI const& b){return a.l>=b.l&&a.u<=b.u;},true},{"superset",[](QI const& a,QI const& b){return a.l<=b.l&&a.u>=b.u;},true},{"disjoint",[](QI const& a,QI const& b){return a.l>b.u||a.u<b.l;},true},{"intersect",[](QI const& a,QI const& b){return !(a.l>b.u||a.u<b.l);},true},{"separated",[](QI const& a,QI const& b){return a.l>b.u||a.u<b.l;},true},{"overlap",[](QI const& a,QI const& b){return a.l<b.u&&a.u>b.l;},false},{"inside",[](QI const& a,QI const& b){return a.l>b.l&&a.u<b.u;},true},{"covers",[](QI const& a,QI const& b){return a.l<b.l&&a.u>b.u;},true}};
#define RELATION(i,f) if constexpr (requires { f(x,y); }) { if (RELS[i].thin||(!deg(a)&&!deg(c))) judge(pre+"/" #f,f(x,y),RELS[i].t(a,c),in); }
template<class A,class B> static void relations(std::string const& pre,A const& x,B const& y,QI const& a,QI const& c) { auto in=[&]{return cat(str(a)," and ",str(c));};
    RELATION(0,subset) RELATION(1,superset) RELATION(2,disjoint) RELATION(3,intersect) RELATION(4,separated) RELATION(5,overlap) RELATION(6,inside) RELATION(7,covers)
    if constexpr (std::is_same_v<A,B>) { if constexpr (!std::is_same_v<A,SI>&&requires { equal(x,y); }) judge(pre+"/equal",equal(x,y),a.l==c.l&&a.u==c.u,in); if constexpr (requires { x==y; }) { if constexpr (std::is_same_v<A,ED>||std::is_same_v<A,EM>||std::is_same_v<A,WI>||std::is_same_v<A,RI>||std::is_same_v<A,SI>) { judge(pre+"/==",x==y,a.l==c.l&&a.u==c.u,in); judge(pre+"/!=",x!=y,!(a.l==c.l&&a.u==c.u),in); } } } }
VF_SCENARIO(relations,6) { QI a=rivl(r),c=r.coin(2,3)?nearby(r,a):rivl(r); vf::distinct(str(a)+str(c)); if (!fits(a)||!fits(c)) return; total("relations",[&]{
    relations("DP",ed(a),ed(c),a,c); relations("MP",em(a),em(c),a,c); relations("Dyadic",wi(a),wi(c),a,c); relations("Rational",ri(a),ri(c),a,c); if (r.coin(1,4)) relations("Real",si(a),si(c),a,c);
    // an upper interval stands for any interval inside it, a lower interval for any containing it
    for (int i=0;i<3;++i) { QI as=sub(r,a),cs=sub(r,c),ap=sup(r,a),cp=sup(r,c); relations("Upper-Exact",ud(a),ed(c),as,c); relations("Exact-Upper",ed(a),ud(c),a,cs); relations("Upper-Upper",ud(a),ud(c),as,cs); relations("Lower-Exact",ld(a),ed(c),ap,c); relations("Exact-Lower",ed(a),ld(c),a,cp); relations("Upper-Lower",ud(a),ld(c),as,cp); relations("Lower-Upper",ld(a),ud(c),ap,cs); relations("UpperMP",um(a),um(c),as,cs); }
    Q p=r.coin()?a.l:r.coin()?a.u:qk(r); if (r.coin(1,3)) p=c.l; bool t=p>=a.l&&p<=a.u; auto in=[&]{return cat(str(a)," and ",ref::str(p));}; if (fits(p)) { judge("DP/contains",contains(ed(a),D(p)),t,in); judge("DP/element",element(D(p),ed(a)),t,in); judge("MP/contains",contains(em(a),Mp(p)),t,in); judge("Rational/contains",contains(ri(a),ref::rational(p)),t,in); judge("Dyadic/contains",contains(wi(a),ref::dyadic(p)),t,in); judge("Real/contains",contains(si(a),Real(ref::rational(p))),t,in); QI as=sub(r,a); judge("Upper/contains",contains(ud(a),D(p)),p>=as.l&&p<=as.u,in); QI ap=sup(r,a); judge("Lower/contains",contains(ld(a),D(p)),p>=ap.l&&p<=ap.u,in);
        QI pb=nearby(r,QI{p,p}); Q pp=sub(r,pb).l; if (fits(pb)) judge("DP/contains-bounds",contains(ed(a),FloatDPBounds(D(pb.l),D(pb.u))),pp>=a.l&&pp<=a.u,in); }
    ok("is_empty",!ed(a).is_empty()&&!em(a).is_empty()&&!bool(ri(a).is_empty())&&!definitely(ud(a).is_empty()),in); if (a.l<a.u) ok("is_empty/reversed",ed(QI{a.u,a.l}).is_empty()&&em(QI{a.u,a.l}).is_empty()&&definitely(ud(QI{a.u,a.l}).is_empty()),in); judge("is_singleton",ed(a).is_singleton(),deg(a),in);
    ok("is_bounded",definitely(ed(a).is_bounded())&&definitely(is_bounded(ud(a)))&&!definitely(ED(D(a.l),FloatDP(inf,dp)).is_bounded())&&!definitely(ED(FloatDP(-inf,dp),D(a.u)).is_bounded()),in);
    ED e=ED::empty_interval(); ok("empty",e.is_empty()&&subset(e,ed(a))&&disjoint(e,ed(a))&&!intersect(e,ed(a))&&!contains(e,D(a.l))&&inside(e,ed(a)),in); ED bi=ED::biinfinite_interval(); ok("biinfinite",contains(bi,D(a.l))&&subset(ed(a),bi)&&inside(ed(a),bi)&&intersect(bi,ed(a)),in); ok("unit",ref::same(b(ED::unit_interval().lower_bound()),X(Q(-1)))&&ref::same(b(ED::unit_interval().upper_bound()),X(Q(1))),in); }); }

// operations
template<class IV> static void exact(std::string const& key,IV const& v,Q const& l,Q const& u,std::string const& in) { ok(key,ref::same(b(v.lower_bound()),X(l))&&ref::same(b(v.upper_bound()),X(u)),[&]{return cat(in," gave ",xs(v)," but is [",ref::str(l),",",ref::str(u),"]");}); }
template<class IV> static void over(std::string const& key,IV const& v,Q const& l,Q const& u,std::string const& in) { ok(key,ref::le(b(v.lower_bound()),l)&&ref::ge(b(v.upper_bound()),u),[&]{return cat(in," gave ",xs(v)," but contains [",ref::str(l),",",ref::str(u),"]");}); }
template<class IV> static void under(std::string const& key,IV const& v,Q const& l,Q const& u,std::string const& in) { ok(key,ref::ge(b(v.lower_bound()),l)&&ref::le(b(v.upper_bound()),u),[&]{return cat(in," gave ",xs(v)," but is inside [",ref::str(l),",",ref::str(u),"]");}); }
static X rnd(X const& x) { return x; }
template<class IV> static void parts(std::string const& pre,IV const& v,QI const& a,std::string const& in) { // midpoint, radius, width and splitting
    auto m=v.midpoint(); X ml=lo(m),mu=hi(m); ok(pre+"/midpoint",ref::ge(ml,a.l)&&ref::le(mu,a.u),[&]{return cat(in," midpoint ",ref::str(ml));}); Q w=a.u-a.l;
    if (ml.finite()) { Q tol=Q(w+ref::abs(a.l)+ref::abs(a.u))*Q(1,1l<<50); ok(pre+"/midpoint-central",ref::abs(Q(ml.v-(a.l+a.u)/2))<=tol,[&]{return cat(in," midpoint ",ref::str(ml));}); }
    auto need=ref::qmax(Q(a.u-ml.v),Q(ml.v-a.l)); auto rad=v.radius(); X ru; if constexpr (requires { rad.raw(); }) ru=ref::x(rad.raw()); else ru=hi(rad); ok(pre+"/radius",ref::ge(ru,need),[&]{return cat(in," midpoint ",ref::str(ml)," radius ",ref::str(ru));}); auto wd=v.width(); X wu; if constexpr (requires { wd.raw(); }) wu=ref::x(wd.raw()); else wu=hi(wd); ok(pre+"/width",ref::ge(wu,w)&&ref::le(wu,Q(w*Q((1l<<40)+1,1l<<40)+Q(1,1l<<30)*w)),[&]{return cat(in," width ",ref::str(wu));});
    auto s=split(v); X f0=b(s.first.lower_bound()),f1=b(s.first.upper_bound()),g0=b(s.second.lower_bound()),g1=b(s.second.upper_bound()); ok(pre+"/split",ref::same(f0,X(a.l))&&ref::same(g1,X(a.u))&&f1.finite()&&g0.finite()&&f1.v>=g0.v&&f1.v<=a.u&&g0.v>=a.l,[&]{return cat(in," gave ",xs(s.first)," and ",xs(s.second));}); ok(pre+"/split-central",ref::same(f1,g0)&&ref::same(f1,ml),[&]{return cat(in," gave ",xs(s.first)," and ",xs(s.second));});
    auto p0=split(v,SplitPart::LOWER),p1=split(v,SplitPart::MIDDLE),p2=split(v,SplitPart::UPPER); exact(pre+"/split-lower",p0,a.l,f1.v,in); exact(pre+"/split-upper",p2,g0.v,a.u,in); X q0=b(p1.lower_bound()),q1=b(p1.upper_bound()); Q tol=Q(w+ref::abs(a.l)+ref::abs(a.u))*Q(1,1l<<48); ok(pre+"/split-middle",q0.finite()&&q1.finite()&&ref::abs(Q(q0.v-(a.l*3+a.u)/4))<=tol&&ref::abs(Q(q1.v-(a.l+a.u*3)/4))<=tol,[&]{return cat(in," gave ",xs(p1));}); }
VF_SCENARIO(operations,5) { QI a=rivl(r),c=r.coin(2,3)?nearby(r,a):rivl(r); if (!fits(a)||!fits(c)) return; std::string in=cat(str(a)," and ",str(c)); vf::distinct("o"+in); total("operations",[&]{ Q il=ref::qmax(a.l,c.l),iu=ref::qmin(a.u,c.u),hl=ref::qmin(a.l,c.l),hu=ref::qmax(a.u,c.u);
    exact("DP/intersection",intersection(ed(a),ed(c)),il,iu,in); exact("MP/intersection",intersection(em(a),em(c)),il,iu,in); exact("Rational/intersection",intersection(ri(a),ri(c)),il,iu,in); exact("Upper/intersection",intersection(ud(a),ud(c)),il,iu,in); exact("UpperExact/intersection",intersection(ud(a),ed(c)),il,iu,in); exact("Lower/intersection",intersection(ld(a),ld(c)),il,iu,in); exact("Approximate/intersection",intersection(ad(a),ad(c)),il,iu,in);
    exact("DP/hull",hull(ed(a),ed(c)),hl,hu,in); exact("MP/hull",hull(em(a),em(c)),hl,hu,in); exact("Dyadic/hull",hull(wi(a),wi(c)),hl,hu,in); exact("Upper/hull",hull(ud(a),ud(c)),hl,hu,in); exact("Lower/hull",hull(ld(a),ld(c)),hl,hu,in); exact("Approximate/hull",hull(ad(a),ad(c)),hl,hu,in); Q p=c.l; exact("DP/hull-point",hull(ed(a),D(p)),ref::qmin(a.l,p),ref::qmax(a.u,p),in); exact("DP/point-hull",hull(D(p),ed(a)),ref::qmin(a.l,p),ref::qmax(a.u,p),in);
    parts("DP",ed(a),a,in); parts("MP",em(a),a,in); parts("Upper",ud(a),a,in); parts("Rational",ri(a),a,in); { auto ce=ed(a).centre(); ok("DP/centre",ref::le(lo(ce),Q((a.l+a.u)/2))&&ref::ge(hi(ce),Q((a.l+a.u)/2)),[&]{return in;}); }
    // widening and narrowing are strict
    auto strict=[&](char const* k,X const& l,X const& u,QI const& o,bool out){ ok(k,(out?(ref::le(l,o.l)&&!ref::same(l,X(o.l))&&ref::ge(u,o.u)&&!ref::same(u,X(o.u))):(ref::ge(l,o.l)&&!ref::same(l,X(o.l))&&ref::le(u,o.u)&&!ref::same(u,X(o.u)))),[&]{return cat(str(o)," gave [",ref::str(l),",",ref::str(u),"]");}); };
    auto w=widen(ed(a)); strict("widen/exact",b(w.lower_bound()),b(w.upper_bound()),a,true); auto wu=widen(ud(a)); strict("widen/upper",b(wu.lower_bound()),b(wu.upper_bound()),a,true); auto nl=narrow(ld(a)); strict("narrow/lower",b(nl.lower_bound()),b(nl.upper_bound()),a,false); auto ne=narrow(ed(a)); strict("narrow/exact",b(ne.lower_bound()),b(ne.upper_bound()),a,false);
    Q e(r.range(1,16),64); e.canonicalize(); auto we=widen(ud(a),FloatDPUpperBound(D(e))); over("widen/by",we,Q(a.l-e),Q(a.u+e),in); auto nb=narrow(ld(a),FloatDPUpperBound(D(e))); under("narrow/by",nb,Q(a.l+e),Q(a.u-e),in);
    auto wd=widen_domain(ud(a)); over("widen_domain",wd,a.l,a.u,in); ok("widen_domain/thick",b(wd.upper_bound()).kind||b(wd.lower_bound()).kind||b(wd.lower_bound()).v<b(wd.upper_bound()).v,[&]{return cat(in," gave ",xs(wd));}); Q tol=Q(ref::abs(a.l)+ref::abs(a.u))*Q(1,1l<<21)+Q(1,1l<<40); ok("widen_domain/tight",b(wd.upper_bound()).kind||b(wd.lower_bound()).kind||(Q(a.l-b(wd.lower_bound()).v)<=tol&&Q(b(wd.upper_bound()).v-a.u)<=tol),[&]{return cat(in," gave ",xs(wd));}); auto ap=approximate_domain(ud(a)); ok("approximate_domain",b(ap.upper_bound()).kind||b(ap.lower_bound()).kind||(ref::abs(Q(a.l-b(ap.lower_bound()).v))<=tol&&ref::abs(Q(b(ap.upper_bound()).v-a.u))<=tol),[&]{return cat(in," gave ",xs(ap));});
    // conversions round outwards for upper and inwards for lower intervals
    Q k3(r.range(1,9),3); k3.canonicalize(); QI q3{Q(a.l/3),Q(a.u/3+k3)}; SI s3=si(q3); RI r3=ri(q3); UD u3(s3,dp); over("convert/Real-Upper",u3,q3.l,q3.u,in); UD ur(r3,dp); over("convert/Rational-Upper",ur,q3.l,q3.u,in); LD l3(r3,dp); under("convert/Rational-Lower",l3,q3.l,q3.u,in); LD ls(s3,dp); under("convert/Real-Lower",ls,q3.l,q3.u,in); UM m3(s3,MultiplePrecision(24)); over("convert/Real-UpperMP",m3,q3.l,q3.u,in); UM mr(r3,MultiplePrecision(200)); over("convert/Rational-UpperMP",mr,q3.l,q3.u,in); Q t2=Q(ref::abs(q3.l)+ref::abs(q3.u))*Q(1,1l<<50); ok("convert/tight",Q(q3.l-b(u3.lower_bound()).v)<=t2&&Q(b(u3.upper_bound()).v-q3.u)<=t2&&Q(b(l3.lower_bound()).v-q3.l)<=t2&&Q(q3.u-b(l3.upper_bound()).v)<=t2,[&]{return in;});
    exact("convert/Exact-Upper",UD(ed(a)),a.l,a.u,in); exact("convert/Exact-Lower",LD(ed(a)),a.l,a.u,in); exact("cast_exact",cast_exact(ud(a)),a.l,a.u,in); exact("convert/Exact-Dyadic",WI(ed(a)),a.l,a.u,in); auto sg=cast_singleton(ud(a)); ok("cast_singleton",ref::same(lo(sg),X(a.l))&&ref::same(hi(sg),X(a.u)),[&]{return in;}); exact("make_interval",make_interval(sg),a.l,a.u,in); auto sp=cast_singleton(r3,dp); ok("cast_singleton/rounded",ref::le(lo(sp),q3.l)&&ref::ge(hi(sp),q3.u),[&]{return in;});
    exact("refinement",refinement(ud(a),ud(c)),il,iu,in); ok("refines",refines(ud(a),ud(c))==(a.l>=c.l&&a.u<=c.u)&&refines(ud(a),ud(a)),[&]{return in;}); ok("same",same(ud(a),ud(c))==(a.l==c.l&&a.u==c.u)&&same(um(a),um(a)),[&]{return in;}); }); }

// interval arithmetic
template<class U,class F> static void arith(vf::Rng& r,std::string const& pre,U x,U y,QI const& a,QI const& c,std::function<F(Q)> mk) { Q pa=sub(r,a).l,pc=sub(r,c).u; I va(pa),vc(pc); std::string in=cat(str(a)," and ",str(c)," at ",ref::str(pa),",",ref::str(pc));
    auto ck=[&](char const* k,U const& v,I const& w){ if (w.bad) return; ok(pre+"/"+k,mpi::holds(b(v.lower_bound()),b(v.upper_bound()),w),[&]{return cat(in," gave ",xs(v)," but is ",mpi::str(w));}); };
    ck("add",x+y,va+vc); ck("sub",x-y,va-vc); ck("mul",x*y,va*vc); ck("neg",-x,-va); ck("pos",+x,va); ck("max",max(x,y),mpi::max(va,vc)); ck("min",min(x,y),mpi::min(va,vc)); ck("abs",abs(x),mpi::abs(va)); ck("sqr",sqr(x),mpi::sqr(va)); ck("hlf",hlf(x),mpi::hlf(va)); if (!(c.l<=0&&c.u>=0)) { ck("div",x/y,va/vc); ck("rec",rec(y),mpi::rec(vc)); } unsigned n=unsigned(r.below(6)); ck("pow",pow(x,Nat(n)),mpi::pow(va,long(n))); if (!(c.l<=0&&c.u>=0)) { int m=int(r.range(-4,4)); ck("pow-int",pow(y,m),mpi::pow(vc,m)); } ck("fma",fma(x,y,x),va*vc+va);
    { U z=x; z+=y; ck("add-assign",z,va+vc); z=x; z-=y; ck("sub-assign",z,va-vc); z=x; z*=y; ck("mul-assign",z,va*vc); } ck("nul",nul(x),I(Q(0))); ck("zero",x.create_zero(),I(Q(0)));
    bool mod=ref::abs(a.l)<40&&ref::abs(a.u)<40; if (mod) { ck("exp",exp(x),mpi::exp(va)); ck("sin",sin(x),mpi::sin(va)); ck("cos",cos(x),mpi::cos(va)); ck("atan",atan(x),mpi::atan(va)); if (pa>0) { ck("log",log(x),mpi::log(va)); ck("sqrt",sqrt(x),mpi::sqrt(va)); ck("sqrt-negative",sqrt(x),-mpi::sqrt(va)); } Q h(11,7); if (a.l>-h&&a.u<h) ck("tan",tan(x),mpi::tan(va)); }
    auto mg=mag(x); ok(pre+"/mag",ref::ge(ref::x(mg.raw()),ref::qmax(ref::abs(a.l),ref::abs(a.u))),[&]{return in;}); auto mi=mig(x); Q m0=a.l>0?a.l:a.u<0?Q(-a.u):Q(0); ok(pre+"/mig",ref::le(ref::x(mi.raw()),m0),[&]{return in;}); F f=mk(c.u); I vu(c.u); ck("add-float",x+f,va+vu); ck("float-mul",f*x,va*vu); ck("mul-float",x*f,va*vu);
    judge(pre+"/lt",x<y,pa<pc,[&]{return in;}); judge(pre+"/gt",x>y,pa>pc,[&]{return in;}); judge(pre+"/le",x<=y,pa<=pc,[&]{return in;}); judge(pre+"/eq",x==y,pa==pc,[&]{return in;}); }
VF_SCENARIO(arithmetic,5) { QI a=rivl(r),c=r.coin(1,3)?nearby(r,a):rivl(r); if (!fits(a)||!fits(c)) return; vf::distinct("a"+str(a)+str(c)); total("arithmetic",[&]{ arith<UD,FloatDP>(r,"UpperDP",ud(a),ud(c),a,c,[](Q q){return D(q);}); arith<UM,FloatMP>(r,"UpperMP",um(a),um(c),a,c,[](Q q){return Mp(q);}); },[&]{return cat(str(a)," and ",str(c));}); }

// boxes
using EB=Box<ED>; using UB=Box<UD>; using LB=Box<LD>; using SB=Box<SI>; using QB=std::vector<QI>;
static std::string str(QB const& a) { std::string s; for (auto& i:a) s+=str(i); return s; } static QB each(QB const& a,std::function<QI(QI const&)> f) { QB b; for (auto& i:a) b.push_back(f(i)); return b; }
template<class IV> static Box<IV> mkbox(QB const& a,IV (*f)(QI const&)) { return Box<IV>(a.size(),[&](SizeType i){return f(a[i]);}); }
static bool truth(size_t k,QB const& a,QB const& c) { bool any=k==2||k==4; for (size_t i=0;i<a.size();++i) { bool t=RELS[k].t(a[i],c[i]); if (any&&t) return true; if (!any&&!t) return false; } return !any; }
#define BRELATION(i,f) if constexpr (requires { f(x,y); }) { if (RELS[i].thin||!thin) judge(pre+"/" #f,f(x,y),truth(i,a,c),in); }
#define BMEMBER(i,f) if constexpr (requires { x.f(y); }) { if (RELS[i].thin||!thin) judge(pre+"." #f,x.f(y),truth(i,a,c),in); }
template<class A,class B> static void brelations(std::string const& pre,A const& x,B const& y,QB const& a,QB const& c) { auto in=[&]{return cat(str(a)," and ",str(c));}; bool thin=false; for (auto& i:a) thin|=deg(i); for (auto& i:c) thin|=deg(i);
    BRELATION(0,subset) BRELATION(1,superset) BRELATION(2,disjoint) BRELATION(3,intersect) BRELATION(4,separated) BRELATION(5,overlap) BRELATION(6,inside) BRELATION(7,covers) BMEMBER(0,subset) BMEMBER(1,superset) BMEMBER(2,disjoint) BMEMBER(3,intersects) BMEMBER(4,separated) BMEMBER(5,overlaps) BMEMBER(6,inside) BMEMBER(7,covers) }
static bool eqb(QB const& a,QB const& c) { for (size_t i=0;i<a.size();++i) if (a[i].l!=c[i].l||a[i].u!=c[i].u) return false; return true; }
template<class B> static void isbox(std::string const& key,B const& v,QB const& a,std::string const& in) { bool g=v.dimension()==a.size(); for (size_t i=0;g&&i<a.size();++i) g=ref::same(b(v[i].lower_bound()),X(a[i].l))&&ref::same(b(v[i].upper_bound()),X(a[i].u)); ok(key,g,[&]{return cat(in," gave ",v," not ",str(a));}); }
VF_SCENARIO(boxes,6) { size_t n=1+r.below(4); QB a,c; bool rel=r.coin(2,3); for (size_t i=0;i<n;++i) { a.push_back(rivl(r)); c.push_back(rel||r.coin()?nearby(r,a[i]):rivl(r)); } if (r.coin(1,8)) c=a; if (rel&&r.coin()) for (size_t i=0;i<n;++i) { if (r.coin(3,4)) c[i]=sub(r,a[i]); } for (size_t i=0;i<n;++i) if (!fits(a[i])||!fits(c[i])) return; std::string in=cat(str(a)," and ",str(c)); vf::distinct("b"+in);
    total("boxes",[&]{ EB x=mkbox(a,ed),y=mkbox(c,ed); UB ux=mkbox(a,ud),uy=mkbox(c,ud); LB lx=mkbox(a,ld),ly=mkbox(c,ld); brelations("Box",x,y,a,c); for (int i=0;i<2;++i) { auto S=[&](QB const& q){return each(q,[&](QI const& v){return sub(r,v);});}; auto P=[&](QB const& q){return each(q,[&](QI const& v){return sup(r,v);});}; brelations("UpperBox",ux,uy,S(a),S(c)); brelations("UpperExactBox",ux,y,S(a),c); brelations("ExactUpperBox",x,uy,a,S(c)); brelations("LowerExactBox",lx,y,P(a),c); brelations("ExactLowerBox",x,ly,a,P(c)); }
        if (r.coin(1,4)) { SB sx=mkbox(a,si); brelations("RealBox",sx,mkbox(c,si),a,c); RealBoxSet rs(sx); judge("RealBoxSet/separated",rs.separated(y),truth(4,a,c),[&]{return in;}); judge("RealBoxSet/inside",rs.inside(y),truth(6,a,c),[&]{return in;}); judge("RealBoxSet/covers",rs.covers(y),truth(7,a,c),[&]{return in;}); auto bb=rs.bounding_box(); for (size_t i=0;i<n;++i) over("RealBoxSet/bounding_box",bb[i],a[i].l,a[i].u,in); }
        { ExactBoxSetType bs(x); judge("BoxSet/separated",bs.separated(y),truth(4,a,c),[&]{return in;}); judge("BoxSet/inside",bs.inside(y),truth(6,a,c),[&]{return in;}); judge("BoxSet/covers",bs.covers(y),truth(7,a,c),[&]{return in;}); }
        judge("Box/==",x==y,eqb(a,c),[&]{return in;}); judge("Box/!=",x!=y,!eqb(a,c),[&]{return in;}); judge("Box/equal",equal(x,y),eqb(a,c),[&]{return in;}); ok("Box/same",same(ux,uy)==eqb(a,c),[&]{return in;}); ok("Box/refines",refines(ux,uy)==truth(0,a,c),[&]{return in;});
        QB iq,hq; bool em_=false; for (size_t i=0;i<n;++i) { iq.push_back(QI{ref::qmax(a[i].l,c[i].l),ref::qmin(a[i].u,c[i].u)}); hq.push_back(QI{ref::qmin(a[i].l,c[i].l),ref::qmax(a[i].u,c[i].u)}); em_|=iq[i].l>iq[i].u; } auto ix=intersection(x,y); isbox("Box/intersection",ix,iq,in); judge("Box/is_empty",ix.is_empty(),em_,[&]{return in;}); isbox("Box/hull",hull(x,y),hq,in); isbox("UpperBox/intersection",intersection(ux,uy),iq,in); isbox("UpperBox/hull",hull(ux,uy),hq,in); ok("Box/is_bounded",x.is_bounded(),[&]{return in;}); { EB z=x; size_t k=r.below(n); z[k]=ED(D(a[k].l),FloatDP(inf,dp)); ok("Box/is_bounded/not",!z.is_bounded(),[&]{return in;}); }
        std::vector<Q> p; for (size_t i=0;i<n;++i) p.push_back(r.coin(1,6)?qk(r):r.coin()?a[i].l:r.coin()?a[i].u:c[i].l); bool pin=true,pf=true; for (size_t i=0;i<n;++i) { pin&=p[i]>=a[i].l&&p[i]<=a[i].u; pf&=fits(p[i]); } if (pf) { Point<FloatDP> pt(Vector<FloatDP>(n,[&](SizeType i){return D(p[i]);})); judge("Box/contains",x.contains(pt),pin,[&]{return in;}); judge("Box/contains-vector",contains(x,pt.vector()),pin,[&]{return in;}); judge("Box/element",element(pt.vector(),x),pin,[&]{return in;}); QB h2; for (size_t i=0;i<n;++i) h2.push_back(QI{ref::qmin(a[i].l,p[i]),ref::qmax(a[i].u,p[i])}); isbox("Box/hull-point",hull(x,pt),h2,in); isbox("Box/point-hull",hull(pt,x),h2,in); }
        // corners, sizes, splitting
        auto lb=x.lower_bounds(),ubs=x.upper_bounds(); bool g=true; for (size_t i=0;i<n;++i) g=g&&ref::same(lo(lb[i]),X(a[i].l))&&ref::same(hi(ubs[i]),X(a[i].u)); ok("Box/bounds",g,[&]{return in;}); std::set<std::vector<std::string>> vs,want; for (auto& v:x.vertices()) { std::vector<std::string> k; for (size_t i=0;i<n;++i) k.push_back(ref::str(lo(v[i]))); vs.insert(k); } for (size_t m=0;m<(1u<<n);++m) { std::vector<std::string> k; for (size_t i=0;i<n;++i) k.push_back(ref::str(X((m>>i)&1?a[i].u:a[i].l))); want.insert(k); } ok("Box/vertices",vs==want&&x.vertices().size()==(1u<<n),[&]{return in;});
        Q mr=0,ms=1,sp=0,slack(1,1l<<60); for (auto& i:a) slack+=Q(ref::abs(i.l)+ref::abs(i.u))*Q(1,1l<<48); for (auto& i:a) { Q w=i.u-i.l; mr=ref::qmax(mr,Q(w/2)); ms*=w; sp+=w; } auto cov=[&](char const* k,X const& u,Q const& v){ ok(k,ref::ge(u,v)&&ref::le(u,Q(v*Q((1l<<40)+1,1l<<40)+slack)),[&]{return cat(in," gave ",ref::str(u)," for ",ref::str(v));}); }; auto U=[&](auto const& t)->X{ if constexpr (requires { t.raw(); }) return ref::x(t.raw()); else return hi(t); }; cov("Box/radius",U(x.radius()),mr); cov("UpperBox/radius",U(ux.radius()),mr); if (ms<Q(ref::q(1e200))) { cov("Box/measure",U(x.measure()),ms); cov("UpperBox/measure",U(ux.measure()),ms); cov("Box/volume",U(x.volume()),ms); } cov("Box/semiperimeter",U(x.semiperimeter()),sp); auto ws=x.widths(); auto rs2=x.radii(); for (size_t i=0;i<n;++i) { cov("Box/widths",U(ws[i]),Q(a[i].u-a[i].l)); cov("Box/radii",U(rs2[i]),Q((a[i].u-a[i].l)/2)); }
        size_t big=0; for (size_t i=1;i<n;++i) if (Q(a[i].u-a[i].l)>Q(a[big].u-a[big].l)) big=i; auto splitok=[&](char const* k,EB const& f,EB const& s,size_t j){ bool q=true; for (size_t i=0;i<n;++i) { X l1=b(f[i].lower_bound()),u1=b(f[i].upper_bound()),l2=b(s[i].lower_bound()),u2=b(s[i].upper_bound()); if (i!=j) q=q&&ref::same(l1,X(a[i].l))&&ref::same(u1,X(a[i].u))&&ref::same(l2,l1)&&ref::same(u2,u1); else q=q&&ref::same(l1,X(a[i].l))&&ref::same(u2,X(a[i].u))&&ref::same(u1,l2)&&u1.v>=a[i].l&&u1.v<=a[i].u; } ok(k,q,[&]{return cat(in," gave ",f," and ",s);}); }; auto sp2=x.split(); size_t wid=n; for (size_t i=0;i<n&&wid==n;++i) if (!(sp2.first[i]==x[i])||!(sp2.second[i]==x[i])) wid=i; if (wid==n) wid=big; Q bw=a[big].u-a[big].l; ok("Box/split/longest",Q(a[wid].u-a[wid].l)>=Q(bw-bw*Q(1,1l<<40)),[&]{return cat(in," split coordinate ",wid);}); splitok("Box/split",sp2.first,sp2.second,wid); size_t k=r.below(n); auto sk=x.split(k); splitok("Box/split-coordinate",sk.first,sk.second,k); splitok("Box/split-part",x.split(k,SplitPart::LOWER),x.split(k,SplitPart::UPPER),k); { auto su=ux.split(k); bool q=true; for (size_t i=0;i<n;++i) { X l1=b(su.first[i].lower_bound()),u1=b(su.first[i].upper_bound()),l2=b(su.second[i].lower_bound()),u2=b(su.second[i].upper_bound()); q=q&&ref::same(l1,X(a[i].l))&&ref::same(u2,X(a[i].u))&&(i==k?ref::same(u1,l2)&&u1.v>=a[i].l&&u1.v<=a[i].u:ref::same(u1,u2)&&ref::same(l1,l2)); } ok("UpperBox/split",q,[&]{return cat(in," gave ",su.first," and ",su.second);}); } auto mp=x.midpoint(); for (size_t i=0;i<n;++i) ok("Box/midpoint",ref::ge(lo(mp[i]),a[i].l)&&ref::le(hi(mp[i]),a[i].u),[&]{return in;});
        // products and projections
        QB pr=a; pr.insert(pr.end(),c.begin(),c.end()); isbox("Box/product",product(x,y),pr,in); QB p1=a; p1.push_back(c[0]); isbox("Box/product-interval",product(x,y[0]),p1,in); QB p3=p1; p3.insert(p3.end(),c.begin(),c.end()); isbox("Box/product-three",product(x,y[0],y),p3,in); isbox("Box/product-boxes",product(x,y,x),[&]{ QB q=pr; q.insert(q.end(),a.begin(),a.end()); return q; }(),in); isbox("Box/join-three",join(x,y,x),[&]{ QB q=pr; q.insert(q.end(),a.begin(),a.end()); return q; }(),in); isbox("Box/interval-product",EB::_product(y[0],x),[&]{ QB q={c[0]}; q.insert(q.end(),a.begin(),a.end()); return q; }(),in); isbox("Box/remove",remove(x,k),[&]{ QB q=a; q.erase(q.begin()+long(k)); return q; }(),in);
        Array<SizeType> ix2(1+r.below(4)); QB pj; for (size_t i=0;i<ix2.size();++i) { ix2[i]=r.below(n); pj.push_back(a[ix2[i]]); } isbox("Box/project",project(x,ix2),pj,in); size_t s0=r.below(n),s1=s0+1+r.below(n-s0); isbox("Box/project-range",project(x,range(s0,s1)),QB(a.begin()+long(s0),a.begin()+long(s1)),in); isbox("Box/[range]",x[range(s0,s1)],QB(a.begin()+long(s0),a.begin()+long(s1)),in);
        auto uw=widen(ux); for (size_t i=0;i<n;++i) { over("UpperBox/widen",uw[i],a[i].l,a[i].u,in); } Q e(r.range(1,9),32); e.canonicalize(); auto ue=widen(ux,FloatDPUpperBound(D(e))); auto xe=widen(x,D(e)); for (size_t i=0;i<n;++i) { over("UpperBox/widen-by",ue[i],Q(a[i].l-e),Q(a[i].u+e),in); over("Box/widen-by",xe[i],Q(a[i].l-e),Q(a[i].u+e),in); } auto wdm=widen_domain(ux); for (size_t i=0;i<n;++i) over("UpperBox/widen_domain",wdm[i],a[i].l,a[i].u,in); auto nb=narrow(lx,FloatDPUpperBound(D(e))); for (size_t i=0;i<n;++i) under("LowerBox/narrow",nb[i],Q(a[i].l+e),Q(a[i].u-e),in);
        isbox("Box/convert-upper",UB(x),a,in); auto cs=cast_singleton(ux); for (size_t i=0;i<n;++i) ok("Box/cast_singleton",ref::same(lo(cs[i]),X(a[i].l))&&ref::same(hi(cs[i]),X(a[i].u)),[&]{return in;}); auto ub1=EB::unit_box(n); isbox("Box/unit_box",ub1,QB(n,QI{Q(-1),Q(1)}),in); },[&]{return in;}); }
// images under functions
VF_SCENARIO(images,3) { size_t n=1+r.below(3); QB a; std::vector<I> dom; for (size_t i=0;i<n;++i) { Q l(r.range(-24,24),8); l.canonicalize(); Q u=l+Q(r.range(0,12),8); a.push_back(QI{l,u}); dom.push_back(mpi::hull(I(l),I(u))); } mpi::Allow al=mpi::Allow::but({mpi::ASIN,mpi::ACOS,mpi::ABS,mpi::MAX,mpi::MIN}); Expr e=mpi::random(r,dom,int(r.range(1,6)),al,0.1,1e3,4),f=mpi::random(r,dom,int(r.range(1,5)),al,0.1,1e3,4); std::string in=cat(e.str()," and ",f.str()," over ",str(a)); vf::distinct(mpi::shape(e)+mpi::shape(f));
    total("image",[&]{ std::vector<EffectiveScalarMultivariateFunction> x; for (size_t i=0;i<n;++i) x.push_back(EffectiveScalarMultivariateFunction::coordinate(EuclideanDomain(n),i)); auto cst=[&](Q const& c){ return EffectiveScalarMultivariateFunction::constant(EuclideanDomain(n),EffectiveNumber(Real(ref::rational(c)))); };
        auto g=mpi::build<EffectiveScalarMultivariateFunction>(e,x,cst),h=mpi::build<EffectiveScalarMultivariateFunction>(f,x,cst); EffectiveVectorMultivariateFunction v={g,h}; UB bx=mkbox(a,ud); ValidatedScalarMultivariateFunction vg(g); ValidatedVectorMultivariateFunction vv(v); UD im=image(bx,vg); UB ib=image(bx,vv),ab=apply(vv,bx); for (int k=0;k<4;++k) { std::vector<I> p; for (auto& q:a) p.push_back(I(sub(r,q).l)); I ev=mpi::eval(e,p),fv=mpi::eval(f,p); auto ck=[&](char const* key,UD const& t,I const& w){ if (!w.bad) ok(key,mpi::holds(b(t.lower_bound()),b(t.upper_bound()),w),[&]{return cat(in," gave ",xs(t)," but is ",mpi::str(w));}); }; ck("image/scalar",im,ev); ck("image/vector",ib[0],ev); ck("image/vector",ib[1],fv); ck("image/apply",ab[1],fv); } },[&]{return in;}); }
