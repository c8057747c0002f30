// Three-valued logic and comparisons: a definite verdict is never wrong, and grows with effort.
#include "floats.hpp"
#include "numeric/sequence.hpp"
#include "utility/array.hpp"
using namespace fl; using namespace Ariadne; using vf::ok; using vf::cat; using vf::total;
using LV=LogicalValue;
static const LV vals[5]={LV::FALSE,LV::UNLIKELY,LV::INDETERMINATE,LV::LIKELY,LV::TRUE};
static int iv(LV v) { return int(v); }
static bool is(LV v, LV w) { return int(v)==int(w); }
static int three(LV v) { return is(v,LV::TRUE)?1:is(v,LV::FALSE)?-1:0; }
static int kand(int a,int b){return std::min(a,b);} static int kor(int a,int b){return std::max(a,b);} static int keq(int a,int b){return a*b;} 
// a verdict about a hidden fact: -1 definitely false, +1 definitely true, 0 open
template<class L> static int verdict(L const& l) { return definitely(l)?1:!possibly(l)?-1:0; }
static bool sound(int v, bool fact) { return v==0 || (v==1)==fact; }

// truth tables of the value-based types
VF_SCENARIO(tables,2) { LV a=vals[r.below(5)], b=vals[r.below(5)]; auto in=[&]{return cat(a," , ",b);}; int x=three(a), y=three(b); using K=ValidatedKleenean; K ka(a), kb(b);
    ok("Kleenean/and",three((ka&&kb).repr())==kand(x,y)&&iv((ka&&kb).repr())==std::min(iv(a),iv(b)),in); ok("Kleenean/or",three((ka||kb).repr())==kor(x,y)&&iv((ka||kb).repr())==std::max(iv(a),iv(b)),in);
    ok("Kleenean/not",iv((!ka).repr())==-iv(a),in); ok("Kleenean/eq",three((ka==kb).repr())==keq(x,y),in); ok("Kleenean/xor",three((ka^kb).repr())==-keq(x,y),in); ok("Kleenean/ne",three((ka!=kb).repr())==-keq(x,y),in);
    // likelihoods follow the sign rule too
    auto sg=[](int i){return i>0?1:i<0?-1:0;}; ok("Kleenean/eq-likely",sg(iv((ka==kb).repr()))==sg(iv(a))*sg(iv(b)),in);
    ok("Kleenean/definitely",definitely(ka)==(x==1)&&possibly(ka)==(x!=-1)&&decide(ka)==(iv(a)>=1)&&probably(ka)==(iv(a)>=1)&&is_determinate(ka)==(x!=0)&&is_indeterminate(ka)==(x==0),in);
    ValidatedLowerKleenean la(a), lb(b); ValidatedUpperKleenean ua(a), ub(b); ValidatedSierpinskian sa(a), sb(b); ValidatedNegatedSierpinskian na(a), nb(b); ApproximateKleenean aa(a), ab(b);
    ok("Lower/definite",verdict(la)==(x==1?1:0)&&verdict(sa)==(x==1?1:0),in); ok("Upper/definite",verdict(ua)==(x==-1?-1:0)&&verdict(na)==(x==-1?-1:0),in); ok("Approximate/open",verdict(aa)==0&&decide(aa)==(iv(a)>=1),in);
    ok("Lower/ops",verdict(la&&lb)==(x==1&&y==1?1:0)&&verdict(la||lb)==(x==1||y==1?1:0)&&verdict(!la)==(x==1?-1:0),in); ok("Upper/ops",verdict(ua&&ub)==(x==-1||y==-1?-1:0)&&verdict(ua||ub)==(x==-1&&y==-1?-1:0)&&verdict(!ua)==(x==-1?1:0),in);
    ok("Sierpinskian/ops",verdict(sa&&sb)==(x==1&&y==1?1:0)&&verdict(sa||sb)==(x==1||y==1?1:0)&&verdict(!sa)==(x==1?-1:0)&&verdict(na&&nb)==(x==-1||y==-1?-1:0)&&verdict(na||nb)==(x==-1&&y==-1?-1:0)&&verdict(!na)==(x==-1?1:0),in);
    bool p=r.coin(), q=r.coin(); Boolean B(p),C(q); ok("Boolean/ops",bool(B&&C)==(p&&q)&&bool(B||C)==(p||q)&&bool(!B)==!p&&bool(B^C)==(p!=q)&&bool(B==C)==(p==q),[&]{return cat(p,q);});
    ok("Kleenean(bool)",verdict(K(p))==(p?1:-1)&&verdict(ValidatedLowerKleenean(p))==(p?1:0)&&verdict(ValidatedUpperKleenean(p))==(p?0:-1)&&verdict(K(indeterminate))==0,[&]{return cat(p);});
    std::ostringstream os; os<<ka; ok("Kleenean/write",os.str()==(is(a,LV::TRUE)?"true":is(a,LV::FALSE)?"false":is(a,LV::LIKELY)?"likely":is(a,LV::UNLIKELY)?"unlikely":"indeterminate"),in);
    vf::distinct(cat("t",iv(a),iv(b),p,q)); }

// a computation whose answer appears after some effort
struct Slow : public LogicalInterface { LV v; Nat when; Slow(LV v_, Nat w) : v(v_), when(w) { } LogicalInterface* _copy() const override { return new Slow(*this); }
    LV _check(Effort e) const override { return e.work()>=when ? v : LV::INDETERMINATE; } OutputStream& _write(OutputStream& os) const override { return os<<"slow("<<v<<","<<when<<")"; } };
static LogicalHandle slow(LV v, Nat w) { return LogicalHandle(std::make_shared<Slow>(v,w)); }

// expression trees over facts, effective and validated: verdicts are sound, complete and monotone in effort
VF_SCENARIO(trees,4) { struct Node { Kleenean k; std::function<int(Nat)> at; bool fact; std::string s; Node(Kleenean k_, std::function<int(Nat)> a, bool f, std::string s_) : k(k_), at(a), fact(f), s(s_) { } }; std::vector<Node> pool;
    for (int i=0;i<6;++i) { bool f=r.coin(); Nat w=Nat(r.below(6)); bool never=r.coin(1,4); int fv=f?1:-1; if (never) pool.push_back(Node(Kleenean(indeterminate),[](Nat){return 0;},f,"?")); else pool.push_back(Node(Kleenean(slow(f?LV::TRUE:LV::FALSE,w)),[fv,w](Nat e){return e>=w?fv:0;},f,cat(f,"@",w))); }
    for (int i=0;i<10;++i) { auto a=pool[r.below(pool.size())], b=pool[r.below(pool.size())]; auto fa=a.at, fb=b.at; switch (r.below(5)) {
        case 0: pool.push_back(Node(a.k&&b.k,[fa,fb](Nat e){return kand(fa(e),fb(e));},a.fact&&b.fact,cat("(",a.s,"&",b.s,")"))); break;
        case 1: pool.push_back(Node(a.k||b.k,[fa,fb](Nat e){return kor(fa(e),fb(e));},a.fact||b.fact,cat("(",a.s,"|",b.s,")"))); break;
        case 2: pool.push_back(Node(!a.k,[fa](Nat e){return -fa(e);},!a.fact,cat("!",a.s))); break;
        case 3: pool.push_back(Node(a.k^b.k,[fa,fb](Nat e){return -keq(fa(e),fb(e));},a.fact!=b.fact,cat("(",a.s,"^",b.s,")"))); break;
        default: pool.push_back(Node(a.k==b.k,[fa,fb](Nat e){return keq(fa(e),fb(e));},a.fact==b.fact,cat("(",a.s,"=",b.s,")"))); break; }
        auto& n=pool.back(); if (n.s.size()>300) break; int prev=0; for (Nat e=0;e<7;++e) { int v=verdict(n.k.check(Effort(e))); ok("tree/sound",sound(v,n.fact),[&]{return cat(n.s," effort ",e," gave ",v);}); ok("tree/kleene",v==n.at(e),[&]{return cat(n.s," effort ",e," gave ",v," want ",n.at(e));}); ok("tree/monotone",prev==0||v==prev,[&]{return n.s;}); prev=v;
            int lv=verdict(LowerKleenean(n.k).check(Effort(e))), uv=verdict(UpperKleenean(n.k).check(Effort(e))); ok("tree/lower-upper",lv==(v==1?1:0)&&uv==(v==-1?-1:0),[&]{return n.s;}); ok("tree/effort-functions",definitely(n.k,Effort(e))==(v==1)&&possibly(n.k,Effort(e))==(v!=-1),[&]{return n.s;}); }
        vf::distinct(n.s.substr(0,80)); } vf::sample([&]{return pool.back().s;}); }
VF_SCENARIO(sequences,1) { // countable disjunctions and conjunctions, and nondeterministic choice
    Nat k0=Nat(r.below(12)), w=Nat(r.below(8)); bool hit=r.coin(2,3); Sequence<LowerKleenean> s([=](Natural n){ Nat i=Nat(n.get_si()); return LowerKleenean(hit&&i==k0?slow(LV::TRUE,w):slow(i%2?LV::FALSE:LV::INDETERMINATE,0u)); }); LowerKleenean d=disjunction(s);
    Sequence<UpperKleenean> t([=](Natural n){ Nat i=Nat(n.get_si()); return UpperKleenean(hit&&i==k0?slow(LV::FALSE,w):slow(i%2?LV::TRUE:LV::INDETERMINATE,0u)); }); UpperKleenean c=conjunction(t);
    for (Nat e=0;e<24;++e) { int v=verdict(d.check(Effort(e))), u=verdict(c.check(Effort(e))); ok("disjunction/sound",v==0||hit,[&]{return cat(k0," ",w," ",e);}); ok("conjunction/sound",u==0||hit,[&]{return cat(k0," ",w," ",e);}); if (e>k0+w+1&&hit) { ok("disjunction/found",v==1,[&]{return cat(k0," ",w," ",e);}); ok("conjunction/found",u==-1,[&]{return cat(k0," ",w," ",e);}); } vf::distinct(cat("seq",hit,v,u)); }
    bool tr=r.coin(); Nat w1=Nat(r.below(9)), w2=Nat(r.below(9)); bool both=r.coin(); LowerKleenean pt(slow(tr||both?LV::TRUE:LV::INDETERMINATE,w1)), pf(slow(!tr||both?LV::TRUE:LV::INDETERMINATE,w2)); total("choose",[&]{ bool res=choose(pt,pf); ok("choose",both||res==tr,[&]{return cat(tr,both,res);}); });
    Array<LowerKleenean> ar(5u,LowerKleenean(indeterminate)); SizeType j=r.below(5); ar[j]=LowerKleenean(slow(LV::TRUE,w1)); total("choose_index",[&]{ SizeType i=nondeterministic_choose_index(ar); ok("choose_index",i==j,[&]{return cat(i,j);}); }); }

// comparisons of validated numbers; pa, pb are exact points they may stand for
template<class A, class B> static void compare(vf::Rng& r, std::string const& n, A const& x, B const& y, bool complete) {
    auto pa=points(r,x), pb=points(r,y); if (pa.empty()||pb.empty()) return; Q xl=lo(x).v,xu=hi(x).v,yl=lo(y).v,yu=hi(y).v; auto in=[&]{return cat("x=",str(x)," y=",str(y));};
#define CMP(NAME,EXPR,OP,SURE,NEVER) { std::string key=n+NAME; total(key,[&]{ int v=verdict(EXPR); for (auto& a:pa) for (auto& b:pb) ok(key,sound(v,a OP b),[&]{return cat(in()," verdict ",v," against ",ref::str(a)," ",ref::str(b));}); if (complete) ok(key+"/decided",v==((SURE)?1:(NEVER)?-1:0),[&]{return cat(in()," verdict ",v);}); vf::distinct(cat(key,v)); }); }
    bool lt=xu<yl, gt=xl>yu, le=xu<=yl, ge=xl>=yu, pt=xl==xu&&yl==yu&&xl==yl;
    CMP("<",x<y,<,lt,ge) CMP(">",x>y,>,gt,le) CMP("<=",x<=y,<=,le,gt) CMP(">=",x>=y,>=,ge,lt) CMP("==",x==y,==,pt,lt||gt) CMP("!=",x!=y,!=,lt||gt,pt) }
template<class T> static void comparisons(vf::Rng& r) { using F=typename T::F; auto pr=T::pr(r); int e=int(r.pick({1,3,20})); auto x=bounds<T>(r,pr,e), y=bounds<T>(r,pr,e); if (r.coin(1,4)) y=Bounds<F>(x._u,T::of(Q(ref::q(x._u)+ref::abs(ref::q(y._l))),pr)); if (r.coin(1,8)) y=x; std::string n=T::name();
    compare(r,n+"Bounds",x,y,true); F f=r.coin()?T::mod(r,pr,e):x._u; compare(r,n+"Bounds-F",x,f,true); compare(r,n+"F-Bounds",f,x,true);
    auto b=ball<T>(r,pr,e), c=ball<T>(r,pr,e); if (r.coin(1,4)) c=Ball<F>(b._v,c._e); compare(r,n+"Ball",b,c,false); compare(r,n+"Ball-F",b,f,false); compare(r,n+"F-Ball",f,b,false);
    compare(r,n+"Bounds-Ball",x,Bounds<F>(b),true);
    auto pa=points(r,x); Q xl=lo(x).v,xu=hi(x).v; auto in=[&]{return str(x);};
    { 
       int s=verdict(sgn(x)); for (auto& a:pa) ok(n+"Bounds/sgn",s==0||(s==1?a>=0:a<=0),in); ok(n+"Bounds/sgn/decided",(xl>0?s==1:xu<0?s==-1:s==0),in);
      int eqv=verdict(eq(x,y)), ltv=verdict(lt(x,y)); for (auto& a:pa) for (auto& d:points(r,y)) { ok(n+"Bounds/eq",sound(eqv,a==d),in); ok(n+"Bounds/lt",sound(ltv,a<d),in); } }
    { auto pb=points(r,b); int s=verdict(sgn(b)); for (auto& a:pb) {  ok(n+"Ball/sgn",s==0||(s==1?a>0:a<0),[&]{return str(b);}); } }
    // one-sided: x1 <= u1 known, x2 >= l2 known
    { UpperBound<F> u(T::mod(r,pr,e)); LowerBound<F> l(r.coin(1,4)?u.raw():T::mod(r,pr,e)); Q uq=ref::q(u.raw()), lq=ref::q(l.raw()); auto io=[&]{return cat("upper ",ref::str(uq)," lower ",ref::str(lq));};
      // a <= u, b >= l: a<b is certain iff u<l; nothing else can be affirmed
      auto one=[&](char const* nm, int v, int want) { ok(n+nm,v==want,[&]{return cat(io()," verdict ",v);}); };
      one("Upper<Lower",verdict(u<l),uq<lq?1:0); one("Upper<=Lower",verdict(u<=l),uq<=lq?1:0); one("Upper>Lower",verdict(u>l),uq<=lq?-1:0); one("Upper>=Lower",verdict(u>=l),uq<lq?-1:0);
      one("Lower>Upper",verdict(l>u),uq<lq?1:0); one("Lower>=Upper",verdict(l>=u),uq<=lq?1:0); one("Lower<Upper",verdict(l<u),uq<=lq?-1:0); one("Lower<=Upper",verdict(l<=u),uq<lq?-1:0); }
    // against exact numbers of other types
    { Q v=r.coin()?Q(ref::rrat(r,30)):pa[r.below(pa.size())]; Rational q=ref::rational(v); auto iq=[&]{return cat(str(x)," , ",ref::str(v));}; int a=verdict(x<q), b2=verdict(x>q), c2=verdict(x==q), d=verdict(q<=x), g=verdict(q>=x), h=verdict(x!=q);
      for (auto& p:pa) ok(n+"Bounds-Rational",sound(a,p<v)&&sound(b2,p>v)&&sound(c2,p==v)&&sound(d,v<=p)&&sound(g,v>=p)&&sound(h,p!=v),[&]{return cat(iq()," at ",ref::str(p)," ",a,b2,c2,d,g,h);}); } }
VF_SCENARIO(compare_dp,4) { comparisons<TDP>(r); }
VF_SCENARIO(compare_mp,3) { comparisons<TMP>(r); }

// real numbers: verdicts at every effort agree with the exact order
VF_SCENARIO(compare_real,2) { Q a=ref::rrat(r,r.coin()?20:90), b=r.coin(1,3)?Q(a+Q(1)/(Q(1)<<r.below(90))):ref::rrat(r,r.coin()?20:90); Real x(ref::rational(a)), y(ref::rational(b)); auto in=[&]{return cat(ref::str(a)," , ",ref::str(b));};
    if (r.coin(1,3)) { x=sqrt(x*x); a=ref::abs(a); } if (r.coin(1,3)) { y=y+1-1; }
    struct { char const* nm; std::function<int(Effort)> f; bool fact; } t[]={{"<",[&](Effort e){return verdict((x<y).check(e));},a<b},{">",[&](Effort e){return verdict((x>y).check(e));},a>b},{"<=",[&](Effort e){return verdict((x<=y).check(e));},a<=b},{">=",[&](Effort e){return verdict((x>=y).check(e));},a>=b},{"==",[&](Effort e){return verdict((x==y).check(e));},a==b},{"!=",[&](Effort e){return verdict((x!=y).check(e));},a!=b}};
    for (auto& c:t) { std::string key=std::string("Real")+c.nm; total(key,[&]{ int prev=0; for (Nat e : {0u,1u,8u,64u,192u,400u}) { int v=c.f(Effort(e)); ok(key,sound(v,c.fact),[&]{return cat(in()," effort ",e," verdict ",v);}); ok(key+"/monotone",prev==0||v==prev,in); prev=v; }
        if (a!=b&&ref::abs(a-b)*ref::pow(Q(2),60)>Q(1)&&ref::abs(a)<ref::pow(Q(2),90)&&ref::abs(b)<ref::pow(Q(2),90)) ok(key+"/decided",prev!=0||std::string(c.nm)=="=="&&c.fact,in); vf::distinct(cat(key,prev)); },in); } }
