// Generic numbers: whatever concrete types meet inside a Number, the result means the same thing.
#include "floats.hpp"
#include "mpi.hpp"
#include "numeric/real.hpp"
#include "numeric/number.hpp"
#include "numeric/upper_number.hpp"
#include "numeric/lower_number.hpp"
#include "numeric/number_wrapper.hpp"
using namespace fl; using namespace Ariadne; using vf::ok; using vf::cat; using vf::total; using mpi::I;
template<class L> static int verdict(L const& l) { return definitely(l)?1:!possibly(l)?-1:0; }
static bool sound(int v, I const& a, I const& b, int op) { // op 0 <, 1 >, 2 <=, 3 >=, 4 ==, 5 !=; the facts that remain possible
    bool lt=a.lo()<b.hi(), gt=a.hi()>b.lo(), eq=!(a.hi()<b.lo()||b.hi()<a.lo()); bool t[6]={lt,gt,lt||eq,gt||eq,eq,lt||gt}, f[6]={gt||eq,lt||eq,gt,lt,lt||gt,eq}; return v==0||(v==1?t[op]:f[op]); }
struct V { ValidatedNumber y; std::vector<I> p; std::string s; bool alg, exactb; };
static Q frac(long a, long b) { Q q{Z(a),Z(b)}; q.canonicalize(); return q; }
static Q rq(vf::Rng& r) { return frac(r.range(-60,60),r.range(1,12)); }
static V leaf(vf::Rng& r) { auto pts=[&](auto const& b){ std::vector<I> p; auto v=points(r,b); for (int i=0;i<3;++i) p.push_back(I(v[r.below(v.size())])); return p; }; auto one=[](Q const& q){ return std::vector<I>(3,I(q)); };
    switch (r.below(11)) {
        case 0: { Q q(r.range(-20,20)); return V{ValidatedNumber(ref::integer(q.get_num())),one(q),cat("Integer ",q.get_str()),true,false}; }
        case 1: { Q q=frac(r.range(-99,99),1l<<r.below(6)); return V{ValidatedNumber(ref::dyadic(q)),one(q),cat("Dyadic ",q.get_str()),true,false}; }
        case 2: { Q q=rq(r); return V{ValidatedNumber(ref::rational(q)),one(q),cat("Rational ",q.get_str()),true,false}; }
        case 3: { Q q=ref::abs(rq(r))+1; Real x=sqrt(Real(ref::rational(q))); return V{ValidatedNumber(EffectiveNumber(x)),std::vector<I>(3,mpi::sqrt(I(q))),cat("Real sqrt ",q.get_str()),true,false}; }
        case 4: { FloatDP x=TDP::mod(r,dp,4); return V{ValidatedNumber(ExactNumber(x)),one(ref::q(x)),cat("FloatDP ",x),false,false}; }
        case 5: { auto pr=TMP::pr(r); FloatMP x=TMP::mod(r,pr,4); return V{ValidatedNumber(ExactNumber(x)),one(ref::q(x)),cat("FloatMP ",x),false,false}; }
        case 6: { auto b=bounds<TDP>(r,dp,3); return V{ValidatedNumber(b),pts(b),cat("FloatDPBounds ",str(b)),false,false}; }
        case 7: { auto pr=TMP::pr(r); auto b=bounds<TMP>(r,pr,3); return V{ValidatedNumber(b),pts(b),cat("FloatMPBounds ",str(b)),false,false}; }
        case 8: { auto b=ball<TDP>(r,dp,3); return V{ValidatedNumber(new NumberWrapper<FloatDPBall>(b)),pts(b),cat("FloatDPBall ",str(b)),false,false}; }
        case 9: { Q a=rq(r), w=ref::abs(rq(r))/16; auto b=RationalBounds(ref::rational(a),ref::rational(Q(a+w))); return V{b.operator ValidatedNumber(),{I(a),I(Q(a+w/3)),I(Q(a+w))},cat("RationalBounds ",a.get_str()),false,true}; }
        default: { Q a=frac(r.range(-99,99),1l<<r.below(6)), w=frac(r.range(0,9),32); auto b=DyadicBounds(ref::dyadic(a),ref::dyadic(Q(a+w))); return V{b.operator ValidatedNumber(),{I(a),I(Q(a+w*Q(1,3))),I(Q(a+w))},cat("DyadicBounds ",a.get_str()),false,true}; } } }
static void watch(vf::Rng& r, std::string const& n, ValidatedNumber const& y, std::vector<I> const& p, std::string const& in) {
    auto enc=[&](char const* k, X l, X u) { for (auto const& v : p) if (!v.bad) ok(n+k,mpi::holds(l,u,v),[&]{return cat(in," is ",y," (",y.class_name(),"), read as [",ref::str(l),",",ref::str(u),"], misses ",mpi::str(v));}); };
    // a reading may be refused (ParadigmError: no conversion is provided), but not wrong
    auto rd=[&](char const* k, auto f) { vf::at(n+k); try { auto v=f(); enc(k,lo(v),hi(v)); } catch (ParadigmError const&) { vf::note(cat("no-conversion:",y.class_name(),k)); } };
    MultiplePrecision pr(mpfr_prec_t(r.pick({24l,53l,64l,128l}))); rd("/get-dp",[&]{return y.get(dp);}); rd("/get-mp",[&]{return y.get(pr);}); rd("/Bounds(Number,dp)",[&]{return FloatDPBounds(y,dp);}); rd("/Bounds(Number,mp)",[&]{return FloatMPBounds(y,pr);});
    rd("/UpperBound",[&]{return FloatDPUpperBound(ValidatedUpperNumber(y),dp);}); rd("/LowerBound",[&]{return FloatDPLowerBound(ValidatedLowerNumber(y),dp);}); rd("/UpperBound-mp",[&]{return FloatMPUpperBound(ValidatedUpperNumber(y),pr);}); rd("/LowerBound-mp",[&]{return FloatMPLowerBound(ValidatedLowerNumber(y),pr);}); rd("/Ball",[&]{return FloatDPBall(y,dp);}); rd("/Ball-mp",[&]{return FloatMPBall(y,pr);}); }
VF_SCENARIO(chains,6) { std::vector<V> pool; for (int i=0;i<4;++i) pool.push_back(leaf(r)); using namespace mpi;
    for (int i=0;i<6;++i) { V const a=pool[r.below(pool.size())], b=pool[r.below(pool.size())]; Op o=Op(r.range(NEG,POW)); if (o==HLF&&r.coin()) o=ADD; long n=r.range(0,4); if (o==POW&&r.coin(1,3)) n=-n; bool trans=(o>=SQRT&&o<=ACOS); if (a.exactb&&(trans||(o==POW&&n<0))) continue; std::vector<I> p; bool good=true;
        bool bin=o>=ADD&&o<=MIN; FloatDPBounds pa(dp),pb(dp); try { pb=b.y.get(dp); pa=a.y.get(dp); } catch (ParadigmError const&) { continue; } I wa(ref::x(pa._l).kind==0?ref::q(pa._l):Q(-1000),ref::x(pa._u).kind==0?ref::q(pa._u):Q(1000)), wb(ref::x(pb._l).kind==0?ref::q(pb._l):Q(-1000),ref::x(pb._u).kind==0?ref::q(pb._u):Q(1000));
        if (!safe(o,bin?wb:wa,0.02)) continue; if (o==POW&&n<0&&!safe(REC,wa,0.02)) continue;
        for (int k=0;k<3;++k) { I v=bin?eval2(o,a.p[size_t(k)],b.p[size_t(k)]):o==POW?pow(a.p[size_t(k)],n):eval1(o,a.p[size_t(k)]); if (v.bad||v.mag()>1e6) good=false; p.push_back(v); } if (!good) continue;
        std::string in=bin?cat(opname(o),"(",a.s,"; ",b.s,")"):cat(opname(o),"(",a.s,o==POW?cat("; ",n):"",")"); std::string key=cat("Number/",opname(o)); bool done=false; ValidatedNumber y;
        vf::at(key); try { switch (o) { case ADD: y=r.coin()?a.y+b.y:add(a.y,b.y); break; case SUB: y=r.coin()?a.y-b.y:sub(a.y,b.y); break; case MUL: y=r.coin()?a.y*b.y:mul(a.y,b.y); break; case DIV: y=r.coin()?a.y/b.y:div(a.y,b.y); break; case MAX: y=max(a.y,b.y); break; case MIN: y=min(a.y,b.y); break; case POW: y=n>=0&&r.coin()?pow(a.y,Nat(n)):pow(a.y,Int(n)); break; case ABS: y=abs(a.y); break; case ASIN: y=asin(a.y); break; case ACOS: y=acos(a.y); break; default: y=apply1(o,a.y); } done=true; }
        catch (DispatchException const&) { vf::note("no-dispatch"); } catch (ParadigmError const&) { vf::note("no-conversion"); } catch (std::exception const& e) { vf::note(cat("refused:",key,":",a.y.class_name())); }
        if (!done) continue; total(key,[&]{ watch(r,key,y,p,in); },[&]{return in;}); vf::distinct(cat(int(o),a.y.class_name(),b.y.class_name(),n)); vf::sample([&]{return in;}); V w{y,p,in.substr(0,300),a.alg&&b.alg,a.exactb||(bin&&b.exactb)||y.class_name()=="RationalBounds"||y.class_name()=="DyadicBounds"}; pool.push_back(w); } }
VF_SCENARIO(comparisons,3) { V a=leaf(r), b=leaf(r); if (r.coin(1,5)) b=a; std::string in=cat(a.s," ; ",b.s); auto one=[&](char const* n,int op, auto f){ std::string key=cat("Number",n); vf::at(key); int v; try { v=f(); } catch (DispatchException const&) { vf::note("no-dispatch"); return; } catch (std::exception const&) { vf::note("refused:"+key); return; } for (int k=0;k<3;++k) ok(key,sound(v,a.p[size_t(k)],b.p[size_t(k)],op),[&]{return cat(in," verdict ",v," at ",mpi::str(a.p[size_t(k)])," ",mpi::str(b.p[size_t(k)]));}); vf::distinct(cat(op,v,a.y.class_name(),b.y.class_name())); };
    one("<",0,[&]{return verdict(a.y<b.y);}); one(">",1,[&]{return verdict(a.y>b.y);}); one("<=",2,[&]{return verdict(a.y<=b.y);}); one(">=",3,[&]{return verdict(a.y>=b.y);}); one("==",4,[&]{return verdict(a.y==b.y);}); one("!=",5,[&]{return verdict(a.y!=b.y);}); }
VF_SCENARIO(exact,3) { // exact and effective numbers built from algebraic types
    auto ex=[&](Q& q)->ExactNumber { q=r.coin(1,3)?Q(r.range(-9,9)):r.coin()?frac(r.range(-99,99),1l<<r.below(6)):rq(r); if (q.get_den()==1&&r.coin()) return ExactNumber(ref::integer(q.get_num())); if (ref::is_dyadic(q)&&r.coin()) return ExactNumber(ref::dyadic(q)); return ExactNumber(ref::rational(q)); };
    Q p,q; ExactNumber a=ex(p), b=ex(q); if (r.coin(1,5)) { b=a; q=p; } std::string in=cat(ref::str(p)," ; ",ref::str(q)); struct { char const* n; std::function<ExactNumber()> f; bool ok; Q v; } t[]={{"add",[&]{return a+b;},true,p+q},{"sub",[&]{return a-b;},true,p-q},{"mul",[&]{return a*b;},true,p*q},{"div",[&]{return a/b;},q!=0,q!=0?Q(p/q):Q(0)},{"max",[&]{return max(a,b);},true,ref::qmax(p,q)},{"min",[&]{return min(a,b);},true,ref::qmin(p,q)},{"neg",[&]{return -a;},true,-p},{"sqr",[&]{return sqr(a);},true,p*p},{"hlf",[&]{return hlf(a);},true,p/2},{"rec",[&]{return rec(b);},q!=0,q!=0?Q(1/q):Q(0)},{"abs",[&]()->ExactNumber{return abs(a);},true,ref::abs(p)},{"pow",[&]{return pow(a,3u);},true,p*p*p}};
    for (auto& c : t) if (c.ok) total(cat("ExactNumber/",c.n),[&]{ ExactNumber y=c.f(); watch(r,cat("ExactNumber/",c.n),y,{I(c.v)},in); auto d=y.get(MultiplePrecision(200)); ok(cat("ExactNumber/",c.n,"/tight"),ref::q(d._u)-ref::q(d._l)<=ref::abs(c.v)*ref::pow(Q(2),-190),[&]{return in;}); },[&]{return in;});
    auto dec=[&](char const* n, auto v, bool fact){ int w=verdict(v); ok(cat("ExactNumber",n),w==(fact?1:-1),[&]{return cat(in," ",w);}); };
    total("ExactNumber/compare",[&]{ dec("==",a==b,p==q); dec("!=",a!=b,p!=q); dec("<",a<b,p<q); dec(">",a>b,p>q); dec("<=",a<=b,p<=q); dec(">=",a>=b,p>=q); },[&]{return in;});
    total("EffectiveNumber",[&]{ EffectiveNumber x=a, z=b; EffectiveNumber s=x*z+exp(x/16); watch(r,"EffectiveNumber/expr",s,{I(p)*I(q)+mpi::exp(I(p)/I(Q(16)))},in); Real back(s); auto g=back.get(MultiplePrecision(128)); I want=I(p)*I(q)+mpi::exp(I(p)/I(Q(16))); ok("EffectiveNumber/Real",mpi::holds(lo(g),hi(g),want),[&]{return in;}); },[&]{return in;});
    total("UpperLower",[&]{ ValidatedNumber x=a, z=b; ValidatedUpperNumber ua(x), ub(z); ValidatedLowerNumber la(x), lb(z); auto U=[&](char const* n, ValidatedUpperNumber const& u, Q const& v){ FloatDPUpperBound w(u,dp); ok(cat("UpperNumber/",n),ref::ge(ref::x(w.raw()),v),[&]{return in;}); }; auto L=[&](char const* n, ValidatedLowerNumber const& u, Q const& v){ FloatDPLowerBound w(u,dp); ok(cat("LowerNumber/",n),ref::le(ref::x(w.raw()),v),[&]{return in;}); };
        U("add",ua+ub,p+q); U("sub",ua-lb,p-q); U("neg",-la,-p); U("max",max(ua,ub),ref::qmax(p,q)); U("min",min(ua,ub),ref::qmin(p,q)); L("add",la+lb,p+q); L("sub",la-ub,p-q); L("neg",-ua,-p); L("max",max(la,lb),ref::qmax(p,q)); L("min",min(la,lb),ref::qmin(p,q)); },[&]{return in;});
    vf::distinct(cat(a.class_name(),b.class_name(),in)); }
