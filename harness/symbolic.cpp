// Symbolic expressions (C16): every transformation of an expression keeps the real function it stands for.
#include "floats.hpp"
#include "alg.hpp"
#include "tps.hpp"
#include <set>
#include "symbolic/expression.hpp"
#include "symbolic/valuation.hpp"
#include "symbolic/assignment.hpp"
#include "symbolic/space.hpp"
#include "function/function.hpp"
#include "function/formula.hpp"
#include "function/taylor_model.hpp"
#include "algebra/algebra.hpp"
using namespace Ariadne; using vf::ok; using vf::cat; using vf::total; using vf::partial; using ref::Q; using ref::X; using mpi::I; using mpi::Expr;
using RE=Expression<Real>; using KE=Expression<Kleenean>; using RV=RealVariable;
static const mpi::Allow ALL=mpi::Allow::but({mpi::ASIN,mpi::ACOS}), SMTH=mpi::Allow::but({mpi::ASIN,mpi::ACOS,mpi::MAX,mpi::MIN,mpi::ABS}), POLY=mpi::Allow::only({mpi::CNST,mpi::NEG,mpi::POS,mpi::HLF,mpi::SQR,mpi::ADD,mpi::SUB,mpi::MUL,mpi::POW});
static std::string pts(std::vector<Q> const& x) { std::string s="("; for (auto& q:x) s+=(s.size()>1?",":"")+ref::str(q); return s+")"; }
static std::vector<I> ivs(std::vector<Q> const& p) { std::vector<I> v; for (auto& q:p) v.push_back(I(q)); return v; }
// names that compare differently as numbers, words and cases
static std::vector<std::string> names(vf::Rng& r,size_t n) { std::vector<std::string> pool={"x","y","z","x1","x10","x2","X","t","a","ab","b","theta","u0","_q"}; for (size_t i=pool.size();i>1;--i) std::swap(pool[i-1],pool[r.below(i)]); pool.resize(n); return pool; }
struct Cs { size_t n; std::vector<Q> l,h; std::vector<I> dom; std::vector<std::string> nm; std::vector<RV> v; };
static Cs rcase(vf::Rng& r,size_t n) { Cs c; c.n=n; c.nm=names(r,n); for (size_t i=0;i<n;++i) { Q a(r.range(-24,24),8); a.canonicalize(); Q b=Q(a+Q(r.range(0,12),8)); c.l.push_back(a); c.h.push_back(b); c.dom.push_back(I(a,b)); c.v.push_back(RV(c.nm[i])); } return c; }
static std::vector<Q> point(vf::Rng& r,Cs const& c) { std::vector<Q> p; for (size_t i=0;i<c.n;++i) { Q t(r.range(0,8),8); t.canonicalize(); p.push_back(Q(c.l[i]+(c.h[i]-c.l[i])*t)); } return p; }
static Expr rexpr(vf::Rng& r,Cs const& c,int size,mpi::Allow const& al,double cap=1e3) { return mpi::random(r,c.dom,size,al,0.15,cap,4); }
static bool low(Expr const& e) { for (auto& n:e.v) if (n.op==mpi::POW&&(n.n==0||n.n==1)) return true; return false; }
static RE emax(RE const& a,RE const& b) { return max(a,b); } static RE emin(RE const& a,RE const& b) { return min(a,b); } static RE eabs(RE const& a) { return abs(a); }
// build, sharing nodes or not, with operators or named operations, numbers or named constants
static RE make(vf::Rng& r,Expr const& e,Cs const& c,bool share) { std::function<RE(int)> mk; std::vector<RE> w; std::vector<bool> have(e.v.size(),false); w.resize(e.v.size(),RE(Real(0)));
    mk=[&](int i)->RE { if (share&&have[size_t(i)]) return w[size_t(i)]; auto const& n=e.v[size_t(i)]; RE x(Real(0)); auto A=[&]{return mk(n.a);}; auto B=[&]{return mk(n.b);}; bool f=r.coin(1,3);
        switch (n.op) { case mpi::VAR: x=RE(c.v[size_t(n.n)]); break; case mpi::CNST: x=r.coin(1,6)?RE(Constant<Real>("k"+std::to_string(i),Real(ref::rational(n.c)))):RE(Real(ref::rational(n.c))); break;
            case mpi::ADD: { RE a=A(),b=B(); x=f?add(a,b):a+b; if (r.coin(1,8)) { x=a; x+=b; } } break; case mpi::SUB: { RE a=A(),b=B(); x=f?sub(a,b):a-b; if (r.coin(1,8)) { x=a; x-=b; } } break; case mpi::MUL: { RE a=A(),b=B(); x=f?mul(a,b):a*b; if (r.coin(1,8)) { x=a; x*=b; } } break; case mpi::DIV: { RE a=A(),b=B(); x=f?div(a,b):a/b; if (r.coin(1,8)) { x=a; x/=b; } } break;
            case mpi::MAX: x=emax(A(),B()); break; case mpi::MIN: x=emin(A(),B()); break; case mpi::ABS: x=eabs(A()); break; case mpi::POW: x=pow(A(),int(n.n)); break; case mpi::NEG: x=f?neg(A()):-A(); break; case mpi::POS: x=f?pos(A()):+A(); break; default: x=mpi::apply1(n.op,A()); }
        w[size_t(i)]=x; have[size_t(i)]=true; return x; };
    return mk(int(e.v.size())-1); }
static Map<Identifier,Real> valuation(Cs const& c,std::vector<Q> const& p) { Map<Identifier,Real> m; for (size_t i=0;i<c.n;++i) m.insert(Identifier(c.nm[i]),Real(ref::rational(p[i]))); return m; }
static void holds(std::string const& key,Real const& y,I const& v,std::string const& in) { if (v.bad) return; auto b=y.get(dp); X l=fl::lo(b),u=fl::hi(b); ok(key,mpi::holds(l,u,v),[&]{return cat(in," gave [",ref::str(l),",",ref::str(u),"] but is ",mpi::str(v));}); if (key.compare(0,10,"substitute")!=0&&!l.isnan()&&l.finite()&&u.finite()) ok(key+"/tight",Q(u.v-l.v)<=(1+ref::abs(v.hi()))*Q(1,1<<8),[&]{return cat(in," gave [",ref::str(l),",",ref::str(u),"]");}); }
static void value(std::string const& key,RE const& e,Cs const& c,std::vector<Q> const& p,I const& v,std::string const& in) { if (v.bad) return; total(key,[&]{ holds(key,evaluate(e,valuation(c,p)),v,cat(in," at ",pts(p)," as ",e)); },[&]{return cat(in," at ",pts(p));}); }
static std::set<std::string> nameset(Set<Identifier> const& s) { std::set<std::string> t; for (auto& x:s) t.insert(x); return t; }
static bool uses(Expr const& e,size_t i) { for (auto& n:e.v) if (n.op==mpi::VAR&&size_t(n.n)==i) return true; return false; }

VF_SCENARIO(transform,6) { Cs c=rcase(r,1+r.below(3)); Expr e=rexpr(r,c,int(r.range(1,10)),ALL); bool share=r.coin(); RE x=make(r,e,c,share); std::string is=e.str(); auto in=[&]{return is;}; vf::distinct(mpi::shape(e)); vf::sample([&]{return cat(is," printed as ",x);}); std::vector<std::vector<Q>> ps={point(r,c),point(r,c)};
    RE s=x,cs=x,ss=x; if (!total("transform",[&]{ s=simplify(x); cs=x; eliminate_common_subexpressions(cs); ss=simplify(cs); },in)) return;
    for (auto& p:ps) { I v=mpi::eval(e,ivs(p)); value("evaluate",x,c,p,v,is); value("simplify",s,c,p,v,is); value("eliminate_common_subexpressions",cs,c,p,v,is); value("simplify-eliminated",ss,c,p,v,is); }
    total("counts",[&]{ size_t nn=count_nodes(x),nd=count_distinct_nodes(x),np=count_distinct_node_pointers(x); ok("count/order",nd<=np&&np<=nn,[&]{return cat(is," ",nn," nodes ",np," pointers ",nd," distinct");}); size_t cd=count_distinct_nodes(cs),cp=count_distinct_node_pointers(cs); ok("eliminate/shared",cd==nd&&cp==cd,[&]{return cat(is," has ",nd," distinct nodes; afterwards ",cd," and ",cp," pointers");}); },in);
    total("arguments",[&]{ std::set<std::string> want; for (size_t i=0;i<c.n;++i) if (uses(e,i)) want.insert(c.nm[i]); ok("arguments",nameset(arguments(x))==want,in); std::set<std::string> m; for (auto& u:x.arguments()) m.insert(u.name()); ok("arguments/member",m==want,in); for (auto& q:nameset(arguments(s))) ok("arguments/simplified",want.count(q)>0,in); },in);
    Vector<RE> ve({x,make(r,e,c,!share),s}); total("eliminate-vector",[&]{ eliminate_common_subexpressions(ve); for (size_t i=0;i<3;++i) value("eliminate-vector",ve[i],c,ps[0],mpi::eval(e,ivs(ps[0])),is); },in); }
VF_SCENARIO(derivatives,5) { Cs c=rcase(r,1+r.below(3)); Expr e=rexpr(r,c,int(r.range(1,8)),SMTH,200); if (low(e)) return; RE x=make(r,e,c,r.coin()); std::string is=e.str(); vf::distinct("d"+mpi::shape(e)); auto p=point(r,c); std::vector<tps::S> xs; for (size_t i=0;i<c.n;++i) xs.push_back(tps::variable(c.n,2,I(p[i]),i)); tps::S s=tps::eval(e,xs); if (s.bad) return;
    for (size_t k=0;k<c.n;++k) { auto in=[&]{return cat(is," d/d",c.nm[k]);}; total("derivative",[&]{ RE d=derivative(x,c.v[k]); RE sd=simplify(d); tps::PV v(c.n,0); v[k]=1; I dv=s.get(v); value("derivative",d,c,p,dv,in()); value("derivative/simplified",sd,c,p,dv,in()); size_t j=r.below(c.n); tps::PV w=v; ++w[j]; I d2=j==k?s.get(w)*I(2):s.get(w); if (r.coin(1,2)) value("derivative/second",simplify(derivative(sd,c.v[j])),c,p,d2,cat(in()," d/d",c.nm[j])); },in); }
    total("derivative/absent",[&]{ RE d=derivative(x,RV("no_such_variable")); value("derivative/absent",d,c,p,I(0),is); }); }
VF_SCENARIO(substitution,5) { Cs c=rcase(r,2+r.below(2)); // replace variables by expressions with values inside their range
    std::vector<Expr> se; std::vector<I> d2=c.dom; std::vector<RE> sx; auto in0=point(r,c); Expr e=rexpr(r,c,int(r.range(1,7)),ALL,500); RE x=make(r,e,c,r.coin()); std::string is=e.str(); vf::distinct("s"+mpi::shape(e)); std::vector<std::vector<Q>> ps={in0,point(r,c)}; size_t k=r.below(c.n);
    total("substitute",[&]{ Q kv=point(r,c)[k]; RE s=substitute(x,c.v[k],Real(ref::rational(kv))); ok("substitute/arguments",nameset(arguments(s)).count(c.nm[k])==0,[&]{return cat(is," ",c.nm[k],"=",ref::str(kv)," gave ",s);}); for (auto& p:ps) { auto q=p; q[k]=kv; value("substitute-constant",s,c,p,mpi::eval(e,ivs(q)),cat(is," with ",c.nm[k],"=",ref::str(kv))); }
        Expr f=rexpr(r,c,int(r.range(1,4)),ALL,50); RE fx=make(r,f,c,true); RE sf=substitute(x,List<Assignment<RV,RE>>({Assignment<RV,RE>(c.v[k],fx)})); for (auto& p:ps) { auto q=ivs(p); I fv=mpi::eval(f,ivs(p)); if (fv.bad) continue; q[k]=fv; I v=mpi::eval(e,q); if (v.bad) continue; value("substitute-expression",sf,c,p,v,cat(is," with ",c.nm[k],"=",f.str())); value("substitute-expression/simplified",simplify(sf),c,p,v,cat(is," with ",c.nm[k],"=",f.str())); }
        // replacements in terms of new variables, all at once
        Cs d=c; for (size_t i=0;i<c.n;++i) { d.nm[i]="new_"+c.nm[i]; d.v[i]=RV(d.nm[i]); } List<Assignment<RV,RE>> as; std::vector<Expr> fs; std::vector<size_t> order; for (size_t i=0;i<c.n;++i) order.push_back(i); for (size_t i=c.n;i>1;--i) std::swap(order[i-1],order[r.below(i)]); fs.resize(c.n); std::string ls; for (size_t i:order) { fs[i]=rexpr(r,d,int(r.range(1,3)),ALL,50); as.append(Assignment<RV,RE>(c.v[i],make(r,fs[i],d,true))); ls+=cat(" ",c.nm[i],"=",fs[i].str()); }
        RE sl=substitute(x,as); Vector<RE> sv=substitute(Vector<RE>({x,x+x}),as); for (auto& p:ps) { std::vector<I> q; for (size_t i=0;i<c.n;++i) q.push_back(mpi::eval(fs[i],ivs(p))); bool bad=false; for (auto& y:q) bad=bad||y.bad; if (bad) continue; I v=mpi::eval(e,q); value("substitute-list",sl,d,p,v,is+ls); value("substitute-vector",sv[1],d,p,v+v,is+ls); Space<Real> spc(List<RV>(std::vector<RV>(d.v.begin(),d.v.end())));
            if (!v.bad) { auto fm=make_formula(x,as,spc); Vector<FloatDPBounds> b(c.n,FloatDPBounds(dp)); for (size_t i=0;i<c.n;++i) b[i]=FloatDPBounds(FloatDP(ExactDouble(p[i].get_d()),dp)); auto y=evaluate(fm,b); ok("make_formula-auxiliary",mpi::holds(fl::lo(y),fl::hi(y),v)||fl::lo(y).isnan(),[&]{return cat(is,ls," at ",pts(p)," gave ",y);}); } } },[&]{return is;}); }
VF_SCENARIO(to_functions,4) { Cs c=rcase(r,1+r.below(3)); Expr e=rexpr(r,c,int(r.range(1,8)),ALL),e2=rexpr(r,c,int(r.range(1,5)),ALL); RE x=make(r,e,c,r.coin()),y=make(r,e2,c,r.coin()); std::string is=e.str()+" and "+e2.str(); vf::distinct("f"+mpi::shape(e)); auto in=[&]{return is;}; std::vector<size_t> order; for (size_t i=0;i<c.n;++i) order.push_back(i); for (size_t i=c.n;i>1;--i) std::swap(order[i-1],order[r.below(i)]); List<RV> vl; for (size_t i:order) vl.append(c.v[i]); auto p=point(r,c); Vector<FloatDPBounds> b(c.n,FloatDPBounds(dp)); for (size_t i=0;i<c.n;++i) b[i]=FloatDPBounds(FloatDP(ExactDouble(p[order[i]].get_d()),dp)); I v=mpi::eval(e,ivs(p)),v2=mpi::eval(e2,ivs(p)); if (v.bad||v2.bad) return;
    auto enc=[&](char const* key,FloatDPBounds const& g,I const& w){ ok(key,mpi::holds(fl::lo(g),fl::hi(g),w),[&]{return cat(is," variables ",vl," at ",pts(p)," gave ",g," but is ",mpi::str(w));}); };
    total("to-function",[&]{ Space<Real> spc(vl); auto fm=make_formula(x,spc); enc("make_formula",evaluate(fm,b),v); enc("make_formula/list",evaluate(make_formula(x,vl),b),v); enc("make_formula/map",evaluate(make_formula(x,spc.indices_from_names()),b),v); auto f=make_function(spc,x); ok("make_function/argument_size",f.argument_size()==c.n,in); enc("make_function",f(b),v); auto fv=make_function(spc,Vector<RE>({x,y})); ok("make_function/sizes",fv.argument_size()==c.n&&fv.result_size()==2,in); auto fb=fv(b); enc("make_function/vector",fb[0],v); enc("make_function/vector",fb[1],v2);
        auto xe=make_expression(f,spc); value("make_expression",xe,c,p,v,is); if (c.n==1) { auto u=make_function(c.v[0],x); enc("make_function/univariate",u(b[0]),v); auto uv=make_function(c.v[0],Vector<RE>({x,y})); enc("make_function/univariate-vector",uv(b[0])[1],v2); }
},in); }
// claims about the form of expressions
VF_SCENARIO(forms,4) { Cs c=rcase(r,2+r.below(2)); bool poly=r.coin(2,3); Expr e=rexpr(r,c,int(r.range(1,6)),poly?POLY:SMTH,1e3),e2=rexpr(r,c,int(r.range(1,3)),POLY,1e3); RE x=make(r,e,c,r.coin()),y=make(r,e2,c,r.coin()); std::string is=e.str()+" and "+e2.str(); vf::distinct("c"+mpi::shape(e)+mpi::shape(e2)); auto in=[&]{return is;};
    total("forms",[&]{ Set<RV> vs; std::vector<bool> S(c.n,false); std::string vn; for (size_t i=0;i<c.n;++i) if (r.coin()) { vs.insert(c.v[i]); S[i]=true; vn+=c.nm[i]+" "; } auto p=point(r,c),q=point(r,c); for (size_t i=0;i<c.n;++i) if (!S[i]) q[i]=p[i]; auto at=[&](Expr const& f,Q const& t){ std::vector<Q> w; for (size_t i=0;i<c.n;++i) w.push_back(Q(p[i]+(q[i]-p[i])*t)); return mpi::eval(f,ivs(w)); }; auto meets=[](I const& a,I const& b){ return a.bad||b.bad||(a.lo()<=b.hi()&&b.lo()<=a.hi()); }; auto det=[&]{return cat(is," in ",vn," between ",pts(p)," and ",pts(q));};
        auto cst=[&](Expr const& f){ return meets(at(f,Q(0)),at(f,Q(1)))&&meets(at(f,Q(1,3)),at(f,Q(1))); }; auto aff=[&](Expr const& f){ return meets(at(f,Q(0))+at(f,Q(1)),at(f,Q(1,2))*I(2))&&meets(at(f,Q(0))*I(2)+at(f,Q(1)),at(f,Q(1,3))*I(3)); };
        if (is_constant_in(x,vs)) ok("is_constant_in",cst(e),det); if (is_affine_in(x,vs)) ok("is_affine_in",aff(e),det); Vector<RE> v({x,y}); if (is_constant_in(v,vs)) ok("is_constant_in/vector",cst(e)&&cst(e2),det); if (is_affine_in(v,vs)) ok("is_affine_in/vector",aff(e)&&aff(e2),det);
        // which variables occur: a variable that does not occur cannot make it non-constant
        bool occurs=false; for (size_t i=0;i<c.n;++i) if (S[i]&&uses(e,i)) occurs=true; if (!occurs) ok("is_constant_in/absent",is_constant_in(x,vs),det);
        std::function<bool(int)> con=[&](int i){ auto& n=e.v[size_t(i)]; if (n.op==mpi::POW&&n.n==0) return true; if (n.op==mpi::VAR) return !S[size_t(n.n)]; return (n.a<0||con(n.a))&&(n.b<0||con(n.b)); }; std::function<bool(int)> pol=[&](int i)->bool{ auto& n=e.v[size_t(i)]; if (con(i)||n.op==mpi::VAR) return true; switch (n.op) { case mpi::ADD: case mpi::SUB: case mpi::MUL: return pol(n.a)&&pol(n.b); case mpi::DIV: return pol(n.a)&&con(n.b); case mpi::NEG: case mpi::POS: case mpi::HLF: case mpi::SQR: return pol(n.a); case mpi::POW: return n.n==0||(n.n>0&&pol(n.a)); default: return false; } };
        if (is_polynomial_in(x,vs)) ok("is_polynomial_in",pol(int(e.v.size())-1),det); size_t k=r.below(c.n); if (is_additive_in(x,c.v[k])) { auto w=p; w[k]=w[k]+Q(3,8); I d=mpi::eval(e,ivs(w))-mpi::eval(e,ivs(p)); ok("is_additive_in",d.bad||meets(d,I(Q(3,8)))||meets(d,I(0)),[&]{return cat(is," in ",c.nm[k]);}); }
        if (is_additive_in(v,vs)) for (size_t i=0;i<c.n;++i) if (S[i]) { auto w=p; w[i]=w[i]+Q(3,8); I d=mpi::eval(e,ivs(w))-mpi::eval(e,ivs(p)),f=mpi::eval(e2,ivs(w))-mpi::eval(e2,ivs(p)); if (!d.bad&&!f.bad) ok("is_additive_in/vector",(meets(d,I(0))&&(meets(f,I(0))||meets(f,I(Q(3,8)))))||(meets(f,I(0))&&meets(d,I(Q(3,8)))),[&]{return cat(is," in ",c.nm[i]);}); }
        ok("is_variable",is_variable(RE(c.v[0]),c.v[0])&&!is_variable(RE(c.v[0]),c.v[1])&&!is_variable(RE(c.v[0])+RE(c.v[1]),c.v[0]),in); ok("is_constant",is_constant(RE(Real(3)),Real(3))&&!is_constant(RE(c.v[0]),Real(3)),in); },in); }
// identity and ordering
VF_SCENARIO(ordering,3) { Cs c=rcase(r,2); std::vector<Expr> es; std::vector<RE> xs; for (int i=0;i<5;++i) { if (i>1&&r.coin(1,3)) { es.push_back(es[r.below(es.size())]); } else es.push_back(rexpr(r,c,int(r.range(1,4)),ALL)); xs.push_back(make(r,es.back(),c,r.coin())); if (r.coin(1,4)) xs.back()=substitute(xs.back(),List<Assignment<RV,RE>>({Assignment<RV,RE>(c.v[0],RE(c.v[1]))})),es.back()=[&]{ Expr e=es.back(); for (auto& n:e.v) if (n.op==mpi::VAR&&n.n==0) n.n=1; return e; }(); } auto p=point(r,c); p[1]=p[0]; std::string is; for (auto& e:es) is+=e.str()+"; "; auto in=[&]{return is;}; vf::distinct("o"+is);
    total("ordering",[&]{ size_t n=xs.size(); std::vector<std::vector<bool>> B(n,std::vector<bool>(n)); for (size_t i=0;i<n;++i) for (size_t j=0;j<n;++j) B[i][j]=before(xs[i],xs[j]); for (size_t i=0;i<n;++i) { ok("before/irreflexive",!B[i][i],in); ok("identical/reflexive",identical(xs[i],xs[i])&&identical(xs[i],RE(xs[i])),in); for (size_t j=0;j<n;++j) { if (i!=j) ok("before/asymmetric",!(B[i][j]&&B[j][i]),in); bool id=identical(xs[i],xs[j]); ok("identical/symmetric",id==identical(xs[j],xs[i]),in); auto q=point(r,c); if (id) { I a=mpi::eval(es[i],ivs(q)),b=mpi::eval(es[j],ivs(q)); ok("identical/same-value",a.bad||b.bad||(a.lo()<=b.hi()&&b.lo()<=a.hi()),in); ok("identical/unordered",!B[i][j]&&!B[j][i],in); } for (size_t k=0;k<n;++k) ok("before/transitive",!(B[i][j]&&B[j][k])||B[i][k],in); } } },in); }
// predicates
struct Pr { int op; std::vector<Pr> a; Expr e,f; }; // 0 <= 1 < 2 >= 3 > 4 and 5 or 6 not
static Pr rpred(vf::Rng& r,Cs const& c,int depth) { Pr p; if (depth==0||r.coin(1,3)) { p.op=int(r.below(4)); p.e=rexpr(r,c,int(r.range(1,3)),ALL,100); p.f=rexpr(r,c,int(r.range(0,2)),ALL,100); } else { p.op=4+int(r.below(3)); p.a.push_back(rpred(r,c,depth-1)); if (p.op!=6) p.a.push_back(rpred(r,c,depth-1)); } return p; }
static std::string str(Pr const& p) { static char const* o[]={"<=","<",">=",">"," and "," or ","not "}; if (p.op<4) return "("+p.e.str()+o[p.op]+p.f.str()+")"; if (p.op==6) return "not "+str(p.a[0]); return "("+str(p.a[0])+o[p.op]+str(p.a[1])+")"; }
// margin of truth: positive if true, negative if false; an interval; bad if undefined
static I margin(Pr const& p,std::vector<I> const& x) { switch (p.op) { case 0: case 1: return mpi::eval(p.f,x)-mpi::eval(p.e,x); case 2: case 3: return mpi::eval(p.e,x)-mpi::eval(p.f,x); case 4: return mpi::min(margin(p.a[0],x),margin(p.a[1],x)); case 5: return mpi::max(margin(p.a[0],x),margin(p.a[1],x)); default: return -margin(p.a[0],x); } }
static KE kmake(vf::Rng& r,Pr const& p,Cs const& c) { if (p.op<4) { RE a=make(r,p.e,c,true),b=make(r,p.f,c,true); switch (p.op) { case 0: return a<=b; case 1: return a<b; case 2: return a>=b; default: return a>b; } } KE a=kmake(r,p.a[0],c); if (p.op==6) return !a; KE b=kmake(r,p.a[1],c); if (p.op==4) return a&&b; return a||b; }
static void truth(std::string const& key,Kleenean const& k,I const& m,std::string const& in) { if (m.bad||(m.lo()<=0&&m.hi()>=0)) return; bool t=m.lo()>0; auto v=k.check(Effort(8)); ok(key,t?possibly(v):!definitely(v),[&]{return cat(in," should be ",t," but is ",v);}); if (ref::abs(m.lo())>Q(1,1000)) ok(key+"/decided",definitely(v)||!possibly(v),[&]{return cat(in," undecided with margin ",mpi::str(m));}); }
VF_SCENARIO(predicates,4) { Cs c=rcase(r,1+r.below(2)); Pr q=rpred(r,c,2); std::string is=str(q); vf::distinct("p"+is); auto in=[&]{return is;}; auto p=point(r,c); I m=margin(q,ivs(p));
    total("predicate",[&]{ KE k=kmake(r,q,c); KE s=simplify(k); Valuation<Real> val(valuation(c,p)); truth("predicate/evaluate",evaluate(k,val),m,cat(is," at ",pts(p))); truth("predicate/simplify",evaluate(s,val),m,cat(is," at ",pts(p)," as ",s)); size_t i=r.below(c.n); Q kv=point(r,c)[i]; auto w=p; w[i]=kv; truth("predicate/substitute",evaluate(substitute(k,c.v[i],Real(ref::rational(kv))),val),margin(q,ivs(w)),cat(is," with ",c.nm[i],"=",ref::str(kv)," at ",pts(p)));
        RE g=indicator(k),gn=indicator(k,Sign::NEGATIVE); auto sg=[&](std::string const& key,RE const& f,I const& mm){ if (mm.bad) return; auto b=evaluate(f,val).get(dp); X l=fl::lo(b),u=fl::hi(b); ok(key,mpi::holds(l,u,mm),[&]{return cat(is," at ",pts(p)," gave ",b," margin ",mpi::str(mm));}); }; sg("indicator",g,m); sg("indicator/negative",gn,-m);
        std::set<std::string> want; std::function<void(Pr const&)> col=[&](Pr const& t){ for (auto& a:t.a) col(a); if (t.op<4) for (size_t j=0;j<c.n;++j) if (uses(t.e,j)||uses(t.f,j)) want.insert(c.nm[j]); }; col(q); ok("predicate/arguments",nameset(arguments(k))==want,in);
        Expr ea=rexpr(r,c,2,ALL,100),eb=rexpr(r,c,2,ALL,100); RE a=make(r,ea,c,true),b=make(r,eb,c,true); KE ks[4]={a<=b,a>=b,b<=a,b>=a}; for (int i1=0;i1<4;++i1) for (int j=0;j<4;++j) { bool o=opposite(ks[i1],ks[j]); bool neg=(i1==0||i1==3)!=(j==0||j==3); if (!neg) ok("opposite/false",!o||identical(a,b),[&]{return cat(ks[i1]," and ",ks[j]);}); else if (i1+j==1||(i1==0&&j==2)||(i1==2&&j==0)||(i1==1&&j==3)||(i1==3&&j==1)) ok("opposite/true",o,[&]{return cat(ks[i1]," and ",ks[j]);}); } },in); }
// vectors, integers and strings
VF_SCENARIO(vectors,2) { Cs c=rcase(r,2); Expr e=rexpr(r,c,int(r.range(1,4)),ALL,100),f=rexpr(r,c,int(r.range(1,4)),ALL,100),g=rexpr(r,c,int(r.range(1,3)),ALL,100); std::string is=cat(e.str(),", ",f.str()," scaled ",g.str()); vf::distinct("v"+is); auto p=point(r,c); I ve=mpi::eval(e,ivs(p)),vff=mpi::eval(f,ivs(p)),vg=mpi::eval(g,ivs(p)); if (ve.bad||vff.bad||vg.bad) return;
    total("vector-expression",[&]{ using VE=Expression<RealVector>; VE a(Vector<RE>({make(r,e,c,true),make(r,f,c,true)})),b(Vector<RE>({make(r,f,c,true),make(r,g,c,true)})); RE s=make(r,g,c,true); Valuation<Real> val(valuation(c,p)); auto ck=[&](char const* key,VE const& v,I const& x,I const& y){ auto w=evaluate(v,val); ok(std::string("vector/")+key+"/size",w.size()==2&&v.size()==2,[&]{return is;}); holds(std::string("vector/")+key,w[0],x,is); holds(std::string("vector/")+key,w[1],y,is); RE c0=v[0],c1=simplify(v[1]); holds(std::string("vector-get/")+key,evaluate(c0,val),x,is); holds(std::string("vector-get-simplified/")+key,evaluate(c1,val),y,is); };
        ck("make",a,ve,vff); ck("neg",neg(a),-ve,-vff); ck("pos",pos(a),ve,vff); ck("add",add(a,b),ve+vff,vff+vg); ck("sub",sub(a,b),ve-vff,vff-vg); ck("mul",mul(s,a),vg*ve,vg*vff); ck("mul-right",mul(a,s),vg*ve,vg*vff); if (!vg.zero()) ck("div",div(a,s),ve/vg,vff/vg);
        size_t k=r.below(2); Q kv=point(r,c)[k]; auto q=p; q[k]=kv; (void)q; Set<RV> vs; vs.insert(c.v[k]); auto q2=p; q2[k]=q2[k]+Q(1,3); if (is_constant_in(a,vs)) { I x=mpi::eval(e,ivs(q2)); ok("vector/is_constant_in",x.bad||(x.lo()<=ve.hi()&&ve.lo()<=x.hi()),[&]{return is;}); } },[&]{return is;}); }
VF_SCENARIO(discrete,2) { // integer expressions over integer variables, string equalities
    std::vector<Variable<Integer>> iv={Variable<Integer>("i"),Variable<Integer>("j")}; std::vector<long> x={r.range(-9,9),r.range(-9,9)}; Map<Identifier,Integer> m; m.insert("i",Integer(x[0])); m.insert("j",Integer(x[1])); std::string is; 
    total("integer",[&]{ struct T { Expression<Integer> e; ref::Z v; }; std::vector<T> ts={T{Expression<Integer>(iv[0]),ref::Z(x[0])},T{Expression<Integer>(iv[1]),ref::Z(x[1])},T{Expression<Integer>(Integer(3)),ref::Z(3)}}; for (int k=0;k<5;++k) { T a=ts[r.below(ts.size())],b=ts[r.below(ts.size())]; switch (r.below(6)) { case 0: ts.push_back(T{a.e+b.e,ref::Z(a.v+b.v)}); break; case 1: ts.push_back(T{a.e-b.e,ref::Z(a.v-b.v)}); break; case 2: ts.push_back(T{a.e*b.e,ref::Z(a.v*b.v)}); break; case 3: ts.push_back(T{-a.e,ref::Z(-a.v)}); break; case 4: ts.push_back(T{+a.e,a.v}); break; default: { T t=a; t.e+=b.e; t.v+=b.v; ts.push_back(t); } } } Valuation<Integer> val(m); for (auto& t:ts) { ok("integer/evaluate",evaluate(t.e,val)==Integer(t.v.get_si()),[&]{return cat(t.e," at ",x[0],",",x[1]," is ",t.v.get_str());}); } auto& a=ts[r.below(ts.size())]; auto& b=ts[r.below(ts.size())]; vf::distinct(cat(a.e,b.e,x[0],x[1]));
        auto B=[&](char const* k,Expression<Boolean> const& q,bool v){ ok(std::string("boolean/")+k,bool(evaluate(q,val))==v,[&]{return cat(q," at ",x[0],",",x[1]);}); }; B("eq",a.e==b.e,a.v==b.v); B("ne",a.e!=b.e,a.v!=b.v); B("le",a.e<=b.e,a.v<=b.v); B("lt",a.e<b.e,a.v<b.v); B("ge",a.e>=b.e,a.v>=b.v); B("gt",a.e>b.e,a.v>b.v); B("and",(a.e<b.e)&&(a.e!=ts[0].e),a.v<b.v&&a.v!=ts[0].v); B("or",(a.e<b.e)||(a.e==ts[0].e),a.v<b.v||a.v==ts[0].v); B("not",!(a.e<b.e),!(a.v<b.v)); });
    total("string",[&]{ Variable<String> s("s"),t("t"); String vals[]={"on","off","heating"}; String sv=vals[r.below(3)],tv=vals[r.below(3)],q=vals[r.below(3)]; Map<Identifier,String> sm; sm.insert("s",sv); sm.insert("t",tv); Valuation<String> val(sm); ok("string/eq",bool(evaluate(s==q,val))==(sv==q),[&]{return cat(sv,q);}); ok("string/ne",bool(evaluate(t!=q,val))==(tv!=q),[&]{return cat(tv,q);}); ok("string/and",bool(evaluate((s==q)&&(t==q),val))==((sv==q)&(tv==q)),[&]{return cat(sv,tv,q);}); }); }
