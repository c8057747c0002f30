// A small independent interval arithmetic over MPFR (the oracle for composed real computations), and random
// expressions that can be evaluated both by it and by any of the library's types.
#ifndef VERIF_MPI_HPP
#define VERIF_MPI_HPP
#include "ref.hpp"
namespace mpi {
using ref::Q; using ref::Z; using ref::X; using ref::M;
inline constexpr long P = 320;
struct I { M l, u; bool bad=false;   // bad: undefined somewhere, or overflow
    I() : l(P), u(P) { }
    I(Q const& q) : I() { mpfr_set_q(l,q.get_mpq_t(),MPFR_RNDD); mpfr_set_q(u,q.get_mpq_t(),MPFR_RNDU); }
    I(long n) : I(Q(n)) { } I(int n) : I(Q(n)) { }
    I(Q const& a, Q const& b) : I() { mpfr_set_q(l,a.get_mpq_t(),MPFR_RNDD); mpfr_set_q(u,b.get_mpq_t(),MPFR_RNDU); }
    static I no() { I r; r.bad=true; return r; }
    Q lo() const { return ref::q((mpfr_srcptr)l.m); } Q hi() const { return ref::q((mpfr_srcptr)u.m); }
    bool zero() const { return mpfr_sgn(l.m)<=0&&mpfr_sgn(u.m)>=0; }
    double dl() const { return mpfr_get_d(l.m,MPFR_RNDD); } double du() const { return mpfr_get_d(u.m,MPFR_RNDU); } double mag() const { return std::max(std::fabs(dl()),std::fabs(du())); }
    I& chk() { if (!mpfr_number_p(l.m)||!mpfr_number_p(u.m)) bad=true; return *this; } };
inline std::string str(I const& a) { if (a.bad) return "undefined"; char b[200]; mpfr_snprintf(b,200,"[%.25Rg,%.25Rg]",a.l.m,a.u.m); return b; }
#define MPI_B(a,b) I r; if (a.bad||b.bad) return I::no();
#define MPI_U(a) I r; if (a.bad) return I::no();
inline I operator-(I const& a) { MPI_U(a) mpfr_neg(r.l,a.u,MPFR_RNDD); mpfr_neg(r.u,a.l,MPFR_RNDU); return r; }
inline I operator+(I const& a, I const& b) { MPI_B(a,b) mpfr_add(r.l,a.l,b.l,MPFR_RNDD); mpfr_add(r.u,a.u,b.u,MPFR_RNDU); return r.chk(); }
inline I operator-(I const& a, I const& b) { MPI_B(a,b) mpfr_sub(r.l,a.l,b.u,MPFR_RNDD); mpfr_sub(r.u,a.u,b.l,MPFR_RNDU); return r.chk(); }
inline I operator*(I const& a, I const& b) { MPI_B(a,b) M t(P); bool f=true; for (auto* x : {&a.l,&a.u}) for (auto* y : {&b.l,&b.u}) { mpfr_mul(t,*x,*y,MPFR_RNDD); if (f||mpfr_less_p(t.m,r.l.m)) mpfr_set(r.l,t,MPFR_RNDD); mpfr_mul(t,*x,*y,MPFR_RNDU); if (f||mpfr_greater_p(t.m,r.u.m)) mpfr_set(r.u,t,MPFR_RNDU); f=false; } return r.chk(); }
inline I rec(I const& a) { MPI_U(a) if (a.zero()) return I::no(); mpfr_ui_div(r.l,1,a.u,MPFR_RNDD); mpfr_ui_div(r.u,1,a.l,MPFR_RNDU); return r.chk(); }
inline I operator/(I const& a, I const& b) { return a*rec(b); }
inline I sqr(I const& a) { MPI_U(a) if (a.zero()) { M t(P); mpfr_sqr(r.u,a.l,MPFR_RNDU); mpfr_sqr(t,a.u,MPFR_RNDU); mpfr_max(r.u,r.u,t,MPFR_RNDU); mpfr_set_zero(r.l,1); } else { bool p=mpfr_sgn(a.l.m)>0; mpfr_sqr(r.l,p?a.l:a.u,MPFR_RNDD); mpfr_sqr(r.u,p?a.u:a.l,MPFR_RNDU); } return r.chk(); }
inline I pow(I const& a, long n) { MPI_U(a) if (n==0) return I(Q(1)); if (n<0) return rec(pow(a,-n)); if (n%2==0) return n==2?sqr(a):pow(sqr(a),n/2); mpfr_pow_si(r.l,a.l,n,MPFR_RNDD); mpfr_pow_si(r.u,a.u,n,MPFR_RNDU); return r.chk(); }
#define MPI_MONO(name,cond) inline I name(I const& a) { MPI_U(a) if (!(cond)) return I::no(); mpfr_##name(r.l,a.l,MPFR_RNDD); mpfr_##name(r.u,a.u,MPFR_RNDU); return r.chk(); }
MPI_MONO(sqrt,mpfr_sgn(a.l.m)>=0) MPI_MONO(exp,true) MPI_MONO(log,mpfr_sgn(a.l.m)>0) MPI_MONO(atan,true) MPI_MONO(asin,mpfr_cmp_si(a.l.m,-1)>=0&&mpfr_cmp_si(a.u.m,1)<=0)
inline I acos(I const& a) { MPI_U(a) if (mpfr_cmp_si(a.l.m,-1)<0||mpfr_cmp_si(a.u.m,1)>0) return I::no(); mpfr_acos(r.l,a.u,MPFR_RNDD); mpfr_acos(r.u,a.l,MPFR_RNDU); return r.chk(); }
template<class G> I circ(G const& g, I const& a) { MPI_U(a) M m(P+200), d(P), t(P); mpfr_add(m,a.l,a.u,MPFR_RNDN); mpfr_div_2ui(m,m,1,MPFR_RNDN); mpfr_sub(d,a.u,m,MPFR_RNDU); mpfr_sub(t,m,a.l,MPFR_RNDU); mpfr_max(d,d,t,MPFR_RNDU);
    g(r.l.m,m.m,MPFR_RNDD); g(r.u.m,m.m,MPFR_RNDU); mpfr_sub(r.l,r.l,d,MPFR_RNDD); mpfr_add(r.u,r.u,d,MPFR_RNDU); if (mpfr_cmp_si(r.l.m,-1)<0) mpfr_set_si(r.l,-1,MPFR_RNDD); if (mpfr_cmp_si(r.u.m,1)>0) mpfr_set_si(r.u,1,MPFR_RNDU); return r; }
inline I sin(I const& a) { return circ([](mpfr_ptr r_, mpfr_srcptr x_, mpfr_rnd_t d_){ return mpfr_sin(r_,x_,d_); },a); }
inline I cos(I const& a) { return circ([](mpfr_ptr r_, mpfr_srcptr x_, mpfr_rnd_t d_){ return mpfr_cos(r_,x_,d_); },a); }
inline I tan(I const& a) { return sin(a)/cos(a); }
inline I neg(I const& a) { return -a; } inline I pos(I const& a) { return a; } inline I hlf(I const& a) { return a*I(Q(1,2)); } inline I nul(I const&) { return I(Q(0)); }
inline I max(I const& a, I const& b) { MPI_B(a,b) mpfr_max(r.l,a.l,b.l,MPFR_RNDD); mpfr_max(r.u,a.u,b.u,MPFR_RNDU); return r; }
inline I min(I const& a, I const& b) { MPI_B(a,b) mpfr_min(r.l,a.l,b.l,MPFR_RNDD); mpfr_min(r.u,a.u,b.u,MPFR_RNDU); return r; }
inline I abs(I const& a) { return a.bad?a:a.zero()?max(I(Q(0)),max(a,-a)):max(a,-a); }
inline I hull(I const& a, I const& b) { MPI_B(a,b) mpfr_min(r.l,a.l,b.l,MPFR_RNDD); mpfr_max(r.u,a.u,b.u,MPFR_RNDU); return r; }
// may the extended interval [l,u] contain the value that lies in e?
inline bool holds(X const& l, X const& u, I const& e) { if (l.isnan()||u.isnan()) return false; return (l.kind==-1||(l.kind==0&&l.v<=e.hi()))&&(u.kind==1||(u.kind==0&&u.v>=e.lo())); }
inline bool inside(X const& l, X const& u, I const& e) { if (l.isnan()||u.isnan()) return false; return (l.kind==-1||(l.kind==0&&l.v<=e.lo()))&&(u.kind==1||(u.kind==0&&u.v>=e.hi())); }

// random expressions
enum Op { VAR, CNST, NEG, POS, HLF, SQR, REC, SQRT, EXP, LOG, SIN, COS, TAN, ATAN, ASIN, ACOS, ABS, ADD, SUB, MUL, DIV, MAX, MIN, POW, NOPS };
inline char const* opname(Op o) { static char const* n[]={"var","cnst","neg","pos","hlf","sqr","rec","sqrt","exp","log","sin","cos","tan","atan","asin","acos","abs","add","sub","mul","div","max","min","pow"}; return n[o]; }
struct Node { Op op; int a=-1, b=-1; Q c; long n=0; };
struct Expr { std::vector<Node> v; size_t nv=0;
    std::string str(int i=-1) const { if (i<0) i=int(v.size())-1; Node const& x=v[size_t(i)]; switch (x.op) { case VAR: return vf::cat("x",x.n); case CNST: return ref::str(x.c); case POW: return vf::cat("pow(",str(x.a),",",x.n,")"); default: return x.b<0?vf::cat(opname(x.op),"(",str(x.a),")"):vf::cat(opname(x.op),"(",str(x.a),",",str(x.b),")"); } } };
struct Allow { unsigned long mask=~0ul; bool ok(Op o) const { return (mask>>o)&1; } static Allow only(std::initializer_list<Op> l) { Allow a; a.mask=0; for (auto o : l) a.mask|=1ul<<o; return a; } static Allow but(std::initializer_list<Op> l) { Allow a; for (auto o : l) a.mask&=~(1ul<<o); return a; } };
// apply one operation in any algebra; k(Q) makes a constant
template<class T> T apply1(Op o, T const& x) { switch (o) { case NEG: return neg(x); case POS: return pos(x); case HLF: return hlf(x); case SQR: return sqr(x); case REC: return rec(x); case SQRT: return sqrt(x); case EXP: return exp(x); case LOG: return log(x); case SIN: return sin(x); case COS: return cos(x); case TAN: return tan(x); case ATAN: return atan(x); default: throw std::logic_error("apply1"); } }
inline I eval1(Op o, I const& x) { switch (o) { case ASIN: return asin(x); case ACOS: return acos(x); case ABS: return abs(x); default: return apply1(o,x); } }
inline I eval2(Op o, I const& x, I const& y) { switch (o) { case ADD: return x+y; case SUB: return x-y; case MUL: return x*y; case DIV: return x/y; case MAX: return max(x,y); case MIN: return min(x,y); default: throw std::logic_error("eval2"); } }
inline std::vector<I> evals(Expr const& e, std::vector<I> const& x) { std::vector<I> w; for (auto const& n : e.v) { switch (n.op) { case VAR: w.push_back(x[size_t(n.n)]); break; case CNST: w.push_back(I(n.c)); break; case POW: w.push_back(pow(w[size_t(n.a)],n.n)); break; default: w.push_back(n.b<0?eval1(n.op,w[size_t(n.a)]):eval2(n.op,w[size_t(n.a)],w[size_t(n.b)])); } } return w; }
inline I eval(Expr const& e, std::vector<I> const& x) { return evals(e,x).back(); }
// keep operations well inside their domains over the box dom (margin), and values moderate
inline bool safe(Op o, I const& x, double margin) { double l=x.dl(), u=x.du(); switch (o) { case SQRT: case LOG: return l>margin; case REC: case DIV: return l>margin||u<-margin; case EXP: return u<6&&l>-30; case TAN: return l>-1.4&&u<1.4; case ASIN: case ACOS: return l>-1+margin&&u<1-margin; default: return true; } }
inline Q rconst(vf::Rng& r) { Q c(Z(r.range(-24,24)),Z(r.pick({1l,2l,3l,4l,5l,7l,8l,10l,16l}))); c.canonicalize(); return c; }
inline Expr random(vf::Rng& r, std::vector<I> const& dom, int size, Allow al=Allow(), double margin=0.05, double cap=1e4, long maxpow=4) {
    Expr e; e.nv=dom.size(); std::vector<I> w; auto push=[&](Node n, I const& v){ e.v.push_back(n); w.push_back(v); };
    for (size_t i=0;i<dom.size();++i) push(Node{VAR,-1,-1,Q(0),long(i)},dom[i]);
    int nc=dom.empty()?2:1; for (int i=0;i<nc;++i) { Q c=rconst(r); push(Node{CNST,-1,-1,c,0},I(c)); }
    int tries=0; for (int k=0;k<size&&tries<40*size;++tries) { Op o=Op(r.below(NOPS)); if (o==VAR||!al.ok(o)) continue; if (o==CNST) { if (r.coin(1,3)) { Q c=rconst(r); push(Node{CNST,-1,-1,c,0},I(c)); } continue; }
        auto arg=[&]{ return int(r.coin(2,3)?w.size()-1-r.below(std::min<size_t>(w.size(),3)):r.below(w.size())); };
        Node n{o,arg(),-1,Q(0),0}; I v; if (o>=ADD&&o<=MIN) { n.b=arg(); if (o==DIV&&!safe(DIV,w[size_t(n.b)],margin)) continue; v=eval2(o,w[size_t(n.a)],w[size_t(n.b)]); }
        else if (o==POW) { n.n=r.range(0,maxpow); if (r.coin(1,4)&&safe(REC,w[size_t(n.a)],margin)) n.n=-n.n; v=pow(w[size_t(n.a)],n.n); }
        else { if (!safe(o,w[size_t(n.a)],margin)) continue; v=eval1(o,w[size_t(n.a)]); }
        if (v.bad||v.mag()>cap) continue; push(n,v); ++k; }
    // keep only what the last node uses, so that the expression printed is the expression evaluated
    std::vector<int> m(e.v.size(),-1); std::function<void(int)> mark=[&](int i){ if (m[size_t(i)]>=0) return; m[size_t(i)]=0; if (e.v[size_t(i)].a>=0) mark(e.v[size_t(i)].a); if (e.v[size_t(i)].b>=0) mark(e.v[size_t(i)].b); }; mark(int(e.v.size())-1);
    Expr f; f.nv=e.nv; for (size_t i=0;i<e.v.size();++i) if (m[i]>=0) { Node n=e.v[i]; if (n.a>=0) n.a=m[size_t(n.a)]; if (n.b>=0) n.b=m[size_t(n.b)]; m[i]=int(f.v.size()); f.v.push_back(n); } return f; }
inline std::string shape(Expr const& e) { std::string s; for (auto const& n : e.v) s+=vf::cat(int(n.op),n.a,n.b,","); return s; }
}
#endif
