// Grid pavings (C19): a paving is the union of its cells, and every operation acts on that union.
#include "floats.hpp"
#include <set>
#include <map>


#include "geometry/grid_paving.hpp"
#include "geometry/binary_tree.hpp"

#include "geometry/set.hpp"
#include "geometry/function_set.hpp"
#include "geometry/list_set.hpp"
#include "function/function.hpp"
#include "function/projection.hpp"
#include "function/taylor_model.hpp"
#include "algebra/algebra.hpp"
using namespace Ariadne; using vf::ok; using vf::cat; using vf::total; using ref::Q; using ref::X;
// ---- the model: a set of microcells of side 2^-K in a window of lattice coordinates
static long const LO[]={0,-1,-1,-5,-5,-21,-21,-85,-85,-341,-341,-1365,-1365}, HI[]={1,1,3,3,11,11,43,43,171,171,683,683,2731};
struct W { int d,E,K; long n() const { return (HI[E]-LO[E])<<K; } size_t size() const { size_t s=1; for (int i=0;i<d;++i) s*=n(); return s; } int maxlen(int ext) const { return (ext+K)*d; } };
static W const WS[]={{1,5,4},{2,3,2},{3,2,1},{1,4,5},{2,4,1}};
static Q mk(long n,int k) { Q q(n,1l<<k); q.canonicalize(); return q; }
using MS=std::vector<char>; using V3=std::array<long,3>;
static MS none(W const& w) { return MS(w.size(),0); }
static size_t idx(W const& w,V3 const& p) { size_t k=0; for (int i=0;i<w.d;++i) k=k*w.n()+p[i]; return k; }
static V3 pos(W const& w,size_t k) { V3 p{0,0,0}; for (int i=w.d-1;i>=0;--i) { p[i]=k%w.n(); k/=w.n(); } return p; }
struct C { int e; std::vector<bool> w; bool operator<(C const& c) const { return e!=c.e?e<c.e:w<c.w; } bool operator==(C const& c) const { return e==c.e&&w==c.w; } };
static std::string str(C const& c) { std::string s=cat(c.e,":"); for (bool b : c.w) s+=b?'1':'0'; return s; }
// lattice box of a cell, as exact rationals
static void lat(int d,C const& c,Q* l,Q* u) { for (int i=0;i<d;++i) { l[i]=LO[c.e]; u[i]=HI[c.e]; } for (size_t k=0;k<c.w.size();++k) { int i=k%d; Q m=(l[i]+u[i])/2; (c.w[k]?l[i]:u[i])=m; } }
static C lower(int d,C c,int e) { while (c.e>e&&int(c.w.size())>=d) { for (int j=0;j<d;++j) if (c.w[j]!=(c.e%2)) return c; c.w.erase(c.w.begin(),c.w.begin()+d); --c.e; } return c; } // the same cell below a smaller primary cell
static bool micro(W const& w,C const& cc,V3& l,V3& u) { C c=lower(w.d,cc,w.E); if (c.e>w.E||int(c.w.size())>w.maxlen(c.e)) return false; Q a[6],b[6]; lat(w.d,c,a,b); for (int i=0;i<w.d;++i) { Q p=(a[i]-LO[w.E])*(1<<w.K),q=(b[i]-LO[w.E])*(1<<w.K); if (p.get_den()!=1||q.get_den()!=1) return false; l[i]=p.get_num().get_si(); u[i]=q.get_num().get_si(); } return true; }
template<class F> static void each(W const& w,V3 const& l,V3 const& u,F f) { V3 p=l; for (;;) { bool in=true; for (int i=0;i<w.d;++i) if (p[i]>=u[i]) in=false; if (!in) return; f(idx(w,p)); int i=w.d-1; while (i>=0&&++p[i]>=u[i]) { p[i]=l[i]; --i; } if (i<0) return; } }
static MS of(W const& w,C const& c) { MS s=none(w); V3 l,u; if (micro(w,c,l,u)) each(w,l,u,[&](size_t k){s[k]=1;}); return s; }
static MS uni(MS a,MS const& b) { for (size_t i=0;i<a.size();++i) a[i]|=b[i]; return a; } static MS cap(MS a,MS const& b) { for (size_t i=0;i<a.size();++i) a[i]&=b[i]; return a; } static MS dif(MS a,MS const& b) { for (size_t i=0;i<a.size();++i) a[i]&=!b[i]; return a; }
static bool sub(MS const& a,MS const& b) { for (size_t i=0;i<a.size();++i) if (a[i]&&!b[i]) return false; return true; } static bool meet(MS const& a,MS const& b) { for (size_t i=0;i<a.size();++i) if (a[i]&&b[i]) return true; return false; } static bool nil(MS const& a) { for (char c : a) if (c) return false; return true; }
static size_t count(MS const& a) { size_t n=0; for (char c : a) n+=c; return n; }
static C rcell(vf::Rng& r,W const& w) { C c; c.e=r.below(w.E+1); if (r.coin()) c.e=std::min(c.e,2); int m=w.maxlen(c.e); int n=r.coin(1,8)?r.below(m+1):r.coin()?m-r.below(std::min(m,2*w.d)+1):r.range(c.e*w.d,m); for (int i=0;i<n;++i) c.w.push_back(r.coin()); return c; }
static C raise(C const& c,int d,int e) { C q; q.e=e; for (int i=e;i>c.e;--i) for (int j=0;j<d;++j) q.w.push_back(i%2); q.w.insert(q.w.end(),c.w.begin(),c.w.end()); return q; }
// ---- the library side
struct Gr { std::vector<double> o,s; Grid g; };
static Gr rgrid(vf::Rng& r,int d) { Gr g; bool plain=r.coin(1,3); for (int i=0;i<d;++i) { g.o.push_back(plain?0:r.range(-6,6)/4.0); g.s.push_back(plain?1:r.pick(std::vector<double>{1,0.5,2,0.75,1.25,3,0.375})); } Vector<FloatDP> o(d,[&](SizeType i){return FloatDP(Dyadic(ref::dyadic(ref::q(g.o[i]))),dp);}),s(d,[&](SizeType i){return FloatDP(Dyadic(ref::dyadic(ref::q(g.s[i]))),dp);}); g.g=plain&&r.coin()?Grid(d):Grid(o,s); return g; }
static BinaryWord word(std::vector<bool> const& b) { BinaryWord w; for (bool x : b) w.push_back(x); return w; }
static C back(GridCell const& c) { C q; q.e=c.root_extent(); for (SizeType i=0;i<c.word().size();++i) q.w.push_back(c.word()[i]); return q; }
static GridCell cell(Gr const& g,C const& c) { return GridCell(g.g,c.e,word(c.w)); }
static Q bl(ExactIntervalType const& i) { return ref::x(i.lower_bound()).v; } static Q bu(ExactIntervalType const& i) { return ref::x(i.upper_bound()).v; }
static bool boxok(Gr const& g,int d,C const& c,ExactBoxType const& b) { Q l[6],u[6]; lat(d,c,l,u); if (int(b.dimension())!=d) return false; for (int i=0;i<d;++i) if (bl(b[i])!=ref::q(g.o[i])+ref::q(g.s[i])*l[i]||bu(b[i])!=ref::q(g.o[i])+ref::q(g.s[i])*u[i]) return false; return true; }
// the content of a paving, read off its cells; overlapping cells, wrong boxes and cells outside the window are violations
static bool content(std::string const& key,GridTreeSubpaving const& p,Gr const& g,W const& w,MS& s,std::vector<C>* cells=nullptr) {
    s=none(w); bool good=true; size_t n=0; for (auto it=p.begin();it!=p.end();++it) { GridCell const& gc=*it; C c=back(gc); ++n; V3 l,u; if (cells) cells->push_back(c); if (!boxok(g,w.d,c,gc.box())) good=ok(key+"/cell-box",false,[&]{return cat("cell ",str(c)," has box ",gc.box());}); if (!micro(w,c,l,u)) { good=ok(key+"/cell-in-range",false,[&]{return cat("cell ",str(c)," outside the window ",w.E," ",w.K);}); continue; } each(w,l,u,[&](size_t k){ if (s[k]) good=false; s[k]=1; }); }
    ok(key+"/cells-disjoint",good,[&]{return cat("overlapping cells in ",p);}); ok(key+"/size",p.size()==n&&p.is_empty()==(n==0),[&]{return cat("size ",p.size()," with ",n," cells, empty ",p.is_empty());}); return good; }
static bool same(std::string const& key,GridTreeSubpaving const& p,Gr const& g,W const& w,MS const& s,std::function<std::string()> in) { MS t; content(key,p,g,w,t); return ok(key,t==s,[&]{ std::string m=cat(in()," missing ",count(dif(s,t))," microcells, extra ",count(dif(t,s))," of ",count(s)); for (size_t k=0;k<s.size();++k) if (s[k]!=t[k]) { V3 q=pos(w,k); m+=cat(" first at"); for (int i=0;i<w.d;++i) m+=cat(" ",ref::str(Q(mk(q[i],w.K)+LO[w.E]))); break; } return m; }); }
static size_t minimal(W const& w,MS const& s,C const& c) { MS m=of(w,c); if (!meet(m,s)) return 0; if (sub(m,s)) return 1; C a=c,b=c; a.w.push_back(false); b.w.push_back(true); return minimal(w,s,a)+minimal(w,s,b); }
struct P { GridTreePaving p; MS s; };
static std::string hist; // what was done
static P rpav(vf::Rng& r,Gr const& g,W const& w) { P q{GridTreePaving(g.g),none(w)}; int n=r.below(7); for (int i=0;i<n;++i) { C c=rcell(r,w); q.p.adjoin(cell(g,c)); q.s=uni(q.s,of(w,c)); hist+=cat("+",str(c)," "); } if (r.coin(1,3)) q.p.recombine(); return q; }
static bool fitsE(W const& w,GridTreeSubpaving const& p) { return int(p.root_cell().root_extent())<=w.E; }

VF_SCENARIO(history,8) { W w=r.pick(std::vector<W>(WS,WS+5)); Gr g=rgrid(r,w.d); hist=cat("d=",w.d," "); std::vector<P> ps; for (int i=0;i<3;++i) { hist+=cat("P",i,"= "); ps.push_back(rpav(r,g,w)); }
    int steps=r.range(3,10); for (int st=0;st<steps;++st) { int i=r.below(3),j=r.below(3); P& a=ps[i]; P& b=ps[j]; int op=r.below(19); std::string key; auto in=[&]{return hist;}; vf::at("history");
        total(cat("history/op",op),[&]{ switch (op) {
            case 0: { C c=rcell(r,w); hist+=cat("; P",i,".adjoin ",str(c)); a.p.adjoin(cell(g,c)); a.s=uni(a.s,of(w,c)); key="adjoin-cell"; break; }
            case 1: { C c=rcell(r,w); hist+=cat("; P",i,".remove ",str(c)); a.p.remove(cell(g,c)); a.s=dif(a.s,of(w,c)); key="remove-cell"; break; }
            case 2: hist+=cat("; P",i,".adjoin P",j); if (r.coin()) a.p.adjoin(b.p); else a.p.adjoin(static_cast<SubPavingInterface const&>(b.p)); a.s=uni(a.s,b.s); key="adjoin"; break;
            case 3: hist+=cat("; P",i,".restrict P",j); if (r.coin()) a.p.restrict(b.p); else a.p.restrict(static_cast<SubPavingInterface const&>(b.p)); a.s=cap(a.s,b.s); key="restrict"; break;
            case 4: hist+=cat("; P",i,".remove P",j); { MS t=b.s; if (r.coin()) a.p.remove(b.p); else a.p.remove(static_cast<SubPavingInterface const&>(b.p)); a.s=dif(a.s,t); } key="remove"; break;
            case 5: { GridTreePaving q=join(a.p,b.p); MS t=uni(a.s,b.s); hist+=cat("; P",i,"=join(",i,",",j,")"); a.p=q; a.s=t; key="join"; break; }
            case 6: { GridTreePaving q=intersection(a.p,b.p); MS t=cap(a.s,b.s); hist+=cat("; P",i,"=intersection(",i,",",j,")"); a.p=q; a.s=t; key="intersection"; break; }
            case 7: { GridTreePaving q=difference(a.p,b.p); MS t=dif(a.s,b.s); hist+=cat("; P",i,"=difference(",i,",",j,")"); a.p=q; a.s=t; key="difference"; break; }
            case 8: { int k=r.below(w.K+1); hist+=cat("; P",i,".mince ",k); a.p.mince(k); for (GridCell const& c : a.p) ok("mince/depth",c.depth()>=k*w.d,[&]{return cat(in()," cell ",str(back(c)));}); key="mince"; break; }
            case 9: { int k=r.below(w.K*w.d+1); hist+=cat("; P",i,".mince_to_depth ",k); a.p.mince_to_depth(k); for (GridCell const& c : a.p) ok("mince_to_depth/depth",c.depth()>=k,[&]{return cat(in()," cell ",str(back(c)));}); key="mince_to_depth"; break; }
            case 10: { Nat t=a.p.tree_depth(); Nat k=r.below(w.maxlen(a.p.root_cell().root_extent())+1); hist+=cat("; P",i,".mince_to_tree_depth ",k); a.p.mince_to_tree_depth(k); for (GridCell const& c : a.p) ok("mince_to_tree_depth/depth",c.word().size()>=k,in); (void)t; key="mince_to_tree_depth"; break; }
            case 11: { double mn=1e9; for (double x : g.s) mn=std::min(mn,x); double width=mn/(1<<w.K)*r.pick(std::vector<double>{1,1.5,2,3,7,20}); bool okk=true; for (double x : g.s) if (x/(1<<w.K)>width) okk=false; if (!okk) break; hist+=cat("; P",i,".subdivide ",width); a.p.subdivide(ApproximateDouble(width)); for (GridCell const& c : a.p) for (int d=0;d<w.d;++d) ok("subdivide/width",bu(c.box()[d])-bl(c.box()[d])<=ref::q(width),[&]{return cat(in()," cell ",c.box());}); key=""; { MS t=none(w); for (GridCell const& c : a.p) { C cc=back(c); Q l[6],u[6]; lat(w.d,cc,l,u); bool o2=true; V3 p{0,0,0}; for (int d=0;d<w.d;++d) { Q z=(l[d]-LO[w.E])*(1<<w.K); mpz_class f; mpz_fdiv_q(f.get_mpz_t(),z.get_num_mpz_t(),z.get_den_mpz_t()); p[d]=f.get_si(); if (p[d]<0||p[d]>=w.n()) o2=false; } V3 L,U; if (micro(w,cc,L,U)) each(w,L,U,[&](size_t k){t[k]=1;}); else if (o2) t[idx(w,p)]=1; } ok("subdivide",t==a.s,in); } a.p.recombine(); key="subdivide/recombine"; break; }
            case 12: { hist+=cat("; P",i,".recombine"); a.p.recombine(); size_t m=minimal(w,a.s,back(a.p.root_cell())); ok("recombine/minimal",a.p.size()==m,[&]{return cat(in()," ",a.p.size()," cells instead of ",m);}); key="recombine"; break; }
            case 13: if (r.coin(1,3)) { hist+=cat("; P",i,".clear"); a.p.clear(); a.s=none(w); key="clear"; ok("clear/empty",a.p.is_empty()&&a.p.size()==0u,in); } else { hist+=cat("; P",i,"=P",j); a.p=b.p; MS t=b.s; a.s=t; key="assign"; } break;
            case 14: { int e=r.below(w.E+1); hist+=cat("; P",i,".restrict_to_extent ",e); a.p.restrict_to_extent(e); C c; c.e=e; a.s=cap(a.s,of(w,c)); key="restrict_to_extent"; break; }
            case 15: { GridTreePaving q(a.p); C c=rcell(r,w); q.adjoin(cell(g,c)); same("copy/independent",a.p,g,w,a.s,in); hist+=cat("; copy"); GridTreePaving* z=a.p.clone(); z->remove(cell(g,c)); same("clone/independent",a.p,g,w,a.s,in); same("clone",*z,g,w,dif(a.s,of(w,c)),in); delete z; key="copy"; break; }
            case 16: { Nat e=a.p.root_cell().root_extent(); bool on=r.coin(1,4); hist+=cat("; P",i,".set_root_cell ",on); a.p.set_root_cell(on); C c; c.e=e; a.s=on?of(w,c):none(w); key="set_root_cell"; break; }
            case 17: { // changing part of a paving through a branch of it
                if (a.p.binary_tree()->is_leaf()) break; bool s=r.coin(); GridTreeSubpaving q=a.p.branch(s); C rc=back(a.p.root_cell()); rc.w.push_back(s); ok("branch/root",back(q.root_cell())==rc,in); same("branch",q,g,w,cap(a.s,of(w,rc)),in); hist+=cat("; P",i,".branch",s); if (r.coin()) { std::unique_ptr<GridTreeSubpaving> z(q.clone()); same("branch/clone",*z,g,w,cap(a.s,of(w,rc)),in); }
                if (r.coin(1,3)) { bool on=r.coin(); q.set_root_cell(on); a.s=on?uni(a.s,of(w,rc)):dif(a.s,of(w,rc)); } else if (r.coin()) q.mince(r.below(w.K+1)); else q.recombine(); key="branch/shared"; break; }
            default: { C c=rcell(r,w); GridTreePaving q(cell(g,c)); hist+=cat("; P",i,"=cell ",str(c)); a.p=q; a.s=of(w,c); key="from-cell"; } }
        },in); if (!key.empty()) { vf::distinct(cat(key,w.d,count(a.s),"/",count(b.s),a.p.root_cell().root_extent())); if (fitsE(w,a.p)) { if (!same(key,a.p,g,w,a.s,in)) return; } } }
    // questions
    auto in=[&]{return hist;}; for (int t=0;t<6;++t) { int i=r.below(3),j=r.below(3); P& a=ps[i]; P& b=ps[j]; total("relations",[&]{ std::string q=cat(" P",i," P",j); auto i2=[&]{return hist+q;};
        ok("subset",subset(a.p,b.p)==sub(a.s,b.s)&&a.p.subset(static_cast<SubPavingInterface const&>(b.p))==sub(a.s,b.s),i2); ok("intersect",intersect(a.p,b.p)==meet(a.s,b.s)&&a.p.intersects(static_cast<SubPavingInterface const&>(b.p))==meet(a.s,b.s),i2);
        if (a.p==b.p) ok("equal/content",a.s==b.s,i2); if (i==j) ok("equal/self",a.p==b.p&&a.p.equals(b.p)&&a.p==GridTreePaving(b.p),i2);
        C c=r.coin()&&!nil(a.s)?back(*a.p.begin()):rcell(r,w); if (r.coin(1,3)&&!c.w.empty()) c.w.pop_back(); if (r.coin(1,3)) { C c2=raise(c,w.d,std::min(w.E,c.e+1)); c=c2; } q+=cat(" cell ",str(c)); MS m=of(w,c); ok("cell-subset",subset(cell(g,c),a.p)==sub(m,a.s)&&a.p.superset(cell(g,c))==sub(m,a.s),i2); ok("cell-intersect",intersect(cell(g,c),a.p)==meet(m,a.s),i2);
        // branches
        if (!a.p.binary_tree()->is_leaf()&&!b.p.binary_tree()->is_leaf()) { bool s=r.coin(),u=r.coin(); GridTreeSubpaving x=a.p.branch(s),y=b.p.branch(u); C cx=back(x.root_cell()),cy=back(y.root_cell()); MS sx=cap(a.s,of(w,cx)),sy=cap(b.s,of(w,cy)); q+=cat(" branches ",s,u);
            ok("branch/subset",subset(x,y)==sub(sx,sy),i2); ok("branch/intersect",intersect(x,y)==meet(sx,sy),i2); ok("branch/cell-subset",subset(cell(g,c),x)==sub(m,sx),i2); ok("branch/cell-intersect",intersect(cell(g,c),x)==meet(m,sx),i2); ok("branch/mixed-subset",subset(x,b.p)==sub(sx,b.s)&&subset(b.p,x)==sub(b.s,sx),i2);
            if (r.coin(1,2)) { same("branch/join",join(x,y),g,w,uni(sx,sy),i2); same("branch/intersection",intersection(x,y),g,w,cap(sx,sy),i2); same("branch/difference",difference(x,y),g,w,dif(sx,sy),i2); GridTreePaving z(a.p); z.adjoin(y); same("branch/adjoin",z,g,w,uni(a.s,sy),i2); GridTreePaving z2(a.p); z2.remove(y); same("branch/remove",z2,g,w,dif(a.s,sy),i2); GridTreePaving z3(a.p); z3.restrict(y); same("branch/restrict",z3,g,w,cap(a.s,sy),i2); } }
        },in); }
    P& a=ps[0]; total("measure",[&]{ Q v=count(a.s); for (int d=0;d<w.d;++d) v*=ref::q(g.s[d])/(1<<w.K); double mm=a.p.measure().raw().get_d(); ok("measure",ref::abs(Q(ref::q(mm)-v))<=v/(1<<30),[&]{return cat(in()," measure ",mm," instead of ",ref::str(v));});
        if (!nil(a.s)) { UpperBoxType bb=a.p.bounding_box(); for (int d=0;d<w.d;++d) { long mn=1<<20,mx=-1; for (size_t k=0;k<a.s.size();++k) if (a.s[k]) { long x=pos(w,k)[d]; mn=std::min(mn,x); mx=std::max(mx,x+1); } Q l=ref::q(g.o[d])+ref::q(g.s[d])*(mk(mn,w.K)+LO[w.E]),u=ref::q(g.o[d])+ref::q(g.s[d])*(mk(mx,w.K)+LO[w.E]); ok("bounding_box",ref::x(bb[d].lower_bound().raw()).v==l&&ref::x(bb[d].upper_bound().raw()).v==u,[&]{return cat(in()," gave ",bb);}); } }
        ListSet<ExactBoxType> ls=a.p; ok("box-list",ls.size()==a.p.size(),in); ok("dimension",int(a.p.dimension())==w.d&&a.p.grid()==g.g,in); C rc=back(a.p.root_cell()); ok("root-cell",sub(a.s,of(w,rc)),in); },in);
    vf::sample([&]{return hist;}); }

// ---- boxes
struct BX { std::vector<Q> l,u; }; static std::string str(BX const& b) { std::string s; for (size_t i=0;i<b.l.size();++i) s+=cat("[",ref::str(b.l[i]),",",ref::str(b.u[i]),"]"); return s; }
static BX rbox(vf::Rng& r,Gr const& g,W const& w,bool aligned) { BX b; for (int i=0;i<w.d;++i) { int f=aligned?1<<w.K:(16<<w.K); long n=(HI[w.E]-LO[w.E])*f; long span=r.coin()?n:n/4; long p=r.below(n),q=std::min(n,p+1+long(r.below(span))); if (r.coin(1,3)) { p-=p%16; q+=15-(q+15)%16; if (q>n) q=n; } Q l=Q(p,f)+LO[w.E],u=Q(q,f)+LO[w.E]; l.canonicalize(); u.canonicalize(); if (u<=l) u=l+Q(1,f); b.l.push_back(Q(ref::q(g.o[i])+ref::q(g.s[i])*l)); b.u.push_back(Q(ref::q(g.o[i])+ref::q(g.s[i])*u)); } return b; }
static ExactBoxType ebox(BX const& b) { ExactBoxType e(b.l.size()); for (size_t i=0;i<b.l.size();++i) e[i]=ExactIntervalType(FloatDP(ref::dyadic(b.l[i]),dp),FloatDP(ref::dyadic(b.u[i]),dp)); return e; }
static void mbox(Gr const& g,W const& w,size_t k,Q* l,Q* u) { V3 p=pos(w,k); for (int i=0;i<w.d;++i) { l[i]=ref::q(g.o[i])+ref::q(g.s[i])*(mk(p[i],w.K)+LO[w.E]); u[i]=l[i]+ref::q(g.s[i])/(1<<w.K); } }
// how one microcell lies to a box: overlap of interiors, inclusion, touching
static bool over(Q const* l,Q const* u,BX const& b) { for (size_t i=0;i<b.l.size();++i) if (u[i]<=b.l[i]||l[i]>=b.u[i]) return false; return true; }
static bool touch(Q const* l,Q const* u,BX const& b) { for (size_t i=0;i<b.l.size();++i) if (u[i]<b.l[i]||l[i]>b.u[i]) return false; return true; }
static bool within(Q const* l,Q const* u,BX const& b) { for (size_t i=0;i<b.l.size();++i) if (l[i]<b.l[i]||u[i]>b.u[i]) return false; return true; }
static bool strictly(Q const* l,Q const* u,BX const& b) { for (size_t i=0;i<b.l.size();++i) if (l[i]<=b.l[i]||u[i]>=b.u[i]) return false; return true; }
VF_SCENARIO(boxes,5) { W w=r.pick(std::vector<W>(WS,WS+5)); Gr g=rgrid(r,w.d); hist=cat("d=",w.d," grid ",g.g," "); P a=rpav(r,g,w); int n=r.range(4,10); for (int t=0;t<n;++t) { BX b=rbox(r,g,w,r.coin()); if (!nil(a.s)&&r.coin(1,3)) { ExactBoxType c=(*a.p.begin()).box(); for (int i=0;i<w.d;++i) { b.l[i]=bl(c[i]); b.u[i]=bu(c[i]); if (r.coin(1,4)) b.u[i]+=ref::q(g.s[i])/64; if (r.coin(1,4)) b.l[i]-=ref::q(g.s[i])/64; } }
        bool all_in=true,all_strict=true,any_over=false,any_touch=false,cover=true; for (size_t k=0;k<a.s.size();++k) { Q l[3],u[3]; mbox(g,w,k,l,u); bool o=over(l,u,b); if (a.s[k]) { if (!within(l,u,b)) all_in=false; if (!strictly(l,u,b)) all_strict=false; any_over|=o; any_touch|=touch(l,u,b); } else if (o) cover=false; }
        for (int i=0;i<w.d;++i) { Q lo=ref::q(g.o[i])+ref::q(g.s[i])*LO[w.E],hi=ref::q(g.o[i])+ref::q(g.s[i])*HI[w.E]; if (b.l[i]<lo||b.u[i]>hi) cover=false; }
        bool cover_strict=cover; if (cover) for (size_t k=0;k<a.s.size()&&cover_strict;++k) { Q l[3],u[3]; mbox(g,w,k,l,u); if (!a.s[k]&&touch(l,u,b)) cover_strict=false; } for (int i=0;i<w.d;++i) { Q lo=ref::q(g.o[i])+ref::q(g.s[i])*LO[w.E],hi=ref::q(g.o[i])+ref::q(g.s[i])*HI[w.E]; if (b.l[i]<=lo||b.u[i]>=hi) cover_strict=false; }
        auto in=[&]{return cat(hist," box ",str(b));}; ExactBoxType e=ebox(b); vf::distinct(cat(str(b),all_in,any_over,any_touch,cover)); total("box-queries",[&]{
        ok("subset-box",a.p.subset(e)==all_in,[&]{return cat(in()," gave ",a.p.subset(e));}); ok("superset-box",a.p.superset(e)==cover,[&]{return cat(in()," gave ",a.p.superset(e));});
        bool x=a.p.intersects(e); ok("intersects-box",(any_over?x:true)&&(x?any_touch:true),[&]{return cat(in()," gave ",x);}); bool dj=a.p.disjoint(e); ok("disjoint-box",(any_over?!dj:true)&&(any_touch?true:dj),[&]{return cat(in()," gave ",dj);});
        auto c=a.p.covers(e); ok("covers",definitely(c)?cover:!cover_strict,[&]{return cat(in()," gave ",c);}); auto ins=a.p.inside(e); ok("inside",definitely(ins)?all_in:!all_strict,[&]{return cat(in()," gave ",ins);});
        auto sp=a.p.separated(e); ok("separated",definitely(sp)?!any_over:any_touch,[&]{return cat(in()," gave ",sp);}); auto ov=a.p.overlaps(e); ok("overlaps",definitely(ov)?any_over:!any_over,[&]{return cat(in()," gave ",ov);}); },in); }
    // approximations of a box
    for (int t=0;t<3;++t) { BX b=rbox(r,g,w,r.coin(1,3)); { bool inside=true; for (int i=0;i<w.d;++i) { if (b.l[i]<ref::q(g.o[i])+ref::q(g.s[i])*(LO[w.E]+1)) b.l[i]=ref::q(g.o[i])+ref::q(g.s[i])*(LO[w.E]+1); if (b.u[i]>ref::q(g.o[i])+ref::q(g.s[i])*(HI[w.E]-1)) b.u[i]=ref::q(g.o[i])+ref::q(g.s[i])*(HI[w.E]-1); if (b.l[i]>=b.u[i]) inside=false; } if (!inside) continue; } int k=r.below(w.K+1); auto in=[&]{return cat(hist," box ",str(b)," fineness ",k);}; P z=a; if (r.coin()) z=P{GridTreePaving(g.g),none(w)};
        MS outer=none(w),must=none(w),may=none(w),inner=none(w); { // cells of depth k in each dimension
            long f=1l<<(w.K-k); std::map<V3,std::pair<bool,bool>> big; for (size_t i=0;i<outer.size();++i) { V3 p=pos(w,i); bool o=true,tt=true,c=true; for (int d=0;d<w.d;++d) { long s0=p[d]-p[d]%f; Q l=ref::q(g.o[d])+ref::q(g.s[d])*(mk(s0,w.K)+LO[w.E]),u=l+ref::q(g.s[d])/(1<<k); if (u<=b.l[d]||l>=b.u[d]) o=false; if (u<b.l[d]||l>b.u[d]) tt=false; if (l<b.l[d]||u>b.u[d]) c=false; } must[i]=o; may[i]=tt; inner[i]=c; } }
        ExactBoxType e=ebox(b); int how=r.below(5); total(cat("approx",how),[&]{ MS got; if (how==0) { z.p.adjoin_outer_approximation(UpperBoxType(e),k); content("adjoin_outer/box",z.p,g,w,got); ok("adjoin_outer/box",sub(uni(z.s,must),got),[&]{return cat(in()," misses ",count(dif(uni(z.s,must),got)));}); ok("adjoin_outer/tight",sub(got,uni(z.s,may)),[&]{return cat(in()," too much by ",count(dif(got,uni(z.s,may))));}); }
            else if (how==1) { z.p.adjoin_over_approximation(e,k); content("adjoin_over/box",z.p,g,w,got); ok("adjoin_over/box",sub(uni(z.s,must),got),[&]{return cat(in()," misses ",count(dif(uni(z.s,must),got)));}); ok("adjoin_over/tight",sub(got,uni(z.s,may)),[&]{return cat(in()," too much by ",count(dif(got,uni(z.s,may))));}); }
            else if (how==2) { z.p.adjoin_inner_approximation(LowerBoxType(e),k); content("adjoin_inner/box",z.p,g,w,got); MS want=uni(z.s,inner); ok("adjoin_inner/box",sub(got,want)&&sub(z.s,got),[&]{return cat(in()," too much by ",count(dif(got,want)));}); }
            else if (how==3) { GridTreePaving q=outer_approximation(e,g.g,k); content("outer/box",q,g,w,got); ok("outer/box",sub(must,got)&&sub(got,may),[&]{return cat(in()," misses ",count(dif(must,got))," extra ",count(dif(got,may)));}); }
            else { // set of boxes in the effective interface
                RealBox rb(w.d); for (int d=0;d<w.d;++d) rb[d]=RealInterval(Real(ref::dyadic(b.l[d])),Real(ref::dyadic(b.u[d]))); BoundedConstraintSet bs(rb); int h2=r.below(4); vf::at(cat("approx4/",h2));
                if (h2==0) { z.p.adjoin_outer_approximation(static_cast<EffectiveEuclideanCompactSetInterface const&>(bs),k); content("adjoin_outer/set",z.p,g,w,got); ok("adjoin_outer/set",sub(uni(z.s,must),got),[&]{return cat(in()," misses ",count(dif(uni(z.s,must),got)));}); ok("adjoin_outer/set-tight",sub(got,uni(z.s,may)),[&]{return cat(in()," too much by ",count(dif(got,uni(z.s,may))));}); }
                else if (h2==1) { z.p.adjoin_inner_approximation(static_cast<EffectiveEuclideanSetInterface const&>(bs),k); content("adjoin_inner/set",z.p,g,w,got); ok("adjoin_inner/set",sub(got,uni(z.s,inner))&&sub(z.s,got),[&]{return cat(in()," too much by ",count(dif(got,uni(z.s,inner))));}); vf::note(sub(inner,got)?"inner: attained":"inner: not attained"); }
                else if (h2==2) { z.p.adjoin_lower_approximation(static_cast<EffectiveEuclideanLocatedSetInterface const&>(bs),k); content("adjoin_lower/set",z.p,g,w,got); ok("adjoin_lower/set",sub(got,uni(z.s,may))&&sub(z.s,got),[&]{return cat(in()," too much by ",count(dif(got,uni(z.s,may))));}); vf::note(sub(must,got)?"lower: attained":"lower: not attained"); }
                else { GridTreePaving q=r.coin()?outer_approximation(static_cast<EffectiveEuclideanCompactSetInterface const&>(bs),g.g,k):inner_approximation(static_cast<EffectiveEuclideanSetInterface const&>(bs),g.g,k); content("approx/set",q,g,w,got); ok("approx/set",(sub(must,got)||sub(got,inner))&&sub(got,may),in); } } },in); } }

// ---- cells
VF_SCENARIO(cells,3) { W w=r.pick(std::vector<W>(WS,WS+5)); Gr g=rgrid(r,w.d); C a=rcell(r,w),b=r.coin()?a:rcell(r,w); if (r.coin(1,3)&&!b.w.empty()) b.w.pop_back(); if (r.coin(1,3)) b=raise(b,w.d,std::min(w.E,b.e+1)); auto in=[&]{return cat("d=",w.d," ",str(a)," ",str(b));}; vf::distinct(in()); total("cells",[&]{
    GridCell x=cell(g,a),y=cell(g,b); ok("box",boxok(g,w.d,a,x.box()),[&]{return cat(in()," box ",x.box());}); for (int i=0;i<w.d;++i) ok("operator[]",bl(x[i])==bl(x.box()[i])&&bu(x[i])==bu(x.box()[i]),in); ok("depth",x.depth()==int(a.w.size())-a.e*w.d&&int(x.dimension())==w.d,in);
    int e=std::max(a.e,b.e); C ra=raise(a,w.d,e),rb=raise(b,w.d,e); ok("equal",(x==y)==(ra.w==rb.w),in); ok("less",(x<y)==(ra.w<rb.w),in); GridCell z(y); z=x; ok("assign",z==x&&boxok(g,w.d,a,z.box()),in);
    for (int s=0;s<2;++s) { C c=a; c.w.push_back(s); ok("split",back(x.split(s))==c&&boxok(g,w.d,c,x.split(s).box()),in); auto pr=x.split(); ok("split-pair",back(s?pr.second:pr.first)==c,in); }
    ExactBoxType bx=y.box(); GridCell p=GridCell::smallest_enclosing_primary_cell(UpperBoxType(bx),g.g); Q l[3],u[3]; lat(w.d,b,l,u); auto holds=[&](int ext,bool strict){ for (int i=0;i<w.d;++i) if (strict?(l[i]<=LO[ext]||u[i]>=HI[ext]):(l[i]<LO[ext]||u[i]>HI[ext])) return false; return true; }; int pe=p.root_extent(); ok("smallest_enclosing_primary_cell",p.word().size()==0u&&pe<13&&holds(pe,false)&&(pe==0||!holds(pe-1,true)),[&]{return cat(in()," gave extent ",pe);}); ok("smallest-lattice",int(GridCell::smallest_enclosing_primary_cell_extent(LatticeBoxType(GridCell::compute_lattice_box(w.d,b.e,word(b.w)))))==pe,in);
    for (int t=0;t<6;++t) { LatticeBoxType lb=GridCell::primary_cell_lattice_box(t,w.d); for (int i=0;i<w.d;++i) ok("primary-box",bl(lb[i])==LO[t]&&bu(lb[i])==HI[t],[&]{return cat(t,": ",lb);}); }
    if (int(a.w.size())>=a.e*w.d+0&&!a.w.empty()) { int d=r.below(w.d); GridCell nb=GridCell::neighboringCell(g.g,a.e,word(a.w),d); C nc=back(nb); Q al[3],au[3],nl[3],nu[3]; lat(w.d,a,al,au); if (nc.e<12) { lat(w.d,nc,nl,nu); bool good=true; for (int i=0;i<w.d;++i) { Q sh=i==d?Q(au[i]-al[i]):Q(0); if (nl[i]!=al[i]+sh||nu[i]!=au[i]+sh) good=false; } ok("neighbour",good,[&]{return cat(in()," direction ",d," gave ",str(nc));}); } }
    // a cell and its neighbours, as an open cell
    if (int(a.w.size())>=w.d) { GridOpenCell oc(g.g,a.e,word(a.w)); Q al[3],au[3]; lat(w.d,a,al,au); bool good=true; for (int i=0;i<w.d;++i) { Q ll=ref::q(g.o[i])+ref::q(g.s[i])*al[i],uu=ref::q(g.o[i])+ref::q(g.s[i])*(au[i]*2-al[i]); if (bl(oc.box()[i])!=ll||bu(oc.box()[i])!=uu) good=false; } ok("open-cell",good,[&]{return cat(in()," gave ",oc.box());});
        GridTreePaving cl=oc.closure(); Q vol=1,mes=0; for (int i=0;i<w.d;++i) vol*=2*(au[i]-al[i]); bool inb=true; for (GridCell const& c : cl) { C cc=back(c); if (cc.e>12) { inb=false; break; } Q cl_[3],cu[3]; lat(w.d,cc,cl_,cu); Q v=1; for (int i=0;i<w.d;++i) { v*=cu[i]-cl_[i]; if (cl_[i]<al[i]||cu[i]>au[i]*2-al[i]) inb=false; } mes+=v; } ok("open-cell/closure",inb&&mes==vol,[&]{return cat(in()," gave ",cl);});
        GridOpenCell it=x.interior(); ok("interior",it.box()==x.box(),in); C oo=rcell(r,w); if (int(oo.w.size())>=w.d) { if (r.coin()) { oo=a; oo.w.back()=!oo.w.back(); } GridOpenCell o2(g.g,oo.e,word(oo.w)); bool inter=true,eq=true; for (int i=0;i<w.d;++i) { if (bl(oc.box()[i])>=bu(o2.box()[i])||bl(o2.box()[i])>=bu(oc.box()[i])) inter=false; } eq=bool(oc.box()==o2.box()); ok("open-cell/equal",(oc==o2)==eq,[&]{return cat(in()," and ",str(oo));}); ok("open-cell/intersect",GridOpenCell::intersect(oc,o2)==inter,[&]{return cat(in()," and ",str(oo));}); 
            List<GridOpenCell> is=GridOpenCell::intersection(oc,o2); ok("open-cell/intersection-empty",is.empty()==!inter,in); } 
        BX b2=rbox(r,g,w,r.coin()); GridOpenCell oa=GridOpenCell::outer_approximation(ebox(b2),g.g); bool cov=true; for (int i=0;i<w.d;++i) if (bl(oa.box()[i])>=b2.l[i]||bu(oa.box()[i])<=b2.u[i]) cov=false; ok("open-cell/outer",cov,[&]{return cat(in()," box ",str(b2)," gave ",oa.box());}); }
    },in); }

// ---- products and projections
VF_SCENARIO(products,2) { int d1=r.range(1,2),d2=1; W w1=d1==1?W{1,2,2}:W{2,2,1},w2{1,2,d1==1?2:1}; Gr g1=rgrid(r,d1),g2=rgrid(r,d2); hist=cat("d=",d1,"+",d2," "); P a=rpav(r,g1,w1); hist+="x "; P b=rpav(r,g2,w2); auto in=[&]{return hist;}; W w{d1+d2,2,w1.K}; Gr g; g.o=g1.o; g.s=g1.s; for (int i=0;i<d2;++i) { g.o.push_back(g2.o[i]); g.s.push_back(g2.s[i]); } total("product",[&]{ g.g=join(g1.g,g2.g); int k=w.K; a.p.mince(k); b.p.mince(k); MS s=none(w); for (size_t i=0;i<s.size();++i) { V3 p=pos(w,i); V3 p1{p[0],p[1],0},p2{p[d1],0,0}; s[i]=a.s[idx(w1,p1)]&&b.s[idx(w2,p2)]; }
        vf::distinct(hist); GridTreePaving q=product(a.p,b.p); if (fitsE(w,q)) same("product",q,g,w,s,in);
        int n=r.below(3); Array<SizeType> ind(n==0?d1:n==1?1:2); std::vector<int> pi; for (SizeType i=0;i<ind.size();++i) { ind[i]=n==0?i:r.below(w.d); pi.push_back(ind[i]); } std::string ps; for (int x : pi) ps+=cat(x," "); if (pi.size()==2&&pi[0]==pi[1]) return; q.mince(k); W wi{int(pi.size()),2,w.K}; Gr gi; for (int x : pi) { gi.o.push_back(g.o[x]); gi.s.push_back(g.s[x]); } MS t=none(wi); for (size_t i=0;i<s.size();++i) if (s[i]) { V3 p=pos(w,i),z{0,0,0}; for (size_t j=0;j<pi.size();++j) z[j]=p[pi[j]]; t[idx(wi,z)]=1; } GridTreePaving im=image(q,Projection(w.d,ind)); same("image",im,gi,wi,t,[&]{return cat(hist," onto ",ps);}); },in);
    // graph of a function over a paving
    if (d1==1&&r.coin(1,3)) total("outer_skew_product",[&]{ GridTreePaving q1(g1.g); MS s1=none(w1); for (int i=0;i<2;++i) { C c=rcell(r,W{1,1,2}); q1.adjoin(cell(g1,c)); s1=uni(s1,of(w1,c)); } q1.mince(2); double al=r.range(-4,4)/4.0,be=r.range(-4,4)/8.0; EffectiveScalarMultivariateFunction x0=EffectiveScalarMultivariateFunction::coordinate(1,0); Dyadic A=ref::dyadic(ref::q(al)),B=ref::dyadic(ref::q(be)); EffectiveVectorMultivariateFunction f(1,EuclideanDomain(1)); f[0]=x0*Real(A)+sqr(x0)*Real(B); GridTreePaving q=outer_skew_product(q1,g2.g,ValidatedVectorMultivariateFunction(f)); 
        for (size_t i=0;i<s1.size();++i) if (s1[i]) { Q l[3],u[3]; mbox(g1,w1,i,l,u); for (int k=0;k<=4;++k) { Q x=l[0]+(u[0]-l[0])*k/4,y=ref::q(al)*x+ref::q(be)*x*x; bool hit=false; for (GridCell const& c : q) { if (bl(c.box()[0])<=x&&x<=bu(c.box()[0])&&bl(c.box()[1])<=y&&y<=bu(c.box()[1])) hit=true; } ok("outer_skew_product",hit,[&]{return cat(hist," point ",ref::str(x)," ",ref::str(y));}); } } },in); }

// ---- curved sets: discs and half-spaces
VF_SCENARIO(sets,2) { W w{2,3,2}; Gr g=rgrid(r,2); g.s[0]=r.pick(std::vector<double>{0.5,1,0.75}); g.s[1]=r.pick(std::vector<double>{0.5,1}); Vector<FloatDP> o(2,[&](SizeType i){return FloatDP(ref::dyadic(ref::q(g.o[i])),dp);}),sc(2,[&](SizeType i){return FloatDP(ref::dyadic(ref::q(g.s[i])),dp);}); g.g=Grid(o,sc); Q cx=ref::q(r.range(-8,8)/8.0),cy=ref::q(r.range(-8,8)/8.0),R=ref::q(r.range(2,9)/8.0); int k=r.below(3); auto in=[&]{return cat("grid ",g.g," disc ",ref::str(cx)," ",ref::str(cy)," ",ref::str(R)," fineness ",k);}; vf::distinct(in()); total("discs",[&]{
    auto x=EffectiveScalarMultivariateFunction::coordinate(2,0),y=EffectiveScalarMultivariateFunction::coordinate(2,1); EffectiveScalarMultivariateFunction f=sqr(x-Real(ref::dyadic(cx)))+sqr(y-Real(ref::dyadic(cy))); List<EffectiveConstraint> cs; cs.append(f<=Real(ref::dyadic(Q(R*R)))); Q bb=R*2; RealBox dom({RealInterval(Real(ref::dyadic(Q(cx-bb))),Real(ref::dyadic(Q(cx+bb)))),RealInterval(Real(ref::dyadic(Q(cy-bb))),Real(ref::dyadic(Q(cy+bb))))}); BoundedConstraintSet s(dom,cs);
    auto near=[&](Q l,Q u,Q c){ return c<l?Q(l-c):c>u?Q(c-u):Q(0); }; auto far=[&](Q l,Q u,Q c){ return ref::qmax(Q(ref::abs(Q(c-l))),Q(ref::abs(Q(u-c)))); };
    for (int t=0;t<2;++t) { int how=r.below(3); vf::at(cat("disc",how)); GridTreePaving p(g.g); if (how==0) { p.adjoin_outer_approximation(static_cast<EffectiveEuclideanCompactSetInterface const&>(s),k); // every point of the disc is covered
            for (int i=0;i<24;++i) { Q px=cx+R*ref::q(r.range(-64,64)/64.0),py=cy+R*ref::q(r.range(-64,64)/64.0); Q dd=(px-cx)*(px-cx)+(py-cy)*(py-cy); if (dd>R*R) continue; bool hit=false; for (GridCell const& c : p) { ExactBoxType const& b=c.box(); if (bl(b[0])<=px&&px<=bu(b[0])&&bl(b[1])<=py&&py<=bu(b[1])) hit=true; } ok("disc/outer",hit,[&]{return cat(in()," misses ",ref::str(px)," ",ref::str(py));}); } }
        else if (how==1) { p.adjoin_inner_approximation(static_cast<EffectiveEuclideanSetInterface const&>(s),k); for (GridCell const& c : p) { ExactBoxType const& b=c.box(); Q fx=far(bl(b[0]),bu(b[0]),cx),fy=far(bl(b[1]),bu(b[1]),cy); ok("disc/inner",fx*fx+fy*fy<=R*R,[&]{return cat(in()," cell ",b);}); } vf::note("inner disc cells",p.size()); }
        else { if (!vf::partial("disc/lower",[&]{ p.adjoin_lower_approximation(static_cast<EffectiveEuclideanLocatedSetInterface const&>(s),k); })) continue; for (GridCell const& c : p) { ExactBoxType const& b=c.box(); Q fx=near(bl(b[0]),bu(b[0]),cx),fy=near(bl(b[1]),bu(b[1]),cy); ok("disc/lower",fx*fx+fy*fy<=R*R,[&]{return cat(in()," cell ",b);}); } vf::note("lower disc cells",p.size()); }
        for (GridCell const& c : p) ok("disc/fineness",c.depth()<=2*k,[&]{return cat(in()," cell of depth ",c.depth());}); } },in); }

// ---- binary words, trees and grids
VF_SCENARIO(words,2) { auto rw=[&]{ std::vector<bool> v; int n=r.below(12); for (int i=0;i<n;++i) v.push_back(r.coin()); return v; }; auto a=rw(),b=rw(); if (r.coin()) { b=a; if (r.coin()&&!b.empty()) b.resize(r.below(b.size())+1); else if (r.coin()) for (int i=r.below(3);i>0;--i) b.push_back(r.coin()); } auto s=[](std::vector<bool> const& v){ std::string z; for (bool x : v) z+=x?'1':'0'; return z; }; auto in=[&]{return cat(s(a)," ",s(b));}; vf::distinct(in()); BinaryWord x=word(a),y=word(b); total("words",[&]{
    ok("word/less",(x<y)==(a<b),in); ok("word/equal",(x==y)==(a==b),in); bool pre=a.size()<=b.size()&&std::equal(a.begin(),a.end(),b.begin()); ok("word/is_prefix",x.is_prefix(y)==pre,in); bool subw=std::search(b.begin(),b.end(),a.begin(),a.end())!=b.end()||a.empty(); ok("word/is_subword",x.is_subword(y)==subw,in); BinaryWord z=x; z.append(y); auto c=a; c.insert(c.end(),b.begin(),b.end()); ok("word/append",z==word(c),in); z.append(true); c.push_back(true); ok("word/append-bit",z==word(c),in); ok("word/bytes",z.bytes()==(c.size()+7)/8,in);
    int n=r.below(14); z.erase_prefix(n); c.erase(c.begin(),c.begin()+std::min<size_t>(n,c.size())); ok("word/erase_prefix",z==word(c),in); if (!c.empty()) { z.set_back(false); c.back()=false; ok("word/set_back",z==word(c),in); } ok("word/string",BinaryWord(a.empty()?std::string("e"):s(a))==x,in); },in);
    // trees of enabled leaves: content of depth-5 leaves
    int D=5; auto N=size_t(1)<<D; auto leafs=[&](BinaryTreeNode const* t){ std::vector<char> v(N,0); std::function<void(BinaryTreeNode const*,size_t,int)> f=[&](BinaryTreeNode const* n,size_t base,int d){ if (n->is_leaf()) { if (n->is_enabled()) for (size_t i=0;i<(N>>d);++i) v[base+i]=1; } else { f(n->left_node(),base,d+1); f(n->right_node(),base+(N>>(d+1)),d+1); } }; f(t,0,0); return v; };
    auto path=[&]{ std::vector<bool> v; int n=r.below(D+1); for (int i=0;i<n;++i) v.push_back(r.coin()); return v; }; auto pset=[&](std::vector<bool> const& p){ std::vector<char> v(N,0); size_t base=0; for (size_t i=0;i<p.size();++i) if (p[i]) base+=N>>(i+1); for (size_t i=0;i<(N>>p.size());++i) v[base+i]=1; return v; }; auto un=[&](std::vector<char> u,std::vector<char> const& v){ for (size_t i=0;i<N;++i) u[i]|=v[i]; return u; };
    total("trees",[&]{ struct T { BinaryTreeNode t; std::vector<char> v; }; std::string h; auto mk=[&](T& t){ t.v.assign(N,0); int n=r.below(5); for (int i=0;i<n;++i) { auto p=path(); t.t.add_enabled(word(p)); t.v=un(t.v,pset(p)); h+=s(p)+" "; } h+="/ "; }; T t{BinaryTreeNode(false),{}},u{BinaryTreeNode(false),{}}; mk(t); mk(u); auto in2=[&]{return h;};
        auto chk=[&](std::string const& key,T const& q){ auto got=leafs(&q.t); ok(key,got==q.v,[&]{ std::string m=h; for (char c : got) m+=c?"1":"0"; m+=" for "; for (char c : q.v) m+=c?"1":"0"; return m; }); }; chk("tree/add_enabled",t); chk("tree/add_enabled",u); bool any=false,all=true; for (char c : t.v) { any|=c; all&=c; } ok("tree/has_enabled",t.t.has_enabled()==any,in2); ok("tree/all_enabled",t.t.all_enabled()==all,in2); bool inter=false,subs=true; for (size_t i=0;i<N;++i) { inter|=t.v[i]&&u.v[i]; if (t.v[i]&&!u.v[i]) subs=false; } ok("tree/intersect",BinaryTreeNode::intersect(&t.t,&u.t)==inter,in2); ok("tree/subset",BinaryTreeNode::subset(&t.t,&u.t)==subs,in2); auto p=path(); auto ps=pset(p); bool pin=true; for (size_t i=0;i<N;++i) if (ps[i]&&!t.v[i]) pin=false; ok("tree/is_enabled-path",t.t.is_enabled(word(p))==pin||!t.t.is_enabled(word(p)),in2);
        T c{BinaryTreeNode(t.t),t.v}; ok("tree/copy-equal",c.t==t.t,in2); c.t.mince(r.below(D+1)); chk("tree/mince",c); c.t.recombine(); chk("tree/recombine",c); c.t.add_enabled(static_cast<BinaryTreeNode const*>(&u.t),BinaryWord()); c.v=un(c.v,u.v); chk("tree/add-tree",c); chk("tree/copy-independent",t); T e{BinaryTreeNode(t.t),t.v}; BinaryTreeNode::restrict(&e.t,&u.t); for (size_t i=0;i<N;++i) e.v[i]=e.v[i]&&u.v[i]; chk("tree/restrict",e); T f{BinaryTreeNode(t.t),t.v}; BinaryTreeNode::remove(&f.t,&u.t); for (size_t i=0;i<N;++i) f.v[i]=f.v[i]&&!u.v[i]; chk("tree/remove",f); f.t=u.t; f.v=u.v; chk("tree/assign",f); ok("tree/count",BinaryTreeNode::count_enabled_leaf_nodes(&u.t)>=(size_t)std::count(u.v.begin(),u.v.end(),1)/N,in2);
        BinaryWord tw,lw; t.t.tree_to_binary_words(tw,lw); BooleanArray ta(tw.size()),la(lw.size()); for (SizeType i=0;i<tw.size();++i) ta[i]=tw[i]; for (SizeType i=0;i<lw.size();++i) la[i]=lw[i]; BinaryTreeNode rebuilt(ta,la); ok("tree/words-round-trip",rebuilt==t.t,in2); f.t.set(true); f.v.assign(N,1); chk("tree/set",f); },in); }
VF_SCENARIO(grids,2) { int d=r.range(1,3); Gr g=rgrid(r,d); int i=r.below(d); int n=r.range(-9,9); auto in=[&]{return cat(g.g," ",i," ",n);}; vf::distinct(in()); Q c=ref::q(g.o[i])+ref::q(g.s[i])*n; total("grids",[&]{ ok("grid/coordinate",ref::x(g.g.coordinate(i,double(n))).v==c&&ref::x(g.g.coordinate(i,n+0.5)).v==c+ref::q(g.s[i])/2,in); ok("grid/subdivision_coordinate",ref::x(g.g.subdivision_coordinate(i,Int(n))).v==c,in); FloatDP x(ref::dyadic(c),dp); ok("grid/index",g.g.subdivision_index(i,x)==n,in); Q off=ref::q(g.s[i])*Q(r.range(1,15),16); FloatDP y(ref::dyadic(Q(c+off)),dp); 
    ok("grid/lower_index",g.g.subdivision_lower_index(i,LowerBound<FloatDP>(y))==n,[&]{return cat(in()," ",y," gave ",g.g.subdivision_lower_index(i,LowerBound<FloatDP>(y)));}); ok("grid/upper_index",g.g.subdivision_upper_index(i,UpperBound<FloatDP>(y))==n+1,[&]{return cat(in()," ",y," gave ",g.g.subdivision_upper_index(i,UpperBound<FloatDP>(y)));});
    Gr h=rgrid(r,r.range(1,2)); Grid j=join(g.g,h.g); bool good=int(j.dimension())==d+int(h.o.size()); for (size_t k=0;k<j.dimension()&&good;++k) { double oo=k<size_t(d)?g.o[k]:h.o[k-d],ss=k<size_t(d)?g.s[k]:h.s[k-d]; if (ref::x(j.origin()[k]).v!=ref::q(oo)||ref::x(j.lengths()[k]).v!=ref::q(ss)) good=false; } ok("grid/join",good,in); ok("grid/equal",g.g==Grid(g.g)&&!(g.g!=Grid(g.g))&&(g.g==h.g)==(g.o==h.o&&g.s==h.s),in); Point<FloatDP> pt(d,dp); for (int k=0;k<d;++k) pt[k]=FloatDP(ref::dyadic(Q(ref::q(g.o[k])+ref::q(g.s[k])*(n+k))),dp); auto ix=g.g.index(pt); for (int k=0;k<d;++k) ok("grid/point-index",ix[k]==double(n+k),in); },in); }
