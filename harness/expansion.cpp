// Multi-indices and expansions (C10): operation histories compared step by step with a plain list of (powers, coefficient) terms.
#include "floats.hpp"
#include <map>
#include "algebra/multi_index.hpp"
#include "algebra/expansion.hpp"
#include "algebra/expansion.tpl.hpp"
using namespace Ariadne; using vf::ok; using vf::cat; using vf::total; using ref::Q;
using PV=std::vector<int>; using Term=std::pair<PV,Q>; using TL=std::vector<Term>;
static MultiIndex mi(PV const& p) { MultiIndex a(p.size()); for (size_t i=0;i<p.size();++i) a[i]=DegreeType(p[i]); return a; }
template<class A> static PV pv(A const& a) { PV p; for (size_t i=0;i<a.size();++i) p.push_back(int(a[i])); return p; }
static int deg(PV const& p) { int d=0; for (int x:p) d+=x; return d; }
static bool gl(PV const& a,PV const& b) { if (deg(a)!=deg(b)) return deg(a)<deg(b); for (size_t i=0;i<a.size();++i) if (a[i]!=b[i]) return a[i]>b[i]; return false; }
static bool rl(PV const& a,PV const& b) { for (size_t i=a.size();i-->0;) if (a[i]!=b[i]) return a[i]>b[i]; return false; }
static std::string str(PV const& p) { std::string s="("; for (int x:p) s+=std::to_string(x)+","; return s+")"; }
static std::string str(TL const& t) { std::string s; for (auto const& e:t) s+=str(e.first)+":"+ref::str(e.second)+" "; return s; }
template<class X> static Q val(X const& x) { return ref::q(x); }
static PV rp(vf::Rng& r,size_t n,int m=3) { PV p(n); for (auto& x:p) x=int(r.below(uint64_t(m))); return p; }

VF_SCENARIO(index,2) { size_t n=1+r.below(5); PV a=rp(r,n,6),b=rp(r,n,6); if (r.coin(1,4)) { b=a; if (r.coin()) std::swap(b[0],b[n-1]); } MultiIndex A=mi(a),B=mi(b); auto in=[&]{return str(a)+" , "+str(b);}; vf::distinct(in());
    ok("MultiIndex/==",(A==B)==(a==b),in); ok("MultiIndex/!=",(A!=B)==(a!=b),in); ok("MultiIndex/degree",int(A.degree())==deg(a),in); ok("MultiIndex/size",A.size()==n,in);
    ok("MultiIndex/graded_less",graded_less(A,B)==gl(a,b),in); ok("MultiIndex/reverse_lexicographic_less",reverse_lexicographic_less(A,B)==rl(a,b),in); ok("MultiIndex/lexicographic_less",lexicographic_less(A,B)==(a<b),in); ok("MultiIndex/GradedLess",GradedLess()(A,B)==gl(a,b),in); ok("MultiIndex/ReverseLexicographicLess",ReverseLexicographicLess()(A,B)==rl(a,b),in); ok("MultiIndex/LexicographicLess",LexicographicLess()(A,B)==(a<b),in);
    PV s(n),d(n),k(n); for (size_t i=0;i<n;++i) { s[i]=a[i]+b[i]; d[i]=s[i]-a[i]; k[i]=3*a[i]; } ok("MultiIndex/+",pv(A+B)==s,in); ok("MultiIndex/-",pv((A+B)-A)==d,in); ok("MultiIndex/*",pv(A*DegreeType(3))==k&&pv(DegreeType(3)*A)==k,in); MultiIndex C=A; C+=B; ok("MultiIndex/+=",pv(C)==s,in); C-=A; ok("MultiIndex/-=",pv(C)==b,in); C=A; C*=DegreeType(3); ok("MultiIndex/*=",pv(C)==k,in); C=A; C+=C; ok("MultiIndex/+=self",pv(C)==pv(A*DegreeType(2)),in); ok("MultiIndex/operands",pv(A)==a&&pv(B)==b,in);
    swap(A,B); ok("MultiIndex/swap",pv(A)==b&&pv(B)==a,in); MultiIndex D(7); D=A; ok("MultiIndex/assign-resize",pv(D)==b,in); D=D; ok("MultiIndex/self-assign",pv(D)==b,in); D.set(n-1,9); ok("MultiIndex/set",D.get(n-1)==9&&pv(A)==b,in); D.clear(); ok("MultiIndex/clear",pv(D)==PV(n,0),in); PV u(n,0); u[r.below(n)]=1; size_t j=0; while (!u[j]) ++j; ok("MultiIndex/unit",pv(MultiIndex::unit(n,j))==u,in); ok("MultiIndex/zero",pv(MultiIndex::zero(n))==PV(n,0),in); }
VF_SCENARIO(enumerate,1) { // counting through the indices visits every one exactly once, in graded order
    size_t n=1+r.below(5); int D=int(r.range(1,n<3?9:4)); MultiIndex a(n); PV prev=pv(a); std::map<PV,int> seen; seen[prev]=1; size_t cnt=1; bool ordered=true; std::vector<uint8_t> pad; for (;;) { ++a; PV p=pv(a); if (deg(p)>D) break; ordered=ordered&&gl(prev,p); ++seen[p]; ++cnt; prev=p; if (cnt>100000) break; } size_t want=1; for (size_t i=1;i<=n;++i) want=want*(size_t(D)+i)/i; ok("MultiIndex/++/ordered",ordered,[&]{return cat(n," ",D);}); ok("MultiIndex/++/all",cnt==want&&seen.size()==want,[&]{return cat(n," variables degree ",D," visited ",cnt," of ",want);}); ok("MultiIndex/++/next-degree",deg(pv(a))==D+1,[&]{return str(pv(a));}); vf::distinct(cat(n,D)); }
VF_SCENARIO(indexlist,2) { size_t n=r.coin(1,12)?0:1+r.below(4); MultiIndexList L(0u,MultiIndex(n)); std::vector<PV> M; std::string h; int steps=int(r.range(5,40)); for (int k=0;k<steps;++k) { PV p=rp(r,n); switch (r.below(9)) { case 0: case 1: case 2: L.append(mi(p)); M.push_back(p); h+="a"; break; case 3: { PV q=rp(r,n); L.append_sum(mi(p),mi(q)); PV s(n); for (size_t i=0;i<n;++i) s[i]=p[i]+q[i]; M.push_back(s); h+="s"; break; } case 4: if (!M.empty()) { size_t i=r.below(M.size()); L.erase(L.begin()+long(i)); M.erase(M.begin()+long(i)); h+="e"; } break; case 5: { size_t z=r.below(M.size()+3); L.resize(z); M.resize(z,PV(n,0)); h+="r"; break; } case 6: L.reserve(r.below(2*M.size()+4)); h+="v"; break; case 7: { MultiIndexList C(L); MultiIndexList E(2u,MultiIndex(n+1)); E=L; ok("MultiIndexList/copy==",C==L&&E==L); C.append(mi(p)); ok("MultiIndexList/copy!=",!(C==L)); L=std::move(E); h+="c"; break; } case 8: if (!M.empty()) { size_t i=r.below(M.size()); L[i]=mi(p); M[i]=p; h+="w"; } break; }
        bool g=L.size()==M.size()&&L.argument_size()==n&&L.capacity()>=L.size(); if (g) for (size_t i=0;i<M.size();++i) g=g&&pv(L[i])==M[i]; size_t c=0; if (n) for (auto it=L.begin();it!=L.end();++it) { g=g&&c<M.size()&&pv(*it)==M[c]; ++c; } if (n) g=g&&c==M.size(); if (!ok("MultiIndexList/contents",g,[&]{return h;})) return; } vf::distinct(h); }

template<class E> static TL terms(E const& e) { TL t; for (auto it=e.begin();it!=e.end();++it) t.push_back({pv(MultiIndex(it->index())),val(it->coefficient())}); return t; }
template<class X> static X mk(Q const& q) { if constexpr (std::is_same_v<X,Rational>) return ref::rational(q); else if constexpr (std::is_same_v<X,FloatDP>) return FloatDP(ExactDouble(q.get_d()),dp); else { return fl::TMP::of(q,MultiplePrecision(64)); } }
static Q rc(vf::Rng& r) { return r.coin(1,6)?Q(0):ref::q(double(r.range(-40,40))/double(1<<r.below(4))); }
template<class X> void history(vf::Rng& r,std::string const& N) { size_t n=r.coin(1,15)?0:1+r.below(3); using E=Expansion<MultiIndex,X>; X z=mk<X>(Q(0)); E e(n,z,r.below(6)); TL M; std::string h; int steps=int(r.range(5,40)); auto idx=[&](PV const& p){ for (size_t i=0;i<M.size();++i) if (M[i].first==p) return long(i); return -1l; };
    auto same=[&](char const* op){ TL t=terms(e); return ok(N+op,t==M&&e.size()==M.size()&&e.number_of_terms()==M.size()&&e.empty()==M.empty()&&e.argument_size()==n&&val(e.zero_coefficient())==0,[&]{return cat(h," has ",str(t)," expected ",str(M));}); };
    total(N+"history",[&]{ for (int k=0;k<steps;++k) { PV p=rp(r,n); Q c=rc(r); bool good=true; switch (r.below(20)) {
        case 0: case 1: case 2: case 3: e.append(mi(p),mk<X>(c)); M.push_back({p,c}); h+="a"; good=same("append"); break;
        case 4: e.prepend(mi(p),mk<X>(c)); M.insert(M.begin(),{p,c}); h+="p"; good=same("prepend"); break;
        case 5: { size_t i=r.below(M.size()+1); auto it=e.insert(e.begin()+long(i),mi(p),mk<X>(c)); M.insert(M.begin()+long(i),{p,c}); h+="i"; good=same("insert"); if (good) ok(N+"insert/iterator",pv(MultiIndex(it->index()))==p&&val(it->coefficient())==c,[&]{return h;}); break; }
        case 6: if (!M.empty()) { size_t i=r.below(M.size()); e.erase(e.begin()+long(i)); M.erase(M.begin()+long(i)); h+="e"; good=same("erase"); } break;
        case 7: e.set(mi(p),mk<X>(c)); { long i=idx(p); if (i<0) M.push_back({p,c}); else M[size_t(i)].second=c; } h+="s"; good=same("set"); break;
        case 8: e.at(mi(p))=mk<X>(c); { long i=idx(p); if (i<0) M.push_back({p,c}); else M[size_t(i)].second=c; } h+="t"; good=same("at"); break;
        case 9: { E const& ce=e; long i=idx(p); Q w=i<0?Q(0):M[size_t(i)].second; ok(N+"get",val(ce.get(mi(p)))==w&&val(ce[mi(p)])==w,[&]{return h+str(p);}); auto it=ce.find(mi(p)); ok(N+"find",(it==ce.end())==(i<0)&&(i<0||it-ce.begin()==i),[&]{return h+str(p);}); good=same("get"); break; }
        case 10: e.graded_sort(); std::stable_sort(M.begin(),M.end(),[](Term const& a,Term const& b){return gl(a.first,b.first);}); h+="G"; goto sorted;
        case 11: if (r.coin()) e.reverse_lexicographic_sort(); else e.sort(ReverseLexicographicIndexLess()); std::stable_sort(M.begin(),M.end(),[](Term const& a,Term const& b){return rl(a.first,b.first);}); h+="R"; goto sorted;
        sorted: { TL t=terms(e); bool g=t.size()==M.size(); if (g) for (size_t i=0;i<t.size();++i) g=g&&t[i].first==M[i].first; TL a=t,b=M; std::sort(a.begin(),a.end()); std::sort(b.begin(),b.end()); good=ok(N+"sort",g&&a==b,[&]{return cat(h," has ",str(t)," expected ",str(M));}); M=t; if (std::is_same_v<X,Rational> && r.coin()) { // equal powers may now be combined
                e.combine_terms(); TL c2; for (auto const& x:M) if (!c2.empty()&&c2.back().first==x.first) c2.back().second+=x.second; else c2.push_back(x); M=c2; h+="C"; good=good&&same("combine_terms"); } break; }
        case 12: e.remove_zeros(); M.erase(std::remove_if(M.begin(),M.end(),[](Term const& t){return t.second==0;}),M.end()); h+="z"; good=same("remove_zeros"); break;
        case 13: { E f(e); ok(N+"same",f.same_as(e),[&]{return h;}); f.append(mi(p),mk<X>(c)); if (!M.empty()) f.begin()->coefficient()=mk<X>(Q(1000)); good=same("copy-independent"); ok(N+"not-same",!f.same_as(e),[&]{return h;}); if (r.coin()) { e=f; M=terms(f); h+="="; good=good&&same("assign"); } break; }
        case 14: { E f(std::move(e)); e=E(n,z); e.append(mi(p),mk<X>(c)); TL m1{{p,c}}; TL was=M; M=m1; good=same("moved-reassigned"); M=was; ok(N+"move",terms(f)==M,[&]{return h;}); e=std::move(f); h+="m"; good=good&&same("move-assign"); break; }
        case 15: { E f(n,z); f.append(mi(p),mk<X>(c)); e.swap(f); ok(N+"swap-other",terms(f)==M,[&]{return h;}); e.swap(f); good=same("swap"); h+="w"; break; }
        case 16: e.reserve(r.below(40)); h+="v"; good=same("reserve"); break;
        case 17: { size_t z2=r.below(M.size()+3); e.resize(z2); M.resize(z2,{PV(n,0),Q(0)}); h+="r"; good=same("resize"); break; }
        case 18: { size_t b=r.below(3),a=r.below(3); auto f=embed(b,e,a); TL m1; for (auto const& t:M) { PV q(b,0); q.insert(q.end(),t.first.begin(),t.first.end()); q.insert(q.end(),a,0); m1.push_back({q,t.second}); } ok(N+"embed",terms(f)==m1&&f.argument_size()==n+a+b,[&]{return h;}); good=same("embed-arg"); break; }
        case 19: if (r.coin(1,3)) { e.clear(); M.clear(); h+="0"; } e[mi(p)]=mk<X>(c); { long i=idx(p); if (i<0) M.push_back({p,c}); else M[size_t(i)].second=c; } h+="["; good=same("index-assign"); break; }
        if (!good) return; } },[&]{return h;}); vf::distinct(cat(N,h)); }
VF_SCENARIO(expansion_q,3) { history<Rational>(r,"Expansion<Rational>/"); }
VF_SCENARIO(expansion_dp,3) { history<FloatDP>(r,"Expansion<FloatDP>/"); }
VF_SCENARIO(expansion_mp,1) { history<FloatMP>(r,"Expansion<FloatMP>/"); }
template<class X,class CMP> void ordered(vf::Rng& r,std::string const& N,bool(*less)(PV const&,PV const&)) { size_t n=1+r.below(3); using E=SortedExpansion<MultiIndex,X,CMP>; X z=mk<X>(Q(0)); E e(n,z); auto cmp=[&](PV const& a,PV const& b){return less(a,b);}; std::map<PV,Q,decltype(cmp)> M(cmp); std::string h; auto same=[&](char const* op){ TL t=terms(e), m; for (auto const& kv:M) m.push_back({kv.first,kv.second}); return ok(N+op,t==m,[&]{return cat(h," has ",str(t)," expected ",str(m));}); };
    total(N+"history",[&]{ for (int k=0;k<25;++k) { PV p=rp(r,n,4); Q c=rc(r); bool good=true; switch (r.below(6)) { case 0: case 1: e.set(mi(p),mk<X>(c)); M[p]=c; h+="s"+str(p); good=same("set"); break; case 2: e.at(mi(p))=mk<X>(c); M[p]=c; h+="t"; good=same("at"); break; case 3: { bool have=M.count(p)!=0, threw=false; try { e.insert(mi(p),mk<X>(c)); } catch (std::runtime_error const&) { threw=true; } if (!have) M[p]=c; ok(N+"insert-existing",threw==have,[&]{return h;}); h+="i"; good=same("insert"); break; } case 4: { E const& ce=e; auto it=M.find(p); ok(N+"get",val(ce.get(mi(p)))==(it==M.end()?Q(0):it->second),[&]{return h+str(p);}); break; } case 5: { Expansion<MultiIndex,X> u(n,z); TL m; for (auto const& kv:M) m.push_back({kv.first,kv.second}); for (size_t i=m.size();i>1;--i) std::swap(m[i-1],m[r.below(i)]); for (auto const& t:m) u.append(mi(t.first),mk<X>(t.second)); E f(u); TL tf=terms(f), te=terms(e); ok(N+"from-unsorted",tf==te,[&]{return str(m);}); ok(N+"==",bool(f==e),[&]{return str(m);}); f.set(mi(p),mk<X>(Q(12345))); ok(N+"==changed",!bool(f==e),[&]{return str(m);}); ok(N+"==symmetric",!bool(e==f),[&]{return str(m);}); E g2=e; PV q=p; q[0]+=7; g2.set(mi(q),z); ok(N+"==zero-term",bool(g2==e)&&bool(e==g2),[&]{return str(m);}); break; } } if (!good) return; if (M.size()>1) e.check(); } },[&]{return h;}); vf::distinct(h); }
VF_SCENARIO(sorted_graded,2) { ordered<Rational,GradedIndexLess>(r,"SortedExpansion<Graded>/",gl); }
VF_SCENARIO(sorted_reverse,2) { ordered<FloatDP,ReverseLexicographicIndexLess>(r,"SortedExpansion<ReverseLexicographic>/",rl); }
VF_SCENARIO(univariate,1) { using E=Expansion<UniIndex,Rational>; E e(SizeOne(),Rational(0)); std::vector<std::pair<int,Q>> M; std::string h; for (int k=0;k<20;++k) { int p=int(r.below(8)); Q c=rc(r); switch (r.below(6)) { case 0: case 1: e.append(UniIndex(p),ref::rational(c)); M.push_back({p,c}); h+="a"; break; case 2: e.prepend(UniIndex(p),ref::rational(c)); M.insert(M.begin(),{p,c}); h+="p"; break; case 3: if (!M.empty()) { size_t i=r.below(M.size()); e.erase(e.begin()+long(i)); M.erase(M.begin()+long(i)); h+="e"; } break; case 4: e.remove_zeros(); M.erase(std::remove_if(M.begin(),M.end(),[](auto const& t){return t.second==0;}),M.end()); h+="z"; break; case 5: { e.graded_sort(); std::sort(M.begin(),M.end(),[](auto const& a,auto const& b){return a.first<b.first;}); e.combine_terms(); std::vector<std::pair<int,Q>> c2; for (auto const& x:M) if (!c2.empty()&&c2.back().first==x.first) c2.back().second+=x.second; else c2.push_back(x); M=c2; h+="c"; break; } }
        bool g=e.size()==M.size(); size_t i=0; if (g) for (auto it=e.begin();it!=e.end();++it,++i) g=g&&int(DegreeType(it->index()))==M[i].first&&val(it->coefficient())==M[i].second; if (!ok("Expansion<UniIndex>/contents",g,[&]{return h;})) return; } vf::distinct(h); }
