// Containers, caches, copy-on-write handles and binary words (C21): every container against a plain model, with every element counted.
#include "vf.hpp"
#include <list>
#include <deque>
#include "utility/standard.hpp"
#include "utility/array.hpp"
#include "utility/uniform_array.hpp"
#include "utility/container.hpp"
#include "utility/lru_cache.hpp"
#include "utility/binary_word.hpp"
#include "utility/pointer.hpp"
#include "utility/handle.hpp"
#include "utility/stlio.hpp"
using namespace Ariadne; using vf::ok; using vf::cat; using vf::total;
namespace {
// An element which knows whether it is alive, and counts itself.
struct El {
    static long live; static long bad; static unsigned const ALIVE=0x5EED1234u;
    unsigned magic; int v; int* heap;
    void born() { magic=ALIVE; ++live; heap=new int(v); }
    void use() const { if (magic!=ALIVE || *heap!=v) ++bad; }
    El() : v(0) { born(); }
    El(int i) : v(i) { born(); }
    El(El const& e) : v(e.v) { e.use(); born(); }
    El& operator=(El const& e) { use(); e.use(); v=e.v; *heap=v; return *this; }
    ~El() { use(); magic=0xDEADu; delete heap; heap=nullptr; --live; }
    friend bool operator==(El const& a,El const& b) { a.use(); b.use(); return a.v==b.v; }
    friend bool operator!=(El const& a,El const& b) { return !(a==b); }
    friend bool operator<(El const& a,El const& b) { a.use(); b.use(); return a.v<b.v; }
    friend std::ostream& operator<<(std::ostream& os,El const& e) { return os<<e.v; }
};
long El::live=0; long El::bad=0;
using V=std::vector<int>;
V rv(vf::Rng& r,int most=7) { V v(r.below(most+1)); for (int& x:v) x=r.below(10); return v; }
std::string str(V const& v) { std::string s="["; for (size_t i=0;i<v.size();++i) s+=(i?",":"")+std::to_string(v[i]); return s+"]"; }
template<class A> bool same(A const& a,V const& v) { if (a.size()!=v.size()) return false; for (size_t i=0;i<v.size();++i) if (!(a[i]==El(v[i]))) return false; size_t k=0; for (auto const& e:a) { if (k==v.size()||!(e==El(v[k]))) return false; ++k; } return k==v.size(); }
void conserved(char const* key,long base,size_t n,std::string const& in) { ok(key,El::live-base==long(n)&&El::bad==0,[&]{ return cat(in,": ",El::live-base," elements live, ",n," held; ",El::bad," uses of dead elements"); }); El::bad=0; }
}
VF_SCENARIO(arrays,6) {
    long base=El::live; std::string in; total("arrays",[&]{ {
        typedef Array<El> A; std::vector<A> a(3); std::vector<V> m(3); int steps=r.range(1,14);
        for (int s=0;s<steps;++s) {
            int i=r.below(3),j=r.below(3),k=r.below(18); size_t n=r.below(8); int x=r.below(10); in+=cat(" ",k,"(",i,",",j,",",n,",",x,")");
            switch (k) {
                case 0: a[i]=a[j]; m[i]=m[j]; break;
                case 1: { V t=m[j]; a[i]=std::move(a[j]); if (i!=j) m[j].clear(); m[i]=t; break; }
                case 2: a[i].resize(n); m[i].resize(n,0); break;
                case 3: a[i].resize(n,El(x)); m[i].resize(n,x); break;
                case 4: if (!m[i].empty()) { size_t q=r.below(m[i].size()); int t=m[i][q]; a[i].resize(n,a[i][q]); m[i].resize(n,t); } break;
                case 5: { bool same=m[i].size()==n; a[i].reallocate(n); if (!same) m[i]=V(n,0); break; }
                case 6: a[i].swap(a[j]); m[i].swap(m[j]); break;
                case 7: a[i].fill(El(x)); std::fill(m[i].begin(),m[i].end(),x); break;
                case 8: { V v=rv(r); List<El> l; for (int e:v) l.append(El(e)); a[i].assign(l.begin(),l.end()); m[i]=v; break; }
                case 9: if (!m[i].empty()) { size_t q=r.below(m[i].size()); a[i][q]=El(x); m[i][q]=x; a[i].at(q)=El(x); } break;
                case 10: { A t(a[j]); ok("array/copy",same(t,m[j])&&t==a[j],[&]{ return in; }); a[i]=std::move(t); m[i]=m[j]; break; }
                case 11: { A t(std::move(a[j])); V mm=m[j]; m[j].clear(); ok("array/move",same(t,mm)&&a[j].size()==0u,[&]{ return in; }); a[i]=t; m[i]=mm; break; }
                case 12: a[i]=A(n,El(x)); m[i]=V(n,x); break;
                case 13: a[i]=A(n,[&](SizeType q){ return El(int(q*q)+x); }); m[i].clear(); for (size_t q=0;q<n;++q) m[i].push_back(int(q*q)+x); break;
                case 14: { Array<int> t(n,[&](SizeType q){ return int(q)+x; }); a[i]=A(t); m[i].clear(); for (size_t q=0;q<n;++q) m[i].push_back(int(q)+x); break; }
                case 15: a[i]=A({El(x),El(x+1),El(x+2)}); m[i]={x,x+1,x+2}; break;
                case 16: a[i]=A(n); m[i]=V(n,0); break;
                case 17: { V v=rv(r); std::list<El> l; for (int e:v) l.push_back(El(e)); a[i]=A(l.begin(),l.end()); m[i]=v; break; }
            }
            size_t all=0; for (int q=0;q<3;++q) { all+=m[q].size(); ok("array/content",same(a[q],m[q])&&a[q].empty()==m[q].empty(),[&]{ return cat(in,": array ",q," is ",a[q]," and should be ",str(m[q])); }); if (!m[q].empty()) ok("array/ends",a[q].front()==El(m[q].front())&&a[q].back()==El(m[q].back())&&&a[q][0]==a[q].begin()&&a[q].end()-a[q].begin()==long(m[q].size()),[&]{ return in; }); }
            conserved("array/conserved",base,all,in);
            ok("array/equality",(a[i]==a[j])==(m[i]==m[j])&&(a[i]!=a[j])==(m[i]!=m[j]),[&]{ return in; });
            bool threw=false; try { a[i].at(m[i].size()); } catch (std::out_of_range const&) { threw=true; } ok("array/at",threw,[&]{ return in; });
        }
        vf::distinct(in);
    } conserved("array/released",base,0,in); });
    // complement of an increasing list of indices
    total("complement",[&]{ size_t n=r.below(12); V in2,out; for (size_t i=0;i<n;++i) (r.coin()?in2:out).push_back(i); Array<SizeType> c=complement(n,Array<SizeType>(in2.begin(),in2.end())); ok("array/complement",c.size()==out.size()&&std::equal(out.begin(),out.end(),c.begin(),[](int a,SizeType b){ return SizeType(a)==b; }),[&]{ return cat(n," less ",str(in2)," is ",c); }); });
}
namespace {
// an element with a configuration; every element of a uniform array must have the configuration of the array
struct Ce : El { int c; Ce(int k) : El(0), c(k) { } Ce(int i,int k) : El(i), c(k) { } int configuration() const { return c; } friend std::ostream& operator<<(std::ostream& os,Ce const& e) { return os<<e.v<<"/"<<e.c; } };
struct Cf { int k; Cf(int i=0) : k(i) { } operator int() const { return k; } };
struct Cg : El { int c; Cg(Cf k) : El(0), c(k.k) { } Cg(int i,Cf k) : El(i), c(k.k) { } Cf configuration() const { return Cf(c); } friend std::ostream& operator<<(std::ostream& os,Cg const& e) { return os<<e.v<<"/"<<e.c; } };
}
VF_SCENARIO(uniform,2) {
    long base=El::live; std::string in; total("uniform",[&]{ {
        typedef UniformArray<Cg,Cf> A; std::vector<A> a; std::vector<V> m; std::vector<int> c; for (int i=0;i<3;++i) { size_t n=r.below(5); int k=r.below(4); a.push_back(A(n,Cf(k))); m.push_back(V(n,0)); c.push_back(k); in+=cat(" ",n,"/",k); }
        int steps=r.range(1,12);
        for (int s=0;s<steps;++s) {
            int i=r.below(3),j=r.below(3),k=r.below(11); size_t n=r.below(8); int x=r.below(10); in+=cat(" ",k,"(",i,",",j,",",n,",",x,")");
            switch (k) {
                case 0: a[i]=a[j]; m[i]=m[j]; c[i]=c[j]; break;
                case 1: { V t=m[j]; a[i]=std::move(a[j]); c[i]=c[j]; if (i!=j) m[j].clear(); m[i]=t; break; }
                case 2: a[i].resize(n); m[i].resize(n,0); break;
                case 3: a[i].resize(n,Cg(x,Cf(c[i]))); m[i].resize(n,x); break;
                case 4: { bool same=m[i].size()==n; a[i].reallocate(n); if (!same) m[i]=V(n,0); break; }
                case 5: a[i].fill(Cg(x,Cf(c[i]))); std::fill(m[i].begin(),m[i].end(),x); break;
                case 6: if (!m[i].empty()) { size_t q=r.below(m[i].size()); a[i][q]=Cg(x,Cf(c[i])); m[i][q]=x; } break;
                case 7: if (!m[i].empty()) { size_t q=r.below(m[i].size()); bool threw=false; try { a[i].set(q,Cg(x,Cf(c[i]+1))); } catch (std::exception const&) { threw=true; } ok("uniform/refuses",threw,[&]{ return in; }); } break;
                case 8: { A t(a[j]); a[i]=std::move(t); m[i]=m[j]; c[i]=c[j]; break; }
                case 9: a[i]=A(n,Cg(x,Cf(2))); m[i]=V(n,x); c[i]=2; break;
                case 10: a[i].swap(a[j]); m[i].swap(m[j]); std::swap(c[i],c[j]); break;
            }
            size_t all=0; for (int q=0;q<3;++q) { A const& ca=a[q]; all+=m[q].size(); bool sm=same(ca,m[q]); for (auto const& e:ca) sm&=e.c==c[q]; ok("uniform/content",sm&&ca.configuration().k==c[q],[&]{ return cat(in,": array ",q," should be ",str(m[q]),"/",c[q]," and has configuration ",ca.configuration().k); }); ok("uniform/default",ca.default_element().c==c[q],[&]{ return in; }); }
            conserved("uniform/conserved",base,all,in);
        }
        vf::distinct(in);
    } conserved("uniform/released",base,0,in); });
}
VF_SCENARIO(shared,2) {
    long base=El::live; std::string in; total("shared",[&]{ {
        typedef SharedArray<El> A; std::vector<std::shared_ptr<V>> m; std::vector<A> a; for (int i=0;i<3;++i) { V v=rv(r,4); if (v.empty()) v={1}; m.push_back(std::make_shared<V>(v)); A t(v.size()); for (size_t q=0;q<v.size();++q) t[q]=El(v[q]); a.push_back(t); }
        int steps=r.range(1,12);
        for (int s=0;s<steps;++s) {
            int i=r.below(3),j=r.below(3),k=r.below(4); size_t n=1+r.below(4); int x=r.below(10); in+=cat(" ",k,"(",i,",",j,",",n,",",x,")");
            switch (k) {
                case 0: a[i]=a[j]; m[i]=m[j]; break;
                case 1: { A t(a[j]); a[i]=t; m[i]=m[j]; break; }
                case 2: a[i]=A(n,El(x)); m[i]=std::make_shared<V>(n,x); break;
                case 3: { size_t q=r.below(m[i]->size()); a[i][q]=El(x); (*m[i])[q]=x; break; }
            }
            std::set<V*> held; size_t all=0; for (int q=0;q<3;++q) { if (held.insert(m[q].get()).second) all+=m[q]->size(); ok("shared/content",same(a[q],*m[q]),[&]{ return cat(in,": array ",q," is ",a[q]," and should be ",str(*m[q])); }); }
            conserved("shared/conserved",base,all,in);
        }
        vf::distinct(in);
    } conserved("shared/released",base,0,in); });
}
namespace { typedef Ariadne::Set<int,ContainerComparison<int>> IS; typedef std::set<int> S; IS mk(S const& s) { IS r; for (int x:s) r.insert(x); return r; } template<class A> bool eq(A const& a,S const& s) { return a.size()==s.size()&&std::equal(s.begin(),s.end(),a.begin()); } std::string str(S const& s) { return str(V(s.begin(),s.end())); } S rs(vf::Rng& r) { V v=rv(r,8); return S(v.begin(),v.end()); } }
VF_SCENARIO(sets,4) {
    S a=rs(r),b=rs(r); if (r.coin(1,4)) { b=a; if (!b.empty()&&r.coin()) b.erase(b.begin()); } int x=r.below(10); V l=rv(r); std::string in=cat(str(a)," and ",str(b)," and ",str(l)); vf::distinct(in); total("sets",[&]{
        IS A=mk(a),B=mk(b); List<int> LL(l.begin(),l.end()); typedef ContainerComparison<int> C; std::set<int,C> const& sA=A; std::set<int,C> const& sB=B;
        S un=a,in_=S(),df; un.insert(b.begin(),b.end()); for (int i:a) (b.count(i)?in_:df).insert(i);
        auto say=[&](char const* k,bool c) { ok(k,c,[&]{ return cat(in," with ",x); }); };
        say("set/contains",A.contains(x)==(a.count(x)==1)&&contains(sA,x)==(a.count(x)==1));
        { IS t=A; t.adjoin(B); say("set/adjoin",eq(t,un)&&eq(join(A,B),un)); }
        { IS t=A; t.remove(x); S m=a; m.erase(x); say("set/remove",eq(t,m)); }
        { IS t=A; t.remove(sB); std::set<int,C> u=A; Ariadne::remove(u,sB); say("set/difference",eq(t,df)&&eq(u,df)&&eq(difference(sA,sB),df)); }
        { IS t=A; t.remove(LL); S m=a; for (int i:l) m.erase(i); say("set/remove-list",eq(t,m)); }
        { IS t=A; t.restrict(sB); std::set<int,C> u=A; Ariadne::restrict(u,sB); say("set/restrict",eq(u,in_)); say("set/restrict-member",eq(t,in_)); say("set/intersection",eq(intersection(sA,sB),in_)); }
        { S m; for (int i:l) if (a.count(i)) m.insert(i); say("set/intersection-list",eq(intersection(sA,LL),m)); }
        say("set/subset",subset(sA,sB)==df.empty()); say("set/disjoint",A.disjoint(sB)==in_.empty()&&disjoint(sA,sB)==in_.empty()); bool dl=true; for (int i:l) dl&=!a.count(i); say("set/disjoint-list",A.disjoint(LL)==dl&&disjoint(sA,LL)==dl);
        { List<int> t=List<int>(A),u=make_list(Ariadne::Set<int>(l.begin(),l.end())); V m(a.begin(),a.end()); S um(l.begin(),l.end()); say("set/list",V(t.begin(),t.end())==m&&V(u.begin(),u.end())==V(um.begin(),um.end())); }
        { S seen; S dup; for (int i:l) if (!seen.insert(i).second) dup.insert(i); say("set/unique",unique_elements(LL)==dup.empty()&&eq(duplicate_elements(LL),dup)&&eq(make_set(LL),seen)); }
        // lists
        { V p(a.begin(),a.end()); List<int> P(p.begin(),p.end()); V c=p; c.insert(c.end(),l.begin(),l.end()); List<int> t=catenate(P,LL); say("list/catenate",V(t.begin(),t.end())==c); List<int> u=P; u.append(LL); List<int> w=P; w.concatenate(LL); say("list/append",u==t&&w==t); V d=p; d.push_back(x); List<int> y=catenate(P,x); List<int> z=P; z.append(x); say("list/append-one",V(y.begin(),y.end())==d&&y==z); if (!P.empty()) { List<int> self=P; self.append(static_cast<std::vector<int> const&>(P)); V e=p; e.insert(e.end(),p.begin(),p.end()); say("list/append-self",V(self.begin(),self.end())==e); } auto sq=Ariadne::apply([](int i){ return i*i+1; },LL); bool same=sq.size()==l.size(); for (size_t i=0;same&&i<l.size();++i) same=sq[i]==l[i]*l[i]+1; say("list/apply",same); Array<int> ar=make_array(static_cast<std::vector<int> const&>(LL)); List<int> lar=make_list(std::vector<int>(ar.begin(),ar.end())); say("list/array",lar==LL&&ar.size()==l.size()&&make_list(x).size()==1u&&make_array(x)[0]==x); }
        // maps: inserting never replaces, indexing does
        { std::map<int,int> m; Map<int,int> M; for (size_t i=0;i<l.size();++i) { int k=l[i]; if (r.coin()) { m[k]=i; M[k]=i; } else if (r.coin()) { m.insert({k,int(i)}); M.insert(k,int(i)); } else { m.insert({k,int(i)}); M.insert(std::make_pair(k,int(i))); } }
          Map<int,int> M2; std::map<int,int> m2; for (int i:b) { M2.insert(i,100+i); m2[i]=100+i; } bool sm=M.size()==m.size()&&std::equal(m.begin(),m.end(),M.begin()); say("map/content",sm);
          bool kk=eq(M.keys(),[&]{ S s; for (auto& p:m) s.insert(p.first); return s; }()); auto vs=M.values(); size_t q=0; for (auto& p:m) { kk&=q<vs.size()&&vs[q]==p.second; ++q; } say("map/keys-values",kk);
          say("map/has_key",M.has_key(x)==(m.count(x)==1)); bool threw=false; int got=-1; try { got=M.get(x); } catch (std::exception const&) { threw=true; } bool threw2=false; int got2=-1; try { got2=static_cast<Map<int,int> const&>(M)[x]; } catch (std::exception const&) { threw2=true; } say("map/get",threw==!m.count(x)&&threw2==threw&&got2==got&&(threw||(got==m[x]&&M.value(x)==got)));
          Map<int,int> j=join(M,M2); std::map<int,int> mj=m; mj.insert(m2.begin(),m2.end()); say("map/join",j.size()==mj.size()&&std::equal(mj.begin(),mj.end(),j.begin()));
          Map<int,int> rk=restrict_keys(M,mk(b)); std::map<int,int> mr; for (auto& p:m) if (b.count(p.first)) mr.insert(p); say("map/restrict",rk.size()==mr.size()&&std::equal(mr.begin(),mr.end(),rk.begin())); Map<int,int> mm=M; mm.remove_keys(mk(b)); for (int i:b) m.erase(i); say("map/remove",mm.size()==m.size()&&std::equal(m.begin(),m.end(),mm.begin())); }
        // what is written can be read back
        { std::stringstream ss; write_sequence(ss,l.begin(),l.end()); std::vector<int> back; read_sequence(ss,back); say("io/sequence",back==l); std::stringstream tt; tt<<LL; std::vector<int> back2; read_sequence(tt,back2); say("io/list",back2==l); std::stringstream uu; uu<<make_array(static_cast<std::vector<int> const&>(LL)); std::vector<int> back3; read_sequence(uu,back3); say("io/array",back3==l); }
    });
}
VF_SCENARIO(caches,4) {
    size_t cap=r.range(1,6); std::string in=cat("capacity ",cap,":"); long base=El::live; total("caches",[&]{ {
        LRUCache<int,El> c(cap); std::list<std::pair<int,int>> m; // most recently used first
        int steps=r.range(1,40);
        for (int s=0;s<steps;++s) {
            int k=r.below(cap+3),x=r.below(100); auto it=std::find_if(m.begin(),m.end(),[&](auto& p){ return p.first==k; });
            if (r.coin()) { in+=cat(" put ",k); bool threw=false; try { c.put(k,El(x)); } catch (std::exception const&) { threw=true; } ok("lru/put",threw==(it!=m.end()),[&]{ return in; }); if (it==m.end()) { if (m.size()==cap) m.pop_back(); m.push_front({k,x}); } }
            else { in+=cat(" get ",k); bool threw=false; int got=-1; try { got=c.get(k).v; } catch (std::exception const&) { threw=true; } ok("lru/get",threw==(it==m.end())&&(threw||got==it->second),[&]{ return in; }); if (it!=m.end()) m.splice(m.begin(),m,it); }
            ok("lru/size",c.current_size()==m.size()&&c.maximum_size()==cap,[&]{ return in; });
            size_t age=0; bool same=true; for (auto& p:m) { same&=c.has_label(p.first)&&c.age(p.first)==age; ++age; } for (int q=0;q<int(cap)+3;++q) same&=c.has_label(q)==(std::find_if(m.begin(),m.end(),[&](auto& p){ return p.first==q; })!=m.end()); ok("lru/order",same,[&]{ return in; });
            conserved("lru/conserved",base,m.size(),in);
        }
        vf::distinct(in);
    } conserved("lru/released",base,0,in); bool threw=false; try { LRUCache<int,El> z(0); } catch (std::exception const&) { threw=true; } ok("lru/empty",threw,[&]{ return std::string("capacity 0"); }); });
}
VF_SCENARIO(words,3) {
    auto rw=[&](int n) { std::string s; for (int i=r.below(n+1);i>0;--i) s+=r.coin()?'1':'0'; return s; }; std::string a=rw(8),b=rw(10); if (r.coin(1,3)&&!b.empty()) { size_t i=r.below(b.size()); a=b.substr(i,r.below(b.size()-i+1)); } std::string in=cat("\"",a,"\" and \"",b,"\""); vf::distinct(in);
    total("words",[&]{ auto mk=[](std::string const& s) { BinaryWord w; for (char c:s) w.append(c=='1'); return w; }; auto un=[](BinaryWord const& w) { std::string s; for (size_t i=0;i<w.size();++i) s+=w[i]?'1':'0'; return s; }; BinaryWord A=mk(a),B=mk(b); auto say=[&](char const* k,bool c) { ok(k,c,[&]{ return in; }); };
        say("word/content",un(A)==a); say("word/prefix",A.is_prefix(B)==(b.compare(0,a.size(),a)==0&&a.size()<=b.size())); say("word/subword",A.is_subword(B)==(b.find(a)!=std::string::npos)); say("word/less",(A<B)==(a<b)&&(A==B)==(a==b)); { BinaryWord c=A; c.append(B); say("word/append",un(c)==a+b); BinaryWord d=c; int n=r.below(a.size()+b.size()+3); d.erase_prefix(n); say("word/erase_prefix",un(d)==(a+b).substr(std::min(size_t(n),a.size()+b.size()))); } if (!a.empty()) { BinaryWord c=A; bool x=r.coin(); c.set_back(x); std::string e=a; e.back()=x?'1':'0'; say("word/set_back",un(c)==e); } say("word/bytes",A.bytes()==(a.size()+7)/8);
        { std::stringstream ss; ss<<A; BinaryWord back=make_binary_word(ss.str()); say("word/text",back==A); std::string t="["; for (size_t i=0;i<a.size();++i) t+=(i?",":"")+std::string(1,a[i]); BinaryWord br=make_binary_word(t+"]"); say("word/brackets",br==A); if (!a.empty()) { BinaryWord w(a); say("word/string",w==A); } }
    });
}
namespace {
struct Node { El e; int tag=0; mutable int count=0; Node(int i) : e(i) { } Node(Node const& n) : e(n.e), tag(n.tag+1), count(0) { } virtual ~Node() { } virtual Node* clone() const { return new Node(*this); } virtual Node* _clone() const { return new Node(*this); } };
struct Leaf : Node { using Node::Node; virtual Node* clone() const { return new Leaf(*this); } virtual Node* _clone() const { return new Leaf(*this); } };
struct NI { virtual ~NI() { } virtual NI* _copy() const=0; virtual NI* _move()=0; virtual int get() const=0; virtual void set(int)=0; };
struct NO : NI { El e; NO(int i) : e(i) { } NO* _copy() const { return new NO(*this); } NO* _move() { return new NO(*this); } int get() const { return e.v; } void set(int i) { e=El(i); } };
struct NH : Handle<NI> { using Handle<NI>::Handle; int get() const { return this->_ptr->get(); } };
template<class P> int val(P const& p) { return p->e.v; }
}
// Writing through one pointer never shows through another, and every object is deleted exactly once.
template<class P> void values(vf::Rng& r,char const* name,bool clones) {
    long base=El::live; std::string in=name; std::string key=cat(name,"/"); auto K=[&](char const* s){ return key+s; }; total(name,[&]{ {
        std::vector<P> p; V m; for (int i=0;i<3;++i) { int x=r.below(10); p.push_back(P(new Leaf(x))); m.push_back(x); }
        int steps=r.range(1,14);
        for (int s=0;s<steps;++s) { int i=r.below(3),j=r.below(3),k=r.below(4),x=r.below(10); in+=cat(" ",k,"(",i,",",j,",",x,")"); switch (k) { case 0: p[i]=p[j]; m[i]=m[j]; break; case 1: { P t(p[j]); p[i]=t; m[i]=m[j]; break; } case 2: (*p[i]).e=El(x); m[i]=x; break; case 3: p[i]=new Leaf(x); m[i]=x; break; }
            bool same=true; for (int q=0;q<3;++q) { P const& c=p[q]; same&=val(c)==m[q]&&c.value().e.v==m[q]; if (clones) same&=dynamic_cast<Leaf const*>(&*c)!=nullptr; } ok(K("values").c_str(),same,[&]{ return cat(in,": should be ",str(m)); });
            std::set<void const*> held; for (int q=0;q<3;++q) { P const& c=p[q]; held.insert(c.address()); } conserved(K("conserved").c_str(),base,held.size(),in); }
        vf::distinct(in);
    } conserved(K("released").c_str(),base,0,in); });
}
VF_SCENARIO(pointers,3) {
    values<copy_on_write_ptr<Leaf>>(r,"copy_on_write_ptr",true); values<clone_on_copy_ptr<Node>>(r,"clone_on_copy_ptr",true); values<copy_on_copy_ptr<Node>>(r,"copy_on_copy_ptr",true); values<clone_on_write_ptr<Node>>(r,"clone_on_write_ptr",true);
    long base=El::live; std::string in="handle"; total("handle",[&]{ {
        std::vector<NH> p; V m; for (int i=0;i<3;++i) { int x=r.below(10); p.push_back(NH(new NO(x))); m.push_back(x); } int steps=r.range(1,14);
        for (int s=0;s<steps;++s) { int i=r.below(3),j=r.below(3),k=r.below(6),x=r.below(10); in+=cat(" ",k,"(",i,",",j,",",x,")"); switch (k) { case 0: p[i]=p[j]; m[i]=m[j]; break; case 1: { NH t(p[j]); p[i]=std::move(t); m[i]=m[j]; break; } case 2: p[i].reference().set(x); m[i]=x; break; case 3: p[i].pointer()->set(x); m[i]=x; break; case 4: p[i]=NH(NO(x)); m[i]=x; break; case 5: p[i].ref().set(x); p[i].ptr()->set(x); p[i].raw_pointer()->set(x); m[i]=x; break; }
            bool same=true; for (int q=0;q<3;++q) same&=p[q].get()==m[q]&&p[q].const_reference().get()==m[q]; ok("handle/values",same,[&]{ return cat(in,": should be ",str(m)); }); ok("handle/live",El::bad==0&&El::live-base<=3&&El::live>base,[&]{ return in; }); }
        vf::distinct(in);
    } conserved("handle/released",base,0,in); });
    in="counted"; total("counted",[&]{ { std::vector<counted_pointer<Node const>> p; V m; for (int i=0;i<3;++i) { int x=r.below(10); p.push_back(counted_pointer<Node const>(new Node(x))); m.push_back(x); } int steps=r.range(1,10); for (int s=0;s<steps;++s) { int i=r.below(3),j=r.below(3),x=r.below(10); in+=cat(" ",i,",",j); if (r.coin()) { p[i]=p[j]; m[i]=m[j]; } else { p[i]=counted_pointer<Node const>(new Node(x)); m[i]=x; } std::set<void const*> held; bool same=true; for (int q=0;q<3;++q) { held.insert(p[q].operator->()); same&=p[q]->e.v==m[q]; } ok("counted/values",same,[&]{ return in; }); conserved("counted/conserved",base,held.size(),in); } } conserved("counted/released",base,0,in); });
}
