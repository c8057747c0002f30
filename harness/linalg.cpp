// Linear algebra (C09): vectors, covectors, matrices, diagonal and symmetric matrices, decompositions and linear solving,
// judged against rational linear algebra at exact points of the coefficients.
#include "floats.hpp"
#include "algebra/vector.hpp"
#include "algebra/covector.hpp"
#include "algebra/matrix.hpp"
#include "algebra/matrix.tpl.hpp"
#include "algebra/diagonal_matrix.hpp"
#include "algebra/symmetric_matrix.hpp"
using namespace Ariadne; using vf::ok; using vf::cat; using vf::total; using ref::Q; using ref::X; using fl::lo; using fl::hi; using fl::TDP; using fl::TMP;
using QV=std::vector<Q>; struct QM { size_t m,n; QV a; QM(size_t m_=0,size_t n_=0):m(m_),n(n_),a(m_*n_) { } Q& operator()(size_t i,size_t j) { return a[i*n+j]; } Q const& operator()(size_t i,size_t j) const { return a[i*n+j]; } };
static QM mul(QM const& A,QM const& B) { QM R(A.m,B.n); for (size_t i=0;i<A.m;++i) for (size_t j=0;j<B.n;++j) for (size_t k=0;k<A.n;++k) R(i,j)+=A(i,k)*B(k,j); return R; }
static QM tr(QM const& A) { QM R(A.n,A.m); for (size_t i=0;i<A.m;++i) for (size_t j=0;j<A.n;++j) R(j,i)=A(i,j); return R; }
static QM col(QV const& v) { QM R(v.size(),1); R.a=v; return R; } static QM row(QV const& v) { QM R(1,v.size()); R.a=v; return R; }
static bool inv(QM A,QM& R) { size_t n=A.n; R=QM(n,n); for (size_t i=0;i<n;++i) R(i,i)=1; for (size_t k=0;k<n;++k) { size_t p=k; while (p<n&&A(p,k)==0) ++p; if (p==n) return false; for (size_t j=0;j<n;++j) { std::swap(A(k,j),A(p,j)); std::swap(R(k,j),R(p,j)); } Q d=1/A(k,k); for (size_t j=0;j<n;++j) { A(k,j)*=d; R(k,j)*=d; } for (size_t i=0;i<n;++i) if (i!=k&&A(i,k)!=0) { Q s=A(i,k); for (size_t j=0;j<n;++j) { A(i,j)-=s*A(k,j); R(i,j)-=s*R(k,j); } } } return true; }
static std::string str(QM const& A) { std::string s="["; for (size_t i=0;i<A.m;++i) { if (i) s+=";"; for (size_t j=0;j<A.n;++j) s+=(j?",":"")+ref::str(A(i,j)); } return s+"]"; }
inline X lo(Rational const& x) { return ref::x(x); } inline X hi(Rational const& x) { return ref::x(x); }
constexpr int S=3;
// an element kind: how to make a coefficient and the exact points it stands for
struct KQ { using T=Rational; static constexpr bool exact=true; static std::string name() { return "Rational"; } struct PR { }; static PR pr(vf::Rng&) { return {}; } static T make(vf::Rng& r,PR,Q const& c,Q p[S]) { (void)r; for (int k=0;k<S;++k) p[k]=c; return ref::rational(c); } };
template<class B> struct KB { using T=Bounds<typename B::F>; static constexpr bool exact=false; static std::string name() { return std::string(B::name())+"Bounds"; } using PR=typename B::PR; static PR pr(vf::Rng& r) { return B::pr(r); }
    static T make(vf::Rng& r,PR pr,Q const& c,Q p[S]) { using F=typename B::F; F a=B::of(c,pr); Q w=r.coin()?Q(0):Q(ref::abs(ref::q(a))*ref::pow(Q(2),-long(r.range(4,60)))); F b=B::of(Q(ref::q(a)+w),pr); if (ref::q(b)<ref::q(a)) b=a; T x(a,b); auto ps=fl::points(r,x,1); for (int k=0;k<S;++k) p[k]=ps[r.below(ps.size())]; return x; } };
template<class K> struct Mt { Matrix<typename K::T> A; QM p[S]; std::string s; };
template<class K> struct Vt { Vector<typename K::T> v; QV p[S]; std::string s; };
static Q coeff(vf::Rng& r) { switch (r.below(5)) { case 0: return Q(0); case 1: return Q(r.range(-3,3)); case 2: return ref::q(ref::rmod(r,30)); default: return ref::q(double(r.range(-64,64))/double(1<<r.below(7))); } }
template<class K> typename K::T zeroel(typename K::PR pr) { Q p[S]; vf::Rng r(1); return K::make(r,pr,Q(0),p); }
template<class K> Mt<K> mat(vf::Rng& r,typename K::PR pr,size_t m,size_t n,int style=0) { Mt<K> t{Matrix<typename K::T>(m,n,zeroel<K>(pr)),{},""}; for (int k=0;k<S;++k) t.p[k]=QM(m,n);
    std::vector<size_t> perm(n); for (size_t i=0;i<n;++i) perm[i]=i; if (style==1) for (size_t i=n;i>1;--i) std::swap(perm[i-1],perm[r.below(i)]);
    for (size_t i=0;i<m;++i) for (size_t j=0;j<n;++j) { Q c=coeff(r); if (style==1) { c=ref::q(double(r.range(-64,64))/64); if (perm[i]==j) c=Q(r.coin()?1:-1)*Q(long(n)+1+r.below(3)); if (r.coin(1,4)&&perm[i]!=j) c=0; } Q p[S]; t.A.at(i,j)=K::make(r,pr,c,p); for (int k=0;k<S;++k) t.p[k](i,j)=p[k]; } t.s=str(t.p[0]); return t; }
template<class K> Vt<K> vec(vf::Rng& r,typename K::PR pr,size_t n) { Vt<K> t{Vector<typename K::T>(n,zeroel<K>(pr)),{},""}; for (int k=0;k<S;++k) t.p[k]=QV(n); for (size_t i=0;i<n;++i) { Q p[S]; t.v[i]=K::make(r,pr,coeff(r),p); for (int k=0;k<S;++k) t.p[k][i]=p[k]; } t.s=str(col(t.p[0])); return t; }
template<class T> static bool in(T const& x,Q const& q) { X l=lo(x),u=hi(x); return !l.isnan()&&!u.isnan()&&ref::le(l,q)&&ref::ge(u,q); }
template<class T> static void judge(std::string const& key,Matrix<T> const& R,QM const& E,std::string const& inp) { bool g=R.row_size()==E.m&&R.column_size()==E.n; std::string w="size"; if (g) for (size_t i=0;i<E.m&&g;++i) for (size_t j=0;j<E.n&&g;++j) { g=in(R.at(i,j),E(i,j)); if (!g) w=cat("(",i,",",j,") is [",ref::str(lo(R.at(i,j))),",",ref::str(hi(R.at(i,j))),"] not ",ref::str(E(i,j))); } ok(key,g,[&]{return cat(inp," : ",w);}); }
template<class V> static void judgev(std::string const& key,V const& R,QV const& E,std::string const& inp) { bool g=R.size()==E.size(); std::string w="size"; if (g) for (size_t i=0;i<E.size()&&g;++i) { g=in(R[i],E[i]); if (!g) w=cat("(",i,") is [",ref::str(lo(R[i])),",",ref::str(hi(R[i])),"] not ",ref::str(E[i])); } ok(key,g,[&]{return cat(inp," : ",w);}); }
template<class F> static QV mapv(QV const& a,F f) { QV r; for (auto const& x:a) r.push_back(f(x)); return r; }
template<class F> static QV zip(QV const& a,QV const& b,F f) { QV r; for (size_t i=0;i<a.size();++i) r.push_back(f(a[i],b[i])); return r; }
template<class F> static QM zipm(QM const& A,QM const& B,F f) { QM R(A.m,A.n); R.a=zip(A.a,B.a,f); return R; }
template<class F> static QM mapm(QM const& A,F f) { QM R(A.m,A.n); R.a=mapv(A.a,f); return R; }

template<class K> void matrices(vf::Rng& r) { using T=typename K::T; auto pr=K::pr(r); size_t m=1+r.below(5),n=1+r.below(5),l=1+r.below(4); auto A=mat<K>(r,pr,m,n), B=mat<K>(r,pr,m,n), C=mat<K>(r,pr,n,l); auto v=vec<K>(r,pr,n); auto u=vec<K>(r,pr,m); Q sp[S]; Q sc=coeff(r); if (sc==0) sc=Q(3); T s=K::make(r,pr,sc,sp); std::string N="Matrix<"+K::name()+">/"; std::string is=cat(A.s," , ",B.s," , ",C.s," s=",ref::str(sc)); vf::distinct(cat(N,m,n,l,A.s.substr(0,40)));
    auto each=[&](char const* op,auto f,auto g){ std::string key=N+op; total(key,[&]{ auto R=f(); for (int k=0;k<S;++k) judge(key,R,g(k),is); },[&]{return is;}); };
    auto eachv=[&](char const* op,auto f,auto g){ std::string key=N+op; total(key,[&]{ auto R=f(); for (int k=0;k<S;++k) judgev(key,R,g(k),cat(is," v=",v.s," u=",u.s)); },[&]{return is;}); };
    auto pl=[](Q const& a,Q const& b){return Q(a+b);}; auto mi=[](Q const& a,Q const& b){return Q(a-b);};
    each("add",[&]{return Matrix<T>(A.A+B.A);},[&](int k){return zipm(A.p[k],B.p[k],pl);}); each("sub",[&]{return Matrix<T>(A.A-B.A);},[&](int k){return zipm(A.p[k],B.p[k],mi);});
    each("neg",[&]{return Matrix<T>(-A.A);},[&](int k){return mapm(A.p[k],[](Q const& a){return Q(-a);});}); each("pos",[&]{return Matrix<T>(+A.A);},[&](int k){return A.p[k];});
    each("scalar*",[&]{return Matrix<T>(s*A.A);},[&](int k){return mapm(A.p[k],[&](Q const& a){return Q(a*sp[k]);});}); each("*scalar",[&]{return Matrix<T>(A.A*s);},[&](int k){return mapm(A.p[k],[&](Q const& a){return Q(a*sp[k]);});}); each("/scalar",[&]{return Matrix<T>(A.A/s);},[&](int k){return mapm(A.p[k],[&](Q const& a){return Q(a/sp[k]);});});
    each("*=",[&]{ Matrix<T> R=A.A; R*=s; return R;},[&](int k){return mapm(A.p[k],[&](Q const& a){return Q(a*sp[k]);});}); each("/=",[&]{ Matrix<T> R=A.A; R/=s; return R;},[&](int k){return mapm(A.p[k],[&](Q const& a){return Q(a/sp[k]);});});
    each("+=",[&]{ Matrix<T> R=A.A; R+=B.A; return R;},[&](int k){return zipm(A.p[k],B.p[k],pl);}); each("-=",[&]{ Matrix<T> R=A.A; R-=B.A; return R;},[&](int k){return zipm(A.p[k],B.p[k],mi);}); each("+=self",[&]{ Matrix<T> R=A.A; R+=R; return R;},[&](int k){return zipm(A.p[k],A.p[k],pl);});
    each("mul",[&]{return Matrix<T>(A.A*C.A);},[&](int k){return mul(A.p[k],C.p[k]);}); each("transpose",[&]{return Matrix<T>(transpose(A.A));},[&](int k){return tr(A.p[k]);}); each("transpose-mul",[&]{return Matrix<T>(transpose(A.A)*B.A);},[&](int k){return mul(tr(A.p[k]),B.p[k]);}); each("mul-transpose",[&]{return Matrix<T>(A.A*transpose(B.A));},[&](int k){return mul(A.p[k],tr(B.p[k]));});
    eachv("mul-vector",[&]{return Vector<T>(A.A*v.v);},[&](int k){return mul(A.p[k],col(v.p[k])).a;}); eachv("transpose-mul-vector",[&]{return Vector<T>(transpose(A.A)*u.v);},[&](int k){return mul(tr(A.p[k]),col(u.p[k])).a;}); eachv("covector-mul",[&]{ return Covector<T>(Covector<T>(u.v.array())*A.A); },[&](int k){return mul(row(u.p[k]),A.p[k]).a;});
    { auto D=mat<K>(r,pr,n,n); each("self-mul-assign",[&]{ Matrix<T> R=D.A; R=R*R; return R; },[&](int k){return mul(D.p[k],D.p[k]);}); eachv("alias-mul-vector",[&]{ Vector<T> w=v.v; w=D.A*w; return w; },[&](int k){return mul(D.p[k],col(v.p[k])).a;}); }
    auto below=[&](QM const& a,QM const& b){ QM R(a.m+b.m,a.n); for (size_t i=0;i<R.m;++i) for (size_t j=0;j<R.n;++j) R(i,j)=i<a.m?a(i,j):b(i-a.m,j); return R; };
    each("join",[&]{return join(A.A,B.A);},[&](int k){return below(A.p[k],B.p[k]);}); each("join-row",[&]{return join(A.A,Covector<T>(v.v.array()));},[&](int k){return below(A.p[k],row(v.p[k]));}); each("row-join",[&]{return join(Covector<T>(v.v.array()),A.A);},[&](int k){return below(row(v.p[k]),A.p[k]);});
    each("cojoin",[&]{return cojoin(A.A,B.A);},[&](int k){return tr(below(tr(A.p[k]),tr(B.p[k])));}); each("cojoin-column",[&]{return cojoin(A.A,u.v);},[&](int k){return tr(below(tr(A.p[k]),row(u.p[k])));}); each("column-cojoin",[&]{return cojoin(u.v,A.A);},[&](int k){return tr(below(row(u.p[k]),tr(A.p[k])));});
    size_t i0=r.below(m),i1=i0+1+r.below(m-i0),j0=r.below(n),j1=j0+1+r.below(n-j0); auto sub=[&](QM const& a){ QM R(i1-i0,j1-j0); for (size_t i=i0;i<i1;++i) for (size_t j=j0;j<j1;++j) R(i-i0,j-j0)=a(i,j); return R; };
    each("range",[&]{return Matrix<T>(A.A[Range(i0,i1)][Range(j0,j1)]);},[&](int k){return sub(A.p[k]);}); each("project",[&]{return Matrix<T>(project(A.A,Range(i0,i1),Range(j0,j1)));},[&](int k){return sub(A.p[k]);});
    each("range-assign",[&]{ Matrix<T> R=A.A; R[Range(i0,i1)][Range(j0,j1)]=Matrix<T>(B.A[Range(i0,i1)][Range(j0,j1)]); return R; },[&](int k){ QM R=A.p[k]; for (size_t i=i0;i<i1;++i) for (size_t j=j0;j<j1;++j) R(i,j)=B.p[k](i,j); return R; });
    eachv("column",[&]{return Vector<T>(column(A.A,j0));},[&](int k){ QV c; for (size_t i=0;i<m;++i) c.push_back(A.p[k](i,j0)); return c; }); eachv("row",[&]{ Covector<T> c(n,zeroel<K>(pr)); for (size_t j=0;j<n;++j) c[j]=A.A[i0][j]; return c; },[&](int k){ QV c; for (size_t j=0;j<n;++j) c.push_back(A.p[k](i0,j)); return c; });
    total(N+"norm",[&]{ auto x=norm(A.A); for (int k=0;k<S;++k) { Q e(0); for (size_t i=0;i<m;++i) { Q t(0); for (size_t j=0;j<n;++j) t+=ref::abs(A.p[k](i,j)); e=ref::qmax(e,t); } ok(N+"norm",in(x,e),[&]{return cat(is," norm misses ",ref::str(e));}); } },[&]{return is;});
    { Matrix<T> cp=A.A; Matrix<T> mv=std::move(cp); cp=B.A; mv=mv; for (int k=0;k<S;++k) { judge(N+"moved",mv,A.p[k],is); judge(N+"reassigned",cp,B.p[k],is); judge(N+"operand-unchanged",A.A,A.p[k],is); } } }

template<class K> void vectors(vf::Rng& r) { using T=typename K::T; auto pr=K::pr(r); size_t n=1+r.below(6); auto v=vec<K>(r,pr,n), w=vec<K>(r,pr,n), x=vec<K>(r,pr,1+r.below(4)); Q sp[S]; Q sc=coeff(r); if (sc==0) sc=Q(5); T s=K::make(r,pr,sc,sp); std::string N="Vector<"+K::name()+">/", NC="Covector<"+K::name()+">/"; std::string is=cat(v.s," , ",w.s," , ",x.s," s=",ref::str(sc)); vf::distinct(cat(N,n,v.s.substr(0,40)));
    auto pl=[](Q const& a,Q const& b){return Q(a+b);}; auto mi=[](Q const& a,Q const& b){return Q(a-b);};
    auto each=[&](std::string op,auto f,auto g){ std::string key=op; total(key,[&]{ auto R=f(); for (int k=0;k<S;++k) judgev(key,R,g(k),is); },[&]{return is;}); };
    auto all=[&](std::string M,auto a,auto b) { using V=decltype(a);
        each(M+"add",[&]{return V(a+b);},[&](int k){return zip(v.p[k],w.p[k],pl);}); each(M+"sub",[&]{return V(a-b);},[&](int k){return zip(v.p[k],w.p[k],mi);}); each(M+"neg",[&]{return V(-a);},[&](int k){return mapv(v.p[k],[](Q const& q){return Q(-q);});});
        each(M+"scalar*",[&]{return V(s*a);},[&](int k){return mapv(v.p[k],[&](Q const& q){return Q(q*sp[k]);});}); each(M+"*scalar",[&]{return V(a*s);},[&](int k){return mapv(v.p[k],[&](Q const& q){return Q(q*sp[k]);});}); each(M+"/scalar",[&]{return V(a/s);},[&](int k){return mapv(v.p[k],[&](Q const& q){return Q(q/sp[k]);});});
        each(M+"+=",[&]{ V c=a; c+=b; return c; },[&](int k){return zip(v.p[k],w.p[k],pl);}); each(M+"-=",[&]{ V c=a; c-=b; return c; },[&](int k){return zip(v.p[k],w.p[k],mi);}); each(M+"*=",[&]{ V c=a; c*=s; return c; },[&](int k){return mapv(v.p[k],[&](Q const& q){return Q(q*sp[k]);});}); each(M+"/=",[&]{ V c=a; c/=s; return c; },[&](int k){return mapv(v.p[k],[&](Q const& q){return Q(q/sp[k]);});}); };
    all(N,v.v,w.v); all(NC,Covector<T>(v.v.array()),Covector<T>(w.v.array()));
    each(N+"*=element",[&]{ Vector<T> c=v.v; T t=c[0]; c*=t; return c; },[&](int k){ return mapv(v.p[k],[&](Q const& q){return Q(q*v.p[k][0]);}); });
    total(N+"dot",[&]{ T d=dot(v.v,w.v); T e=Covector<T>(v.v.array())*w.v; for (int k=0;k<S;++k) { Q q(0); for (size_t i=0;i<n;++i) q+=v.p[k][i]*w.p[k][i]; ok(N+"dot",in(d,q),[&]{return is;}); ok(NC+"mul-vector",in(e,q),[&]{return is;}); } });
    total(N+"norm",[&]{ auto d=norm(v.v); for (int k=0;k<S;++k) { Q q(0); for (size_t i=0;i<n;++i) q=ref::qmax(q,ref::abs(v.p[k][i])); ok(N+"norm",in(d,q),[&]{return is;}); } });
    if constexpr (!K::exact) { total(N+"two_norm",[&]{ auto d=two_norm(v.v); for (int k=0;k<S;++k) { Q q(0); for (size_t i=0;i<n;++i) q+=v.p[k][i]*v.p[k][i]; X l=lo(d),u=hi(d); bool g=!l.isnan()&&!u.isnan()&&(l.kind==-1||l.v<0||(l.kind==0&&l.v*l.v<=q))&&(u.kind==1||(u.kind==0&&u.v>=0&&u.v*u.v>=q)); ok(N+"two_norm",g,[&]{return is;}); } });
        total(N+"sup_norm",[&]{ auto d=sup_norm(v.v); for (int k=0;k<S;++k) { Q q(0); for (size_t i=0;i<n;++i) q=ref::qmax(q,ref::abs(v.p[k][i])); ok(N+"sup_norm",ref::ge(ref::x(d.raw()),q),[&]{return is;}); } });
        total(N+"refinement",[&]{ bool c=true; for (size_t i=0;i<n;++i) { X a=lo(v.v[i]),b=hi(v.v[i]),e=lo(w.v[i]),f=hi(w.v[i]); c=c&&ref::qmax(a.v,e.v)<=ref::qmin(b.v,f.v); } ok(N+"consistent",bool(consistent(v.v,w.v))==c,[&]{return is;}); ok(N+"inconsistent",bool(inconsistent(v.v,w.v))==!c,[&]{return is;}); bool rf=true; for (size_t i=0;i<n;++i) rf=rf&&lo(v.v[i]).v>=lo(w.v[i]).v&&hi(v.v[i]).v<=hi(w.v[i]).v; ok(N+"refines",bool(refines(v.v,w.v))==rf,[&]{return is;}); ok(N+"refines-self",bool(refines(v.v,v.v)),[&]{return is;}); }); }
    each(N+"join",[&]{return join(v.v,x.v);},[&](int k){ QV c=v.p[k]; c.insert(c.end(),x.p[k].begin(),x.p[k].end()); return c; }); each(N+"join-scalar",[&]{return join(v.v,s);},[&](int k){ QV c=v.p[k]; c.push_back(sp[k]); return c; }); each(N+"scalar-join",[&]{return join(s,v.v);},[&](int k){ QV c=v.p[k]; c.insert(c.begin(),sp[k]); return c; });
    size_t i0=r.below(n),i1=i0+1+r.below(n-i0); each(N+"project",[&]{return Vector<T>(project(v.v,Range(i0,i1)));},[&](int k){return QV(v.p[k].begin()+long(i0),v.p[k].begin()+long(i1));}); each(N+"range",[&]{return Vector<T>(v.v[Range(i0,i1)]);},[&](int k){return QV(v.p[k].begin()+long(i0),v.p[k].begin()+long(i1));});
    each(N+"operand-unchanged",[&]{ return v.v; },[&](int k){return v.p[k];});
    if constexpr (K::exact) { bool e=v.p[0]==w.p[0]; ok(N+"==",bool(v.v==w.v)==e,[&]{return is;}); ok(N+"!=",bool(v.v!=w.v)!=e,[&]{return is;}); ok(N+"==copy",bool(v.v==Vector<T>(v.v)),[&]{return is;}); Vector<T> c=v.v; c[i0]+=T(1); ok(N+"==changed",!bool(v.v==c),[&]{return is;}); ok(N+"!=changed",bool(v.v!=c),[&]{return is;}); } }

template<class T> static X width(Matrix<T> const& A) { Q w(0); for (size_t i=0;i<A.row_size();++i) for (size_t j=0;j<A.column_size();++j) { X l=lo(A.at(i,j)),u=hi(A.at(i,j)); if (l.kind||u.kind) return X::inf(1); w=ref::qmax(w,Q(u.v-l.v)); } return X(w); }
template<class K> void solving(vf::Rng& r) { using T=typename K::T; auto pr=K::pr(r); size_t n=1+r.below(5),l=1+r.below(3); int style=r.coin(3,4)?1:0; auto A=mat<K>(r,pr,n,n,style); auto B=mat<K>(r,pr,n,l); auto b=vec<K>(r,pr,n); std::string N="Matrix<"+K::name()+">/"; std::string is=cat(A.s," , ",B.s," , ",b.s); QM I0[S]; bool reg[S]; for (int k=0;k<S;++k) reg[k]=inv(A.p[k],I0[k]); vf::distinct(cat(N,n,style,A.s.substr(0,60)));
    // bounds so coarse that even a diagonally dominant matrix may look singular are only checked for soundness
    bool coarse=style==0; if constexpr (!K::exact) { if constexpr (!std::is_same_v<typename K::PR,DoublePrecision>) if (pr.bits()<24) coarse=true; for (size_t i=0;i<n;++i) for (size_t j=0;j<n;++j) if (ref::q(A.A.at(i,j)._u)-ref::q(A.A.at(i,j)._l)>Q(1)/1000) coarse=true; }
    auto go=[&](char const* op,auto f,auto g){ std::string key=N+op; auto run=[&]{ auto R=f(); if constexpr (requires { R.row_size(); }) { for (int k=0;k<S;++k) if (reg[k]) judge(key,R,g(k),is); } else { for (int k=0;k<S;++k) if (reg[k]) judgev(key,R,g(k).a,is); } bool any=false; for (int k=0;k<S;++k) any=any||!reg[k]; if (any&&K::exact) ok(key+"/singular-accepted",false,[&]{return is;}); };
        if (coarse) vf::partial(key,run); else total(key,run,[&]{return is;}); };
    go("inverse",[&]{return inverse(A.A);},[&](int k){return I0[k];}); go("solve",[&]{return solve(A.A,B.A);},[&](int k){return mul(I0[k],B.p[k]);}); go("solve-vector",[&]{return solve(A.A,b.v);},[&](int k){return mul(I0[k],col(b.p[k]));});
    if constexpr (!K::exact) { go("lu_inverse",[&]{return lu_inverse(A.A);},[&](int k){return I0[k];}); go("lu_solve",[&]{return lu_solve(A.A,B.A);},[&](int k){return mul(I0[k],B.p[k]);}); go("lu_solve-vector",[&]{return lu_solve(A.A,b.v);},[&](int k){return mul(I0[k],col(b.p[k]));}); go("gs_inverse",[&]{return gs_inverse(A.A);},[&](int k){return I0[k];}); go("gs_solve",[&]{return gs_solve(A.A,B.A);},[&](int k){return mul(I0[k],B.p[k]);}); go("gs_solve-vector",[&]{return gs_solve(A.A,b.v);},[&](int k){return mul(I0[k],col(b.p[k]));});
        // a point matrix well away from singular has a tight inverse
        if (!coarse) { Q w=width(A.A).v; total(N+"inverse-tight",[&]{ X x=width(inverse(A.A)); Q u=ref::pow(Q(2),-long(std::is_same_v<typename K::PR,DoublePrecision>?53:0)); if constexpr (!std::is_same_v<typename K::PR,DoublePrecision>) u=ref::pow(Q(2),-long(pr.bits())); ok(N+"inverse-tight",x.kind==0&&x.v<=Q(100000)*u+Q(2000)*w,[&]{return cat(is," width ",ref::str(x));}); }); }
        // triangular decomposition: with the rows exchanged as recorded, A is LU
        auto lu=[&]{ auto t=triangular_decomposition(A.A); auto const& P=std::get<0>(t); auto const& L=std::get<1>(t); auto const& U=std::get<2>(t);
            for (int k=0;k<S;++k) { QM a=A.p[k]; for (size_t i=0;i<n;++i) { size_t p=P.pivot(i); for (size_t j=0;j<n;++j) std::swap(a(i,j),a(p,j)); } QM l0(n,n),u0=a; bool good=true; for (size_t i=0;i<n;++i) l0(i,i)=1; for (size_t c=0;c<n&&good;++c) { if (u0(c,c)==0) { good=false; break; } for (size_t i=c+1;i<n;++i) { Q s=u0(i,c)/u0(c,c); l0(i,c)=s; for (size_t j=c;j<n;++j) u0(i,j)-=s*u0(c,j); } } if (!good) { vf::note("zero pivot at a point"); continue; } judge(N+"triangular/L",L,l0,is); judge(N+"triangular/U",U,u0,is); }
            if (!coarse) { bool fin=width(L).kind==0&&width(U).kind==0; ok(N+"triangular/bounded",fin,[&]{return is;}); }
            Matrix<T> PA=P*A.A; Matrix<T> LU=L*U; for (int k=0;k<S;++k) { QM a=A.p[k]; for (size_t i=0;i<n;++i) { size_t p=P.pivot(i); for (size_t j=0;j<n;++j) std::swap(a(i,j),a(p,j)); } judge(N+"pivot-mul",PA,a,is); if (width(LU).kind==0) judge(N+"triangular/LU",LU,a,is); } };
        if (coarse) vf::partial(N+"triangular",lu); else total(N+"triangular",lu,[&]{return is;});
        auto ort=[&]{ auto t=orthogonal_decomposition(A.A); auto const& O=std::get<0>(t); auto const& R=std::get<1>(t); Matrix<T> OR=O*R; Matrix<T> OO=transpose(O)*O; if (width(OR).kind==0) for (int k=0;k<S;++k) judge(N+"orthogonal/OR",OR,A.p[k],is); bool g=true; for (size_t i=0;i<n;++i) for (size_t j=0;j<n;++j) if (i!=j&&!lo(OO.at(i,j)).isnan()) g=g&&in(OO.at(i,j),Q(0)); ok(N+"orthogonal/O'O",g,[&]{return is;}); };
        if (coarse) vf::partial(N+"orthogonal",ort); else total(N+"orthogonal",ort,[&]{return is;}); } }
template<class T> static Q val(T const& x) { return ref::q(x.raw()); }
template<class T> static bool fin(Matrix<T> const& A) { for (size_t i=0;i<A.row_size();++i) for (size_t j=0;j<A.column_size();++j) if (ref::x(A.at(i,j).raw()).kind) return false; return true; }
template<class B> void approximate(vf::Rng& r) { using F=typename B::F; using T=Approximation<F>; auto pr=B::pr(r); if constexpr (!B::isdp) if (pr.bits()<53) pr=B::pr(r); long bits=B::bits(pr); size_t n=1+r.below(5),m=n; std::string N=std::string("Matrix<")+B::name()+"Approximation>/"; vf::Rng r2=r; auto q=mat<KQ>(r2,{},n,n,1); r=r2; Matrix<T> A(n,n,T(B::of(Q(0),pr))); for (size_t i=0;i<n;++i) for (size_t j=0;j<n;++j) A.at(i,j)=T(B::of(q.p[0](i,j),pr)); std::string is=q.s; vf::distinct(cat(N,is.substr(0,80))); Q tol=ref::pow(Q(2),20-bits); auto close=[&](std::string key,Matrix<T> const& R,QM const& E){ bool g=R.row_size()==E.m&&R.column_size()==E.n&&fin(R); if (g) for (size_t i=0;i<E.m;++i) for (size_t j=0;j<E.n;++j) g=g&&ref::abs(Q(val(R.at(i,j))-E(i,j)))<=tol; ok(key,g,[&]{return is;}); };
    auto asq=[&](Matrix<T> const& R){ QM a(R.row_size(),R.column_size()); for (size_t i=0;i<a.m;++i) for (size_t j=0;j<a.n;++j) a(i,j)=val(R.at(i,j)); return a; }; QM I0; inv(q.p[0],I0); QM id(n,n); for (size_t i=0;i<n;++i) id(i,i)=1;
    total(N+"inverse",[&]{ close(N+"inverse",inverse(A),I0); },[&]{return is;});
    total(N+"triangular",[&]{ auto t=triangular_decomposition(A); auto const& P=std::get<0>(t); auto L=std::get<1>(t); auto U=std::get<2>(t); if (!fin(L)||!fin(U)) { ok(N+"triangular/finite",false,[&]{return is;}); return; } Matrix<T> PA=P*A; close(N+"triangular/LU",PA,mul(asq(L),asq(U))); bool g=true; for (size_t i=0;i<n;++i) for (size_t j=0;j<n;++j) { if (j>i) g=g&&val(L.at(i,j))==0; if (j==i) g=g&&val(L.at(i,j))==1; if (j<i) g=g&&val(U.at(i,j))==0; } ok(N+"triangular/shape",g,[&]{return is;}); },[&]{return is;});
    for (bool piv:{false,true}) { std::string K=N+(piv?"qr-pivot":"qr"); total(K,[&]{ auto t=orthogonal_decomposition(A,piv); auto O=std::get<0>(t); auto R=std::get<1>(t); auto P=std::get<2>(t); if (!fin(O)||!fin(R)) { ok(K+"/finite",false,[&]{return is;}); return; } QM o=asq(O); close(K+"/orthogonal",Matrix<T>(transpose(O)*O),id); QM ap=q.p[0]; if (piv) for (size_t k=0;k<n;++k) { size_t p=P.pivot(k); for (size_t i=0;i<m;++i) std::swap(ap(i,k),ap(i,p)); } close(K+"/QR",Matrix<T>(O*R),ap); bool g=true; for (size_t i=0;i<n;++i) for (size_t j=0;j<i;++j) g=g&&val(R.at(i,j))==0; ok(K+"/triangular",g,[&]{return is;}); },[&]{return is;}); }
    total(N+"orthogonal",[&]{ auto t=orthogonal_decomposition(A); auto O=std::get<0>(t); auto R=std::get<1>(t); if (!fin(O)||!fin(R)) { ok(N+"orthogonal/finite",false,[&]{return is;}); return; } close(N+"orthogonal/OR",Matrix<T>(O*R),q.p[0]); QM oo=mul(tr(asq(O)),asq(O)); bool g=true; for (size_t i=0;i<n;++i) for (size_t j=0;j<n;++j) if (i!=j) g=g&&ref::abs(oo(i,j))<=tol*1000000; ok(N+"orthogonal/O'O",g,[&]{return is;}); bool s=true; QM rr=asq(R); for (size_t i=0;i<n;++i) { Q t2(0); for (size_t j=0;j<n;++j) t2+=ref::abs(rr(i,j)); s=s&&t2<=1+tol; } ok(N+"orthogonal/rows",s,[&]{return is;}); },[&]{return is;});
    total(N+"row_norms",[&]{ auto v=row_norms(A); for (size_t i=0;i<n;++i) { Q t(0); for (size_t j=0;j<n;++j) t+=ref::abs(q.p[0](i,j)); ok(N+"row_norms",ref::abs(Q(val(v[i])-t))<=tol*10,[&]{return is;}); } }); }
VF_SCENARIO(matrix_q,2) { matrices<KQ>(r); }
VF_SCENARIO(matrix_dp,3) { matrices<KB<TDP>>(r); }
VF_SCENARIO(matrix_mp,2) { matrices<KB<TMP>>(r); }
VF_SCENARIO(vector_q,2) { vectors<KQ>(r); }
VF_SCENARIO(vector_dp,3) { vectors<KB<TDP>>(r); }
VF_SCENARIO(vector_mp,2) { vectors<KB<TMP>>(r); }
VF_SCENARIO(solve_q,2) { solving<KQ>(r); }
VF_SCENARIO(solve_dp,3) { solving<KB<TDP>>(r); }
VF_SCENARIO(solve_mp,2) { solving<KB<TMP>>(r); }
VF_SCENARIO(approx_dp,2) { approximate<TDP>(r); }
VF_SCENARIO(approx_mp,2) { approximate<TMP>(r); }
VF_SCENARIO(norms,1) { using K=KB<TDP>; size_t n=1+r.below(5); auto A=mat<K>(r,dp,n,n); std::string is=A.s; total("Matrix/sup_norm",[&]{ auto d=sup_norm(A.A); for (int k=0;k<S;++k) { Q q(0); for (size_t i=0;i<n;++i) { Q t(0); for (size_t j=0;j<n;++j) t+=ref::abs(A.p[k](i,j)); q=ref::qmax(q,t); } ok("Matrix/sup_norm",ref::ge(ref::x(d.raw()),q),[&]{return is;}); } });
    total("Matrix/log_norm",[&]{ auto d=log_norm(A.A); for (int k=0;k<S;++k) { Q q; bool f=true; for (size_t i=0;i<n;++i) { Q t(A.p[k](i,i)); for (size_t j=0;j<n;++j) if (j!=i) t+=ref::abs(A.p[k](i,j)); q=f?t:ref::qmax(q,t); f=false; } ok("Matrix/log_norm",ref::ge(ref::x(d.raw()),q),[&]{return is;}); } }); }
template<class K> void diagonal(vf::Rng& r) { using T=typename K::T; auto pr=K::pr(r); size_t n=1+r.below(5); auto d=vec<K>(r,pr,n), e=vec<K>(r,pr,n), v=vec<K>(r,pr,n); auto A=mat<K>(r,pr,n,n); std::string N="DiagonalMatrix<"+K::name()+">/", is=cat(d.s," , ",e.s," , ",v.s," , ",A.s); DiagonalMatrix<T> D(d.v), E(e.v); auto dm=[&](QV const& q){ QM R(n,n); for (size_t i=0;i<n;++i) R(i,i)=q[i]; return R; }; vf::distinct(cat(N,is.substr(0,60))); auto nz=[&](Vt<K> const& a){ for (size_t i=0;i<n;++i) { X l=lo(a.v[i]),u=hi(a.v[i]); if (l.v<=0&&u.v>=0) return false; } return true; };
    auto each=[&](char const* op,auto f,auto g){ std::string key=N+op; total(key,[&]{ auto R=f(); for (int k=0;k<S;++k) judge(key,R,g(k),is); },[&]{return is;}); }; auto dg=[&](DiagonalMatrix<T> const& X_){ return static_cast<Matrix<T>>(X_); };
    each("matrix",[&]{return dg(D);},[&](int k){return dm(d.p[k]);}); each("add",[&]{return dg(D+E);},[&](int k){return zipm(dm(d.p[k]),dm(e.p[k]),[](Q const& a,Q const& b){return Q(a+b);});}); each("sub",[&]{return dg(D-E);},[&](int k){return zipm(dm(d.p[k]),dm(e.p[k]),[](Q const& a,Q const& b){return Q(a-b);});}); each("mul",[&]{return dg(D*E);},[&](int k){return mul(dm(d.p[k]),dm(e.p[k]));}); each("neg",[&]{return dg(-D);},[&](int k){return mapm(dm(d.p[k]),[](Q const& a){return Q(-a);});});
    if (nz(e)) { each("inverse",[&]{return dg(inverse(E));},[&](int k){ QM I0; inv(dm(e.p[k]),I0); return I0; }); each("div",[&]{return dg(D/E);},[&](int k){ QM I0; inv(dm(e.p[k]),I0); return mul(dm(d.p[k]),I0); }); }
    each("matrix+diagonal",[&]{return Matrix<T>(A.A+D);},[&](int k){return zipm(A.p[k],dm(d.p[k]),[](Q const& a,Q const& b){return Q(a+b);});}); each("diagonal+matrix",[&]{return Matrix<T>(D+A.A);},[&](int k){return zipm(A.p[k],dm(d.p[k]),[](Q const& a,Q const& b){return Q(a+b);});}); each("matrix-diagonal",[&]{return Matrix<T>(A.A-D);},[&](int k){return zipm(A.p[k],dm(d.p[k]),[](Q const& a,Q const& b){return Q(a-b);});}); each("diagonal-matrix",[&]{return Matrix<T>(D-A.A);},[&](int k){return zipm(A.p[k],dm(d.p[k]),[](Q const& a,Q const& b){return Q(b-a);});});
    each("matrix*diagonal",[&]{return Matrix<T>(A.A*D);},[&](int k){return mul(A.p[k],dm(d.p[k]));}); each("diagonal*matrix",[&]{return Matrix<T>(D*A.A);},[&](int k){return mul(dm(d.p[k]),A.p[k]);}); each("diagonal*transpose",[&]{return Matrix<T>(D*transpose(A.A));},[&](int k){return mul(dm(d.p[k]),tr(A.p[k]));});
    each("diagonal*vector",[&]{ Matrix<T> R(n,1,zeroel<K>(pr)); Vector<T> w=D*v.v; for (size_t i=0;i<n;++i) R.at(i,0)=w[i]; return R; },[&](int k){return mul(dm(d.p[k]),col(v.p[k]));});
    if (nz(e)) each("vector/diagonal",[&]{ Matrix<T> R(n,1,zeroel<K>(pr)); Vector<T> w=v.v/E; for (size_t i=0;i<n;++i) R.at(i,0)=w[i]; return R; },[&](int k){ QM I0; inv(dm(e.p[k]),I0); return mul(I0,col(v.p[k])); }); }
VF_SCENARIO(diagonal_q,1) { diagonal<KQ>(r); }
VF_SCENARIO(diagonal_dp,2) { diagonal<KB<TDP>>(r); }
