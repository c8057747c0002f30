// Taylor models (C12): whatever function the operands stand for, the result stands for the exact image, checked at exact points.
#include "tm.hpp"
#include "function/scaling.hpp"
#include "geometry/box.hpp"
using namespace Ariadne; using vf::ok; using vf::cat; using vf::total; using vf::partial; using ref::Q; using ref::X; using mpi::I; using tmo::V;
template<class T,bool IV> struct K { using F=typename T::F; using M=TaylorModel<ValidatedTag,std::conditional_t<IV,Interval<UpperBound<F>>,F>>; using N=typename M::NumericType; static std::string name() { return cat("TaylorModel",IV?"Interval":"",T::name(),"/"); } };
template<class T> static typename T::PR prec(vf::Rng& r) { auto pr=T::pr(r); if constexpr (!T::isdp) if (pr.bits()<24) pr=MultiplePrecision(40); return pr; }
template<class M> static bool holds(std::string const& key,M const& res,std::vector<Q> const& x,I const& v,std::string const& in) { V w=tmo::at(res,x); return ok(key,w.has(v),[&]{return cat(in," at ",tmo::pts(x)," gave ",tmo::str(res)," = ",w.str()," which misses ",mpi::str(v));}); }
template<class K_,class T> static typename K_::N num(vf::Rng& r,typename T::PR pr,int e) { using F=typename T::F; Bounds<F> b=fl::bounds<T>(r,pr,e); if constexpr (tmo::is_ivl<typename K_::M>::value) return typename K_::N(b.lower(),b.upper()); else return b; }
template<class F> static V nv(Bounds<F> const& b) { V v; X l=fl::lo(b),u=fl::hi(b); v.l=l.v; v.u=u.v; return v; }
template<class F> static V nv(Interval<UpperBound<F>> const& b) { V v; v.l=tmo::clo(b).v; v.u=tmo::chi(b).v; return v; }

template<class T,bool IV> static void arith(vf::Rng& r) { using K1=K<T,IV>; using M=typename K1::M; using N=typename K1::N; using F=typename T::F; auto pr=prec<T>(r); std::string sn; auto swp=tmo::sweeper<T>(r,pr,&sn); size_t n=r.below(4); int d=n==0?0:int(r.range(0,4)); M x=tmo::random<T,M>(r,pr,swp,n,d), y=tmo::random<T,M>(r,pr,swp,n,d); N c=num<K1,T>(r,pr,4); std::string P=K1::name(); std::string is=cat(sn," x=",tmo::str(x)," y=",tmo::str(y)," c=",nv(c).str()); vf::distinct(cat(sn,n,d,x.number_of_terms(),y.number_of_terms()));
    auto J=[&](char const* op,auto f,auto g){ total(P+op,[&]{ M z=f(); for (int i=0;i<4;++i) { auto p=tmo::point(r,n); Q a=tmo::value(r,tmo::at(x,p)), b=tmo::value(r,tmo::at(y,p)), k=tmo::value(r,nv(c)); holds(P+op,z,p,I(g(a,b,k)),is); } },[&]{return is;}); };
    using C=Q const&;
    J("copy",[&]{return x;},[](C a,C,C){return a;}); J("pos",[&]{return +x;},[](C a,C,C){return a;}); J("neg",[&]{return -x;},[](C a,C,C){return Q(-a);}); J("add",[&]{return x+y;},[](C a,C b,C){return Q(a+b);}); J("sub",[&]{return x-y;},[](C a,C b,C){return Q(a-b);}); J("mul",[&]{return x*y;},[](C a,C b,C){return Q(a*b);}); J("sqr",[&]{return sqr(x);},[](C a,C,C){return Q(a*a);}); J("mul-self",[&]{return x*x;},[](C a,C,C){return Q(a*a);});
    J("add-scalar",[&]{return x+c;},[](C a,C,C k){return Q(a+k);}); J("scalar-add",[&]{return c+x;},[](C a,C,C k){return Q(a+k);}); J("sub-scalar",[&]{return x-c;},[](C a,C,C k){return Q(a-k);}); J("scalar-sub",[&]{return c-x;},[](C a,C,C k){return Q(k-a);}); J("mul-scalar",[&]{return x*c;},[](C a,C,C k){return Q(a*k);}); J("scalar-mul",[&]{return c*x;},[](C a,C,C k){return Q(a*k);});
    { V v=nv(c); if (v.l>0||v.u<0) { J("div-scalar",[&]{return x/c;},[](C a,C,C k){return Q(a/k);}); J("/=scalar",[&]{M z=x; z/=c; return z;},[](C a,C,C k){return Q(a/k);}); } }
    J("+=",[&]{M z=x; z+=y; return z;},[](C a,C b,C){return Q(a+b);}); J("-=",[&]{M z=x; z-=y; return z;},[](C a,C b,C){return Q(a-b);}); J("*=",[&]{M z=x; z*=y; return z;},[](C a,C b,C){return Q(a*b);}); J("+=scalar",[&]{M z=x; z+=c; return z;},[](C a,C,C k){return Q(a+k);}); J("-=scalar",[&]{M z=x; z-=c; return z;},[](C a,C,C k){return Q(a-k);}); J("*=scalar",[&]{M z=x; z*=c; return z;},[](C a,C,C k){return Q(a*k);}); J("+=self",[&]{M z=x; z+=z; return z;},[](C a,C,C){return Q(2*a);}); J("*=self",[&]{M z=x; z*=z; return z;},[](C a,C,C){return Q(a*a);});
    int m=int(r.below(6)); J("pow",[&]{return pow(x,m);},[m](C a,C,C){return ref::pow(a,m);}); J("pow-nat",[&]{return pow(x,Nat(m));},[m](C a,C,C){return ref::pow(a,m);});
    J("sweep",[&]{M z=x; z.sweep(); return z;},[](C a,C,C){return a;}); J("simplify",[&]{M z=x; z.simplify(); return z;},[](C a,C,C){return a;}); { auto s2=tmo::sweeper<T>(r,pr); J("sweep-with",[&]{M z=x; z.sweep(s2); return z;},[](C a,C,C){return a;}); J("set_sweeper",[&]{M z=x; z.set_sweeper(s2); z=z+y; return z;},[](C a,C b,C){return Q(a+b);}); }
    J("cleanup",[&]{M z=x; z.cleanup(); return z;},[](C a,C,C){return a;});
    J("assign-constant",[&]{M z=x; z=c; return z;},[](C,C,C k){return k;}); J("constant",[&]{return M::constant(n,c,swp);},[](C,C,C k){return k;}); J("create_constant",[&]{return x.create_constant(c);},[](C,C,C k){return k;}); J("create_zero",[&]{return x.create_zero();},[](C,C,C){return Q(0);}); { ValidatedNumber w(Rational(1,3)); J("generic-constant",[&]{return M::constant(n,w,swp);},[](C,C,C){return Q(1,3);}); if constexpr (!IV) { J("generic-add",[&]{return x+w;},[](C a,C,C){return Q(a+Q(1,3));}); J("generic-mul",[&]{return w*x;},[](C a,C,C){return Q(a*Q(1,3));}); J("generic-div",[&]{return x/w;},[](C a,C,C){return Q(a*3);}); } }
    if (n) { size_t k=r.below(n); total(P+"coordinate",[&]{ M z=M::coordinate(n,k,swp), w=x.create_coordinate(k); auto p=tmo::point(r,n); holds(P+"coordinate",z,p,I(p[k]),is); holds(P+"create_coordinate",w,p,I(p[k]),is); }); }
    { F e=T::of(Q(1,3),pr); J("create_ball",[&]{return x.create_ball(Error<F>(e));},[e](C,C,C){return ref::q(e);}); J("error",[&]{return M::error(n,Error<F>(e),swp);},[e](C,C,C){return Q(-ref::q(e));}); }
    for (int i=0;i<3;++i) { auto p=tmo::point(r,n); Q a=tmo::value(r,tmo::at(x,p)); total(P+"range",[&]{ auto g=x.range(); X l=tmo::clo(g),u=tmo::chi(g); ok(P+"range",ref::le(l,a)&&ref::ge(u,a),[&]{return cat(is," range [",ref::str(l),",",ref::str(u),"] misses ",ref::str(a)," at ",tmo::pts(p));}); auto h=x.codomain(); ok(P+"codomain",ref::le(ref::x(h.lower_bound().raw()),a)&&ref::ge(ref::x(h.upper_bound().raw()),a),[&]{return is;}); X nn=ref::x(x.norm().raw()); ok(P+"norm",ref::ge(nn,ref::abs(a)),[&]{return cat(is," norm ",ref::str(nn)," below |",ref::str(a),"|");}); X rd=ref::x(x.radius().raw()); Q av=ref::q(x.average().raw()); ok(P+"radius",ref::ge(rd,ref::abs(Q(a-av))),[&]{return cat(is," radius ",ref::str(rd)," about ",ref::str(av)," misses ",ref::str(a));}); },[&]{return is;}); } }
VF_SCENARIO(arith_dp,5) { arith<fl::TDP,false>(r); }
VF_SCENARIO(arith_mp,4) { arith<fl::TMP,false>(r); }
VF_SCENARIO(arith_idp,2) { arith<fl::TDP,true>(r); }
VF_SCENARIO(arith_imp,2) { arith<fl::TMP,true>(r); }

static const mpi::Op FUN[]={mpi::REC,mpi::SQRT,mpi::EXP,mpi::LOG,mpi::SIN,mpi::COS,mpi::TAN,mpi::ABS,mpi::HLF,mpi::SQR};
template<class T,bool IV> static void elementary(vf::Rng& r) { using K1=K<T,IV>; using M=typename K1::M; using F=typename T::F; auto pr=prec<T>(r); std::string sn; size_t n=r.below(3); auto swp=tmo::sweeper<T>(r,pr,&sn,n==2); int d=n==0?0:int(r.range(0,3)); mpi::Op o=FUN[r.below(10)]; std::string P=K1::name()+mpi::opname(o);
    // a model with chosen centre and radius
    M x=tmo::random<T,M>(r,pr,swp,n,d,r.pick({-20,-6,-2,0,1,2})); Q c; switch (o) { case mpi::REC: c=Q(r.range(1,40),r.pick({4l,7l,8l})); if (r.coin()) c=-c; break; case mpi::SQRT: case mpi::LOG: c=Q(r.range(1,60),r.pick({4l,7l,8l})); break; case mpi::TAN: c=Q(r.range(-12,12),10); break; case mpi::EXP: c=Q(r.range(-40,40),10); break; case mpi::ABS: c=Q(r.range(-20,20),10); break; default: c=Q(r.range(-120,120),10); } c.canonicalize(); { MultiIndex z(n); F cf=T::of(c,pr); if constexpr (IV) x[z]=Interval<UpperBound<F>>(LowerBound<F>(cf),UpperBound<F>(cf)); else x[z]=cf; }
    if (o==mpi::REC||o==mpi::SQRT||o==mpi::LOG) { // bring the radius below the centre, by a random factor
        Q rad(0); for (auto it=x.begin();it!=x.end();++it) { bool z=true; for (size_t i=0;i<n;++i) z=z&&it->index()[i]==0; if (!z) rad+=ref::qmax(ref::abs(tmo::clo(it->coefficient()).v),ref::abs(tmo::chi(it->coefficient()).v)); } rad+=ref::x(x.error().raw()).v; if (rad!=0) { Q f=ref::abs(c)/rad*Q(r.range(1,12),16); long sh=0; while (ref::pow(Q(2),sh)>f) --sh; F s=T::of(ref::pow(Q(2),sh),pr); M y=x-Bounds<F>(T::of(c,pr)); y=y*Bounds<F>(s); x=y+Bounds<F>(T::of(c,pr)); } }
    if (o!=mpi::REC&&o!=mpi::ABS) { X nn=ref::x(x.norm().raw()); if (!ref::le(nn,o==mpi::EXP?Q(5):Q(40))) return; }
    std::string is=cat(sn," x=",tmo::str(x)); vf::distinct(cat(sn,o,n,d,ref::str(c))); auto go=[&]{ M z= o==mpi::ABS?abs(x):mpi::apply1(o,x); for (int i=0;i<6;++i) { auto p=tmo::point(r,n); Q a=tmo::value(r,tmo::at(x,p)); holds(P,z,p,mpi::eval1(o,I(a)),is); } };
    if (o==mpi::TAN) { M q=cos(x); if (ref::x(q.radius().raw()).v>ref::abs(ref::q(q.average().raw()))*Q(3,4)) return; }
    partial(P,go);
    if (o==mpi::ABS) { M y=tmo::random<T,M>(r,pr,swp,n,d,2); Bounds<F> cb=Bounds<F>(T::mod(r,pr,3)); std::string js=cat(is," y=",tmo::str(y)); auto Jm=[&](char const* k,bool mx,auto f){ partial(K1::name()+k,[&]{ M z=f(); for (int i=0;i<4;++i) { auto p=tmo::point(r,n); Q a=tmo::value(r,tmo::at(x,p)),b=tmo::value(r,tmo::at(y,p)); holds(K1::name()+k,z,p,I(mx?ref::qmax(a,b):ref::qmin(a,b)),js); } }); }; Jm("max",true,[&]{return max(x,y);}); Jm("min",false,[&]{return min(x,y);});
        if constexpr (!IV) { Q k=fl::lo(cb).v; partial(K1::name()+"max-scalar",[&]{ M z=max(x,cb),w=min(x,cb),z2=max(cb,x),w2=min(cb,x); for (int i=0;i<4;++i) { auto p=tmo::point(r,n); Q a=tmo::value(r,tmo::at(x,p)); holds(K1::name()+"max-scalar",z,p,I(ref::qmax(a,k)),is); holds(K1::name()+"min-scalar",w,p,I(ref::qmin(a,k)),is); holds(K1::name()+"scalar-max",z2,p,I(ref::qmax(a,k)),is); holds(K1::name()+"scalar-min",w2,p,I(ref::qmin(a,k)),is); } }); } }
    if (o==mpi::REC) { M y=tmo::random<T,M>(r,pr,swp,n,d,2); std::string js=cat(is," y=",tmo::str(y)); partial(K1::name()+"div",[&]{ M z=y/x; M w=y; w/=x; M s=1/x; M q=pow(x,-2); for (int i=0;i<4;++i) { auto p=tmo::point(r,n); Q a=tmo::value(r,tmo::at(x,p)),b=tmo::value(r,tmo::at(y,p)); holds(K1::name()+"div",z,p,I(Q(b/a)),js); holds(K1::name()+"/=",w,p,I(Q(b/a)),js); holds(K1::name()+"scalar-div",s,p,I(Q(1/a)),js); holds(K1::name()+"pow-negative",q,p,I(Q(1/(a*a))),js); } }); } }
VF_SCENARIO(elem_dp,5) { elementary<fl::TDP,false>(r); }
VF_SCENARIO(elem_mp,3) { elementary<fl::TMP,false>(r); }
VF_SCENARIO(elem_idp,2) { elementary<fl::TDP,true>(r); }
VF_SCENARIO(elem_imp,1) { elementary<fl::TMP,true>(r); }

// functions of the arguments: evaluation, substitution, integration, domain changes
template<class T,bool IV> static void functional(vf::Rng& r) { using K1=K<T,IV>; using M=typename K1::M; using N=typename K1::N; using F=typename T::F; auto pr=prec<T>(r); std::string sn; auto swp=tmo::sweeper<T>(r,pr,&sn); size_t n=1+r.below(3); int d=int(r.range(0,5)); if (n==3) d=std::min(d,4); M x=tmo::random<T,M>(r,pr,swp,n,d); std::string P=K1::name(); std::string is=cat(sn," x=",tmo::str(x)); vf::distinct(cat(sn,n,d,x.number_of_terms(),"f")); auto in=[&]{return is;}; size_t k=r.below(n);
    auto pt=[&]{return tmo::point(r,n);};
    // evaluate on a box of points within the unit box
    { Vector<Bounds<F>> b(n,Bounds<F>(pr)); std::vector<Q> l,u; for (size_t i=0;i<n;++i) { Q a=tmo::unit(r),c=r.coin()?a:tmo::unit(r); if (a>c) std::swap(a,c); l.push_back(a); u.push_back(c); b[i]=Bounds<F>(T::of(a,pr),T::of(c,pr)); } total(P+"evaluate",[&]{ auto v=evaluate(x,b); for (int i=0;i<3;++i) { std::vector<Q> p; for (size_t j=0;j<n;++j) { Q t(r.range(0,8),8); t.canonicalize(); p.push_back(Q(l[j]+(u[j]-l[j])*t)); } Q a=tmo::value(r,tmo::at(x,p)); X vl,vu; if constexpr (IV) { vl=tmo::clo(v); vu=tmo::chi(v); } else { vl=fl::lo(v); vu=fl::hi(v); } ok(P+"evaluate",ref::le(vl,a)&&ref::ge(vu,a),[&]{return cat(is," at ",tmo::pts(p)," gave [",ref::str(vl),",",ref::str(vu),"] misses ",ref::str(a));}); } },in);
      if constexpr (!IV) total(P+"gradient",[&]{ auto g=gradient(x,b); std::vector<Q> p; for (size_t j=0;j<n;++j) { Q t(r.range(0,8),8); t.canonicalize(); p.push_back(Q(l[j]+(u[j]-l[j])*t)); } for (size_t j=0;j<n;++j) { Q s(0); for (auto it=x.begin();it!=x.end();++it) { unsigned e=unsigned(it->index()[j]); if (e) { Q m=ref::q(it->coefficient())*Q(long(e)); for (size_t q=0;q<n;++q) for (unsigned w=0;w<unsigned(it->index()[q])-(q==j?1:0);++w) m*=p[q]; s+=m; } } fl::encloses(P+"gradient",g[j],s,cat(is," at ",tmo::pts(p)," j=",j)); } },in); }
    // integration of any allowed function: polynomial part plus a constant within the error
    { M z=x; total(P+"antiderivative",[&]{ z=antiderivative(x,k); for (int i=0;i<3;++i) { auto p=pt(); Q de=ref::x(x.error().raw()).v; if (r.coin()) de=-de; Q s=de*p[k]; bool hiend=r.coin(); for (auto it=x.begin();it!=x.end();++it) { Q c=hiend?tmo::chi(it->coefficient()).v:tmo::clo(it->coefficient()).v; s+=c*tmo::mono(it->index(),p)*p[k]/Q(long(it->index()[k])+1); } holds(P+"antiderivative",z,p,I(s),cat(is," k=",k)); } },in); }
    // weak derivative: exact for the polynomial part
    total(P+"derivative",[&]{ M z=derivative(x,k); for (int i=0;i<2;++i) { auto p=pt(); Q s(0); for (auto it=x.begin();it!=x.end();++it) { long e=long(it->index()[k]); if (!e) continue; Q m=tmo::clo(it->coefficient()).v*Q(e); for (size_t q=0;q<n;++q) for (long w=0;w<long(it->index()[q])-(q==k?1:0);++w) m*=p[q]; s+=m; } holds(P+"derivative",z,p,I(s),cat(is," k=",k)); } },in);
    // fix one variable
    { Q a=tmo::unit(r),c=r.coin()?a:tmo::unit(r); if (a>c) std::swap(a,c); N b(0,pr); if constexpr (IV) b=N(LowerBound<F>(T::of(a,pr)),UpperBound<F>(T::of(c,pr))); else b=N(T::of(a,pr),T::of(c,pr)); total(P+"partial_evaluate",[&]{ M z=partial_evaluate(x,k,b); for (int i=0;i<3;++i) { auto p=pt(); Q t(r.range(0,8),8); t.canonicalize(); p[k]=Q(a+(c-a)*t); Q v=tmo::value(r,tmo::at(x,p)); auto q=p; q.erase(q.begin()+long(k)); holds(P+"partial_evaluate",z,q,I(v),cat(is," k=",k," c=",ref::str(a),"..",ref::str(c))); } },in); }
    // embed, embed_error, discard, split
    total(P+"embed",[&]{ size_t a=r.below(3),c=r.below(3); M z=embed(a,x,c); auto p=pt(); Q v=tmo::value(r,tmo::at(x,p)); std::vector<Q> q=tmo::point(r,a); q.insert(q.end(),p.begin(),p.end()); auto w=tmo::point(r,c); q.insert(q.end(),w.begin(),w.end()); holds(P+"embed",z,q,I(v),is); },in);
    total(P+"embed_error",[&]{ M z=embed_error(x); auto p=pt(); V v=tmo::at(x,p); bool same=z.argument_size()==n; if (same) { holds(P+"embed_error",z,p,I(v.u),is); return; } V w1,w2; auto q=p; q.push_back(Q(1)); V a=tmo::at(z,q); q.back()=Q(-1); V b=tmo::at(z,q); ok(P+"embed_error",!a.bad&&!b.bad&&ref::qmin(a.l,b.l)<=v.l&&ref::qmax(a.u,b.u)>=v.u,[&]{return cat(is," gave ",tmo::str(z));}); },in);
    { std::vector<size_t> dv; for (size_t i=0;i<n;++i) if (r.coin()) dv.push_back(i); if (!dv.empty()||r.coin(1,3)) { Array<SizeType> A(dv.size()); for (size_t i=0;i<dv.size();++i) A[i]=dv[i]; total(P+"discard_variables",[&]{ M z=discard_variables(x,A); for (int i=0;i<3;++i) { auto p=pt(); Q v=tmo::value(r,tmo::at(x,p)); std::vector<Q> q; for (size_t j=0;j<n;++j) if (std::find(dv.begin(),dv.end(),j)==dv.end()) q.push_back(p[j]); holds(P+"discard_variables",z,q,I(v),cat(is," discarding ",dv.size())); } },in); } }
    total(P+"split",[&]{ auto pr2=split(x,k); M mid=split(x,k,SplitPart::MIDDLE); for (int i=0;i<3;++i) { auto p=pt(); auto q=p; q[k]=Q((p[k]-1)/2); holds(P+"split-lower",pr2.first,p,I(tmo::value(r,tmo::at(x,q))),is); q[k]=Q((p[k]+1)/2); holds(P+"split-upper",pr2.second,p,I(tmo::value(r,tmo::at(x,q))),is); q[k]=Q(p[k]/2); holds(P+"split-middle",mid,p,I(tmo::value(r,tmo::at(x,q))),is); } },in);
    // scaling and unscaling of an interval domain
    { double a=ref::rmod(r,4),b=ref::rmod(r,4); if (r.coin(1,8)) b=a; if (a>b) std::swap(a,b); IntervalDomainType D(FloatDP(ExactDouble(a),dp),FloatDP(ExactDouble(b),dp)); Q qa=ref::q(a),qb=ref::q(b); std::string ds=cat("[",ref::str(qa),",",ref::str(qb),"]"); { long ia=r.range(-64,64),ib=r.range(-64,64); if (ia>ib) std::swap(ia,ib); double sa=double(ia)/16,sb=double(ib)/16; IntervalDomainType E(FloatDP(ExactDouble(sa),dp),FloatDP(ExactDouble(sb),dp)); total(P+"scaling",[&]{ M z=M::scaling(n,k,E,swp); auto p=pt(); holds(P+"scaling",z,p,I(Q((ref::q(sa)+ref::q(sb))/2+(ref::q(sb)-ref::q(sa))/2*p[k])),cat("[",sa,",",sb,"]")); }); IntervalDomainType W(FloatDP(ExactDouble(3e-16),dp),FloatDP(ExactDouble(1.0),dp)); M z=M::scaling(1,0,W,swp); V v=tmo::at(z,{Q(1)}); ok(P+"scaling-of-[3e-16,1]",v.has(Q(1)),[&]{return cat("scaling [-1,1] to [3e-16,1] takes 1 to ",v.str());}); } if (a<b) total(P+"unscale",[&]{ M z=unscale(x,D); M w=compose(Unscaling(D),x); for (int i=0;i<2;++i) { auto p=pt(); Q v=tmo::value(r,tmo::at(x,p)); Q e=(v-(qa+qb)/2)/((qb-qa)/2); holds(P+"unscale",z,p,I(e),cat(is," ",ds)); holds(P+"compose-unscaling",w,p,I(e),cat(is," ",ds)); } },[&]{return cat(is,ds);}); }
    // composition with models that stay in the unit box
    { size_t m=1+r.below(2); Array<M> ga(n,M(m,swp)); std::string gs; for (size_t i=0;i<n;++i) { M g=tmo::random<T,M>(r,pr,swp,m,3,0); X nn=ref::x(g.norm().raw()); long sh=0; if (nn.kind==0) while (nn.v*ref::pow(Q(2),sh)>1) --sh; if (sh) g=g*Bounds<F>(T::of(ref::pow(Q(2),sh),pr)); if (!ref::le(ref::x(g.norm().raw()),Q(1))) g=g*Bounds<F>(T::of(Q(1,2),pr)); ga[i]=g; gs+=" g="+tmo::str(g); } Vector<M> G(ga); total(P+"compose",[&]{ M z=compose(x,G); Vector<M> X2(1,x); Vector<M> zz(0,x); if constexpr (!IV) zz=compose(X2,G); for (int i=0;i<3;++i) { auto p=tmo::point(r,m); std::vector<Q> q; for (size_t j=0;j<n;++j) { Q v=tmo::value(r,tmo::at(G[j],p)); if (v>1) v=1; if (v<-1) v=-1; q.push_back(v); } Q v=tmo::value(r,tmo::at(x,q)); holds(P+"compose",z,p,I(v),is+gs); if constexpr (!IV) holds(P+"compose-vector",zz[0],p,I(v),is+gs); } },[&]{return is+gs;}); }
    // orders on models
    if constexpr (!IV) { M y=x; switch (r.below(4)) { case 0: y=tmo::random<T,M>(r,pr,swp,n,d,2); break; case 1: { M z=tmo::random<T,M>(r,pr,swp,n,d,2); y=x+z*Bounds<F>(T::of(ref::pow(Q(2),-long(r.below(30))),pr)); break; } case 2: { F e=T::of(Q(ref::x(x.error().raw()).v*Q(r.range(1,20),10)),pr); y.set_error(Error<F>(e)); auto p=pt(); if (y.begin()!=y.end()) y.begin()->coefficient()=T::of(Q(ref::q(y.begin()->coefficient())*Q(r.range(60,68),64)),pr); break; } default: y=x+Bounds<F>(T::of(Q(ref::x(x.error().raw()).v*Q(r.range(-30,30),10)),pr)); } std::string js=cat(is," y=",tmo::str(y));
      total(P+"orders",[&]{ bool rf=refines(x,y), cs=consistent(x,y), ic=inconsistent(x,y); ok(P+"consistent-and-inconsistent",!(cs&&ic),[&]{return js;}); ok(P+"refines-self",refines(x,x)||!ref::le(ref::x(x.error().raw()),Q(0))||true,[&]{return js;}); bool dis=false; for (int i=0;i<5;++i) { auto p=pt(); V a=tmo::at(x,p),b=tmo::at(y,p); if (rf) ok(P+"refines",b.l<=a.l&&a.u<=b.u,[&]{return cat(js," at ",tmo::pts(p)," ",a.str()," not in ",b.str());}); if (a.u<b.l||b.u<a.l) dis=true; } if (dis) ok(P+"consistent",!cs,[&]{return js;}); if (ic) { Q s(0); Q e=ref::x(x.error().raw()).v+ref::x(y.error().raw()).v; std::map<std::vector<unsigned>,Q> df; for (auto& w:{&x,&y}) for (auto it=w->begin();it!=w->end();++it) { std::vector<unsigned> ix; for (size_t q=0;q<n;++q) ix.push_back(unsigned(it->index()[q])); df[ix]+=(w==&x?Q(1):Q(-1))*ref::q(it->coefficient()); } for (auto& t:df) s+=ref::abs(t.second); ok(P+"inconsistent",s>e,[&]{return cat(js," every difference is at most ",ref::str(s)," but the errors allow ",ref::str(e));}); } },[&]{return js;});
      total(P+"compare",[&]{ auto lt=x<y; auto gt=x>y; for (int i=0;i<4;++i) { auto p=pt(); Q a=tmo::value(r,tmo::at(x,p)),b=tmo::value(r,tmo::at(y,p)); if (definitely(lt)) ok(P+"<",a<b,[&]{return js;}); if (definitely(gt)) ok(P+">",a>b,[&]{return js;}); } },[&]{return js;});
      // the refinement, judged where the operands differ in one term (see the known finding for the general case)
      if (x.begin()!=x.end()) { M w=x; auto it=w.begin(); for (size_t q=r.below(w.number_of_terms());q>0;--q) ++it; MultiIndex a=MultiIndex(it->index()); Q xc=ref::q(it->coefficient()); Q xe=ref::x(x.error().raw()).v, ye=xe*Q(r.range(2,24),8); F nc=T::of(Q(xc+(xe+ye)*Q(r.range(-7,7),8)),pr); it->coefficient()=nc; w.set_error(Error<F>(T::of(ye,pr))); ye=ref::x(w.error().raw()).v; Q yc=ref::q(nc); Q l=ref::qmax(Q(xc-xe),Q(yc-ye)),u=ref::qmin(Q(xc+xe),Q(yc+ye)); std::string js2=cat(is," y=",tmo::str(w)); if (l<=u) total(P+"refinement",[&]{ M z=refinement(x,w); for (Q const& c:{l,u}) for (int i=0;i<2;++i) { auto p=pt(); Q v=(c-xc)*tmo::mono(a,p); V b=tmo::at(x,p); Q sl=(ref::x(x.norm().raw()).v+ref::x(w.norm().raw()).v)*ref::pow(Q(2),-16); Q t=(b.l+b.u)/2+v; holds(P+"refinement",z,p,I(Q(t-sl),Q(t+sl)),js2); } },[&]{return js2;}); }
      // known finding: x/2+-1/2 and x+-1/8 both allow x+(1-x^2)/10, so 1/10 at 0
      { M t=M::coordinate(1,0,TrivialSweeper<F>(pr)); M u=t*Bounds<F>(T::of(Q(1,2),pr)), v=t; u.set_error(Error<F>(T::of(Q(1,2),pr))); v.set_error(Error<F>(T::of(Q(1,8),pr))); partial(P+"refinement-without-constant-terms",[&]{ M z=refinement(u,v); V a=tmo::at(z,{Q(0)}); ok(P+"refinement-without-constant-terms",a.has(Q(1,10)),[&]{return cat("refinement(x/2+/-1/2,x+/-1/8)=",tmo::str(z)," does not allow 1/10 at 0");}); }); } } }
VF_SCENARIO(fun_dp,5) { functional<fl::TDP,false>(r); }
VF_SCENARIO(fun_mp,3) { functional<fl::TMP,false>(r); }
VF_SCENARIO(fun_idp,1) { functional<fl::TDP,true>(r); }
VF_SCENARIO(fun_imp,1) { functional<fl::TMP,true>(r); }

template<class T,bool IV> static void expression(vf::Rng& r) { using K1=K<T,IV>; using M=typename K1::M; using F=typename T::F; auto pr=prec<T>(r); std::string sn; size_t n=1+r.below(3); auto swp=tmo::sweeper<T>(r,pr,&sn,n>=2||r.coin()); std::vector<I> dom; std::vector<M> xs; std::vector<Q> cc,rr; for (size_t i=0;i<n;++i) { Q c(r.range(-16,16),8),w(r.range(1,16),r.pick({8l,16l,64l})); c.canonicalize(); w.canonicalize(); cc.push_back(c); rr.push_back(w); dom.push_back(I(Q(c-w),Q(c+w))); M x=M::coordinate(n,i,swp); x=x*Bounds<F>(T::of(w,pr))+Bounds<F>(T::of(c,pr)); xs.push_back(x); }
    auto e=mpi::random(r,dom,int(r.range(2,8)),mpi::Allow::but({mpi::ATAN,mpi::ASIN,mpi::ACOS,mpi::MAX,mpi::MIN,mpi::ABS}),0.2,1e3,3); std::string is=cat(sn," ",e.str()," centre ",tmo::pts(cc)," radius ",tmo::pts(rr)); vf::distinct(mpi::shape(e)); std::string P=K1::name()+"expression";
    auto slow=[&](mpi::Op o,M const& m){ Q nn=ref::x(m.norm().raw()).v,rd=ref::x(m.radius().raw()).v,av=ref::abs(ref::q(m.average().raw())); switch (o) { case mpi::REC: case mpi::DIV: case mpi::SQRT: case mpi::LOG: case mpi::POW: if (rd>av*Q(3,4)) throw std::runtime_error("slow"); break; case mpi::EXP: if (nn>5||rd>1) throw std::runtime_error("slow"); break; case mpi::TAN: case mpi::SIN: case mpi::COS: if (nn>12||rd>2) throw std::runtime_error("slow"); break; default: ; } if (m.number_of_terms()>(o>=mpi::REC&&o<=mpi::TAN?60:400)) throw std::runtime_error("slow"); };
    partial(P,[&]{ std::vector<M> w; M zero(n,swp); for (auto const& nd:e.v) { if (nd.op==mpi::DIV) slow(nd.op,w[size_t(nd.b)]); else if (nd.a>=0&&!(nd.op==mpi::POW&&nd.n>=0)) slow(nd.op,w[size_t(nd.a)]); if (nd.op==mpi::TAN) slow(mpi::REC,cos(w[size_t(nd.a)])); switch (nd.op) { case mpi::VAR: w.push_back(xs[size_t(nd.n)]); break; case mpi::CNST: w.push_back(M::constant(n,ValidatedNumber(ref::rational(nd.c)),swp)); break; case mpi::ADD: w.push_back(w[size_t(nd.a)]+w[size_t(nd.b)]); break; case mpi::SUB: w.push_back(w[size_t(nd.a)]-w[size_t(nd.b)]); break; case mpi::MUL: w.push_back(w[size_t(nd.a)]*w[size_t(nd.b)]); break; case mpi::DIV: w.push_back(w[size_t(nd.a)]/w[size_t(nd.b)]); break; case mpi::POW: w.push_back(pow(w[size_t(nd.a)],Int(nd.n))); break; default: w.push_back(mpi::apply1(nd.op,w[size_t(nd.a)])); } }
        for (int i=0;i<5;++i) { auto p=tmo::point(r,n); std::vector<I> q; for (size_t j=0;j<n;++j) q.push_back(I(Q(cc[j]+rr[j]*p[j]))); I v=mpi::eval(e,q); if (!v.bad) holds(P,w.back(),p,v,is); } }); }
VF_SCENARIO(expr_dp,4) { expression<fl::TDP,false>(r); }
VF_SCENARIO(expr_mp,2) { expression<fl::TMP,false>(r); }
VF_SCENARIO(expr_idp,1) { expression<fl::TDP,true>(r); }
