// Scaled function patches and function models (C13): operations on functions over boxes, judged at exact points.
#include "fp.hpp"
#include "function/polynomial.hpp"
#include "algebra/algebra.hpp"
using namespace Ariadne; using vf::ok; using vf::cat; using vf::total; using vf::partial; using ref::Q; using ref::X; using mpi::I; using tmo::V;
template<class T> struct K { using F=typename T::F; using M=TaylorModel<ValidatedTag,F>; using S=ScaledFunctionPatch<M>; using W=VectorScaledFunctionPatch<M>; using N=Bounds<F>; };
template<class T> static typename T::PR prec(vf::Rng& r) { auto pr=T::pr(r); if constexpr (!T::isdp) if (pr.bits()<60) pr=MultiplePrecision(60); return pr; }
template<class T> static typename K<T>::S rnd(vf::Rng& r,typename T::PR pr,Sweeper<typename T::F> const& swp,BoxDomainType const& d,int deg,int e=3) { using M=typename K<T>::M; return typename K<T>::S(d,tmo::random<T,M>(r,pr,swp,d.size(),d.size()?deg:0,e)); }
// a value of f at p; choose(v,s): the same side for every point when s is kept
static Q choose(V const& v,int s) { return s==0?v.l:s==1?v.u:Q((v.l+v.u)/2); }
template<class T> static Bounds<typename T::F> bnd(Q const& a,Q const& b,typename T::PR pr) { return Bounds<typename T::F>(T::of(a,pr),T::of(b,pr)); }

template<class T> static void algebra(vf::Rng& r) { using S=typename K<T>::S; using N=typename K<T>::N; using F=typename T::F; auto pr=prec<T>(r); std::string sn; size_t n=r.below(4); auto swp=tmo::sweeper<T>(r,pr,&sn,n>=2); auto D=fp::box(r,n); S f=rnd<T>(r,pr,swp,D,3), g=rnd<T>(r,pr,swp,D,3); N c=fl::bounds<T>(r,pr,3); Q cl=fl::lo(c).v,ch=fl::hi(c).v; std::string P=cat("FunctionPatch",T::name(),"/"); std::string is=cat(sn," f=",fp::str(f)," g=",fp::str(g)," c=[",ref::str(cl),",",ref::str(ch),"]"); vf::distinct(cat(sn,n,f.model().number_of_terms(),g.model().number_of_terms()));
    auto J=[&](char const* op,auto h,auto q){ total(P+op,[&]{ S z=h(); ok(cat(P,op,"-domain"),z.domain()==D,[&]{return is;}); for (int i=0;i<3;++i) { auto p=fp::point(r,D); Q a=tmo::value(r,fp::at(f,p)),b=tmo::value(r,fp::at(g,p)),k=fp::pick(r,cl,ch); fp::holds(P+op,z,p,I(q(a,b,k)),is); } },[&]{return is;}); }; using C=Q const&;
    J("neg",[&]{return -f;},[](C a,C,C){return Q(-a);}); J("add",[&]{return f+g;},[](C a,C b,C){return Q(a+b);}); J("sub",[&]{return f-g;},[](C a,C b,C){return Q(a-b);}); J("mul",[&]{return f*g;},[](C a,C b,C){return Q(a*b);}); J("sqr",[&]{return sqr(f);},[](C a,C,C){return Q(a*a);}); J("add-scalar",[&]{return f+c;},[](C a,C,C k){return Q(a+k);}); J("sub-scalar",[&]{return f-c;},[](C a,C,C k){return Q(a-k);}); J("scalar-sub",[&]{return c-f;},[](C a,C,C k){return Q(k-a);}); J("mul-scalar",[&]{return f*c;},[](C a,C,C k){return Q(a*k);}); J("scalar-mul",[&]{return c*f;},[](C a,C,C k){return Q(a*k);}); if (cl>0||ch<0) J("div-scalar",[&]{return f/c;},[](C a,C,C k){return Q(a/k);});
    int m=int(r.below(4)); J("pow",[&]{return pow(f,m);},[m](C a,C,C){return ref::pow(a,m);});
    J("+=",[&]{S z=f; z+=g; return z;},[](C a,C b,C){return Q(a+b);}); J("-=",[&]{S z=f; z-=g; return z;},[](C a,C b,C){return Q(a-b);}); J("*=",[&]{S z=f; z*=g; return z;},[](C a,C b,C){return Q(a*b);}); J("*=scalar",[&]{S z=f; z*=c; return z;},[](C a,C,C k){return Q(a*k);}); J("+=scalar",[&]{S z=f; z+=c; return z;},[](C a,C,C k){return Q(a+k);});
    ValidatedNumber w(Rational(1,3)); J("generic-add",[&]{return f+w;},[](C a,C,C){return Q(a+Q(1,3));}); J("generic-mul",[&]{return w*f;},[](C a,C,C){return Q(a*Q(1,3));}); J("generic-sub",[&]{return w-f;},[](C a,C,C){return Q(Q(1,3)-a);}); J("generic-div",[&]{return f/w;},[](C a,C,C){return Q(a*3);});
    J("constant",[&]{return S::constant(D,c,swp);},[](C,C,C k){return k;}); J("generic-constant",[&]{return S::constant(D,w,swp);},[](C,C,C){return Q(1,3);}); J("create_constant",[&]{return f.create_constant(c);},[](C,C,C k){return k;}); J("zero",[&]{return S::zero(D,swp);},[](C,C,C){return Q(0);}); J("create_zero",[&]{return f.create_zero();},[](C,C,C){return Q(0);}); J("assign-number",[&]{S z=f; z=c; return z;},[](C,C,C k){return k;}); J("simplify",[&]{S z=f; z.simplify(); return z;},[](C a,C,C){return a;}); J("simplify-with",[&]{S z=f; z.simplify(tmo::sweeper<T>(r,pr)); return z;},[](C a,C,C){return a;});
    if (n) { size_t k=r.below(n); total(P+"coordinate",[&]{ auto p=fp::point(r,D); fp::holds(P+"coordinate",S::coordinate(D,k,swp),p,I(p[k]),fp::str(D)); fp::holds(P+"projection",S::projection(D,k,swp),p,I(p[k]),fp::str(D)); auto id=S::identity(D,swp); ok(P+"identity-size",id.size()==n,[&]{return is;}); fp::holds(P+"identity",id[k],p,I(p[k]),fp::str(D)); size_t a=r.below(n+1),b=a+r.below(n+1-a); auto pj=S::projection(D,Range(a,b),swp); ok(P+"projection-range-size",pj.result_size()==b-a,[&]{return is;}); for (size_t i=0;i<pj.result_size()&&i<b-a;++i) fp::holds(P+"projection-range",pj[i],p,I(p[a+i]),fp::str(D)); }); }
    // as a generic function on the same domain
    { EffectiveScalarMultivariateFunction e=EffectiveScalarMultivariateFunction::constant(n,Rational(1,7)); ValidatedScalarMultivariateFunction vf1(e); J("function-add",[&]{return f+vf1;},[](C a,C,C){return Q(a+Q(1,7));}); J("function-mul",[&]{return vf1*f;},[](C a,C,C){return Q(a*Q(1,7));}); J("function-sub",[&]{return vf1-f;},[](C a,C,C){return Q(Q(1,7)-a);}); J("function-div",[&]{return f/vf1;},[](C a,C,C){return Q(a*7);}); }
    // bounds
    for (int i=0;i<3;++i) { auto p=fp::point(r,D); V v=fp::at(f,p); total(P+"range",[&]{ auto g2=f.range(); X l=tmo::clo(g2),u=tmo::chi(g2); ok(P+"range",ref::le(l,v.l)&&ref::ge(u,v.u),[&]{return cat(is," range [",ref::str(l),",",ref::str(u),"] misses ",v.str()," at ",tmo::pts(p));}); X nn=ref::x(norm(f).raw()); ok(P+"norm",ref::ge(nn,ref::abs(v.l))&&ref::ge(nn,ref::abs(v.u)),[&]{return is;}); V w2=fp::at(g,p); X ds=ref::x(distance(f,g).raw()); ok(P+"distance",ref::ge(ds,ref::abs(Q(v.l-w2.u)))&&ref::ge(ds,ref::abs(Q(v.u-w2.l))),[&]{return cat(is," distance ",ref::str(ds)," at ",tmo::pts(p));}); },[&]{return is;}); }
    if (n>=1&&n<=2) total(P+"polynomial",[&]{ auto pl=f.polynomial(); for (int i=0;i<2;++i) { auto p=fp::point(r,D); V v=fp::at(f,p); Q l(0),u(0); bool inf=false; for (auto it=pl.begin();it!=pl.end();++it) { Q k=tmo::mono(it->index(),p); X a=fl::lo(it->coefficient()),b=fl::hi(it->coefficient()); if (a.kind||b.kind) { inf=true; break; } if (k>=0) { l+=a.v*k; u+=b.v*k; } else { l+=b.v*k; u+=a.v*k; } } if (!inf) ok(P+"polynomial",l<=v.l&&v.u<=u,[&]{return cat(is," polynomial gives [",ref::str(l),",",ref::str(u),"] at ",tmo::pts(p)," where ",v.str()," is allowed");}); } },[&]{return is;}); }
VF_SCENARIO(algebra_dp,4) { algebra<fl::TDP>(r); }

template<class T> static void domains(vf::Rng& r) { using S=typename K<T>::S; using W=typename K<T>::W; using N=typename K<T>::N; using F=typename T::F; auto pr=prec<T>(r); std::string sn; size_t n=1+r.below(3); auto swp=tmo::sweeper<T>(r,pr,&sn,n>=2); auto D=fp::box(r,n); int d=int(r.range(0,4)); S f=rnd<T>(r,pr,swp,D,d), g=rnd<T>(r,pr,swp,D,d); W w({f,g}); size_t k=r.below(n); std::string P=cat("FunctionPatch",T::name(),"/"); std::string is=cat(sn," f=",fp::str(f)," k=",k); vf::distinct(cat("dom",sn,n,d,f.model().number_of_terms(),k)); auto in=[&]{return is;}; auto js=cat(is," g=",fp::str(g));
    auto same=[&](std::string key,S const& z,std::vector<Q> const& p,S const& f0,std::vector<Q> const& q){ for (int s=0;s<2;++s) fp::holds(key,z,p,I(choose(fp::at(f0,q),s)),js); };
    // restriction
    { auto E=fp::sub(r,D); total(P+"restriction",[&]{ S z=restriction(f,E); S y=f; y.restrict(E); W v=restriction(w,E); W v2=w; v2.restrict(E); S q=partial_restriction(f,k,E[k]); W q2=partial_restriction(w,k,E[k]); ok(P+"restriction-domain",z.domain()==E&&y.domain()==E&&v.domain()==E&&v2.domain()==E,[&]{return cat(is," to ",fp::str(E));}); auto D2=D; D2[k]=E[k]; ok(P+"partial_restriction-domain",q.domain()==D2&&q2.domain()==D2,in); for (int i=0;i<3;++i) { auto p=fp::point(r,E); same(P+"restriction",z,p,f,p); same(P+"restrict",y,p,f,p); same(P+"vector-restriction",v[1],p,g,p); same(P+"vector-restrict",v2[0],p,f,p); auto p2=fp::point(r,D2); same(P+"partial_restriction",q,p2,f,p2); same(P+"vector-partial_restriction",q2[1],p2,g,p2); } },[&]{return cat(is," to ",fp::str(E));}); }
    // a domain which is not a subset must be refused
    { auto E=D; FloatDP u=D[k].upper_bound(); E[k]=IntervalDomainType(D[k].lower_bound(),FloatDP(ExactDouble(u.get_d()+0.0625),dp)); bool refused=false; try { S z=restriction(f,E); } catch (std::exception const&) { refused=true; } ok(P+"restriction-outside-refused",refused,[&]{return cat(is," to ",fp::str(E));}); }
    // embedding
    { auto A=fp::box(r,r.below(3)),B=fp::box(r,r.below(3)); total(P+"embed",[&]{ S z=embed(A,f,B); W v=embed(A,w,B); W v2=embed(w,B); W v3=embed(A,w); auto p=fp::point(r,D); auto a=fp::point(r,A),b=fp::point(r,B); std::vector<Q> q=a; q.insert(q.end(),p.begin(),p.end()); auto q3=q; q.insert(q.end(),b.begin(),b.end()); auto q2=p; q2.insert(q2.end(),b.begin(),b.end()); same(P+"embed",z,q,f,p); same(P+"vector-embed",v[1],q,g,p); same(P+"vector-embed-right",v2[0],q2,f,p); same(P+"vector-embed-left",v3[1],q3,g,p); if (B.size()) { W v4=embed(w,B[0]); auto q4=p; q4.push_back(b[0]); same(P+"vector-embed-interval",v4[0],q4,f,p); } },in); }
    // split
    total(P+"split",[&]{ auto s=split(f,k); auto p=fp::point(r,s.first.domain()); same(P+"split-first",s.first,p,f,p); p=fp::point(r,s.second.domain()); same(P+"split-second",s.second,p,f,p); bool cover=fp::lo(s.first.domain()[k])==fp::lo(D[k])&&fp::hi(s.second.domain()[k])==fp::hi(D[k])&&fp::hi(s.first.domain()[k])>=fp::lo(s.second.domain()[k]); ok(P+"split-covers",cover,in); },in);
    // fixing a variable
    { Q l=fp::lo(D[k]),h=fp::hi(D[k]); Q a=fp::pick(r,l,h),b=r.coin()?a:fp::pick(r,l,h); if (a>b) std::swap(a,b); auto cs=cat(js," c=[",ref::str(a),",",ref::str(b),"]"); N c=bnd<T>(a,b,pr); if constexpr (T::isdp) total(P+"partial_evaluate",[&]{ S z=partial_evaluate(f,k,c); W v=partial_evaluate(w,k,c); ok(P+"partial_evaluate-size",z.argument_size()==n-1&&v.argument_size()==n-1,in); for (int i=0;i<2;++i) { auto p=fp::point(r,D); p[k]=fp::pick(r,a,b); auto q=p; q.erase(q.begin()+long(k)); same(P+"partial_evaluate",z,q,f,p); same(P+"vector-partial_evaluate",v[1],q,g,p); } S zg=partial_evaluate(f,k,ValidatedNumber(ref::rational(a))); auto p=fp::point(r,D); p[k]=a; auto q=p; q.erase(q.begin()+long(k)); same(P+"partial_evaluate-generic",zg,q,f,p); },[&]{return cs;}); }
    // evaluation
    { Vector<N> b(n,N(pr)); std::vector<Q> l,u; for (size_t i=0;i<n;++i) { Q a=fp::pick(r,fp::lo(D[i]),fp::hi(D[i])),c=r.coin()?a:fp::pick(r,fp::lo(D[i]),fp::hi(D[i])); if (a>c) std::swap(a,c); l.push_back(a); u.push_back(c); b[i]=bnd<T>(a,c,pr); } total(P+"evaluate",[&]{ N v=f(b), v1=v, v2=unchecked_evaluate(f,b); auto vv=w(b); auto ve=vv; if constexpr (T::isdp) { v1=evaluate(f,b); ve=evaluate(w,b); } for (int i=0;i<3;++i) { std::vector<Q> p; for (size_t j=0;j<n;++j) p.push_back(fp::pick(r,l[j],u[j])); Q a=tmo::value(r,fp::at(f,p)),e=tmo::value(r,fp::at(g,p)); auto ps=cat(js," at ",tmo::pts(p)); fl::encloses(P+"call",v,a,ps); fl::encloses(P+"evaluate",v1,a,ps); fl::encloses(P+"unchecked_evaluate",v2,a,ps); fl::encloses(P+"vector-call",vv[1],e,ps); fl::encloses(P+"vector-evaluate",ve[0],a,ps); } auto Jm=w.jacobian(b); auto p=std::vector<Q>(); for (size_t j=0;j<n;++j) p.push_back(fp::pick(r,l[j],u[j])); auto x=fp::unscale(D,p); for (size_t o=0;o<2;++o) for (size_t j=0;j<n;++j) { Q s(0); auto const& m=w.model(o); for (auto it=m.begin();it!=m.end();++it) { long e=long(it->index()[j]); if (e) { Q t=ref::q(it->coefficient())*Q(e); for (size_t q=0;q<n;++q) for (long y=0;y<long(it->index()[q])-(q==j?1:0);++y) t*=x[q]; s+=t; } } s/=(fp::hi(D[j])-fp::lo(D[j]))/2; fl::encloses(P+"jacobian",Jm[o][j],s,cat(js," ",o,",",j)); } },[&]{return js;});
      Vector<F> xs(n,T::of(Q(0),pr)); for (size_t i=0;i<n;++i) xs[i]=T::of(l[i],pr); Vector<Approximation<F>> xa(n,Approximation<F>(0,pr)); for (size_t i=0;i<n;++i) xa[i]=Approximation<F>(xs[i]); bool rep=true; for (size_t i=0;i<n;++i) rep=rep&&ref::q(xs[i])==l[i]; if (rep) total(P+"evaluate-exact",[&]{ N v=f(xs); fl::encloses(P+"call-exact",v,tmo::value(r,fp::at(f,l)),is); Vector<ValidatedNumber> y(n,ValidatedNumber(0)); for (size_t i=0;i<n;++i) y[i]=ValidatedNumber(ref::rational(l[i])); if constexpr (T::isdp) { N vg=evaluate(f,y); fl::encloses(P+"evaluate-generic",vg,tmo::value(r,fp::at(f,l)),is); } },[&]{return js;});
      // outside the domain
      Vector<N> bo=b; bo[k]=bnd<T>(Q(fp::hi(D[k])+Q(1,16)),Q(fp::hi(D[k])+Q(1,8)),pr); bool refused=!T::isdp; if constexpr (T::isdp) try { evaluate(f,bo); } catch (std::exception const&) { refused=true; } ok(P+"evaluate-outside-refused",refused,in); }
    // integration: f is any polynomial within its error; take the polynomial shifted by a constant
    { Q l=fp::lo(D[k]),h=fp::hi(D[k]); Q a=fp::pick(r,l,h); Q rad=(h-l)/2; auto prim=[&](S const& q,std::vector<Q> const& p,Q const& sh){ auto x=fp::unscale(D,p); Q s=sh*x[k]; for (auto it=q.model().begin();it!=q.model().end();++it) s+=ref::q(it->coefficient())*tmo::mono(it->index(),x)*x[k]/Q(long(it->index()[k])+1); return Q(s*rad); }; total(P+"antiderivative",[&]{ S z=antiderivative(f,k); W v=antiderivative(w,k); S zc=z,zg=z; W vc=v; if constexpr (T::isdp) { zc=antiderivative(f,k,bnd<T>(a,a,pr)); zg=antiderivative(f,k,ValidatedNumber(ref::rational(a))); vc=antiderivative(w,k,bnd<T>(a,a,pr)); } for (int i=0;i<3;++i) { auto p=fp::point(r,D); auto pa=p; pa[k]=a; auto pb=fp::point(r,D); auto p2=p; p2[k]=pb[k]; Q ef=ref::x(f.model().error().raw()).v*Q(r.range(-1,1)),eg=ref::x(g.model().error().raw()).v*Q(r.range(-1,1)); // the undetermined constant: differences along k only
            V v1=fp::at(z,p),v2=fp::at(z,p2); Q df=prim(f,p,ef)-prim(f,p2,ef); ok(P+"antiderivative",v1.all||v2.all||(!v1.bad&&!v2.bad&&v1.l-v2.u<=df&&df<=v1.u-v2.l),[&]{return cat(is," gave ",fp::str(z));}); V u1=fp::at(v[1],p),u2=fp::at(v[1],p2); Q dg=prim(g,p,eg)-prim(g,p2,eg); ok(P+"vector-antiderivative",u1.all||u2.all||(!u1.bad&&!u2.bad&&u1.l-u2.u<=dg&&dg<=u1.u-u2.l),[&]{return js;}); if constexpr (T::isdp) { fp::holds(P+"antiderivative-from",zc,p,I(Q(prim(f,p,ef)-prim(f,pa,ef))),cat(is," c=",ref::str(a))); fp::holds(P+"antiderivative-from-generic",zg,p,I(Q(prim(f,p,ef)-prim(f,pa,ef))),cat(is," c=",ref::str(a))); fp::holds(P+"vector-antiderivative-from",vc[1],p,I(Q(prim(g,p,eg)-prim(g,pa,eg))),cat(js," c=",ref::str(a))); } } },in);
      total(P+"derivative",[&]{ S z=derivative(f,k); W v=derivative(w,k); auto p=fp::point(r,D); auto x=fp::unscale(D,p); for (int o=0;o<2;++o) { auto const& m=o?g.model():f.model(); Q s(0); for (auto it=m.begin();it!=m.end();++it) { long e=long(it->index()[k]); if (!e) continue; Q t=ref::q(it->coefficient())*Q(e); for (size_t q=0;q<n;++q) for (long y=0;y<long(it->index()[q])-(q==k?1:0);++y) t*=x[q]; s+=t; } s/=rad; if (!o) fp::holds(P+"derivative",z,p,I(s),is); fp::holds(P+"vector-derivative",v[size_t(o)],p,I(s),js); } },in); }
    // order
    { S y=f; switch (r.below(3)) { case 0: y=g; break; case 1: { Q e=ref::x(f.model().error().raw()).v; y.set_error(Error<F>(T::of(Q(e*Q(r.range(0,30),10)),pr))); break; } default: y=f+bnd<T>(Q(r.range(-8,8),64),Q(r.range(8,12),64),pr); } auto E=fp::sub(r,D); S fr=f, yr=y; bool sub=false; try { if (r.coin()) yr=restriction(y,E); if (r.coin(1,3)) fr=restriction(f,E); } catch (std::exception const&) { return; } (void)sub; total(P+"refines",[&]{ bool rf=refines(fr,yr); bool ic=inconsistent(fr,yr); if (rf) { bool ds=true; for (size_t i=0;i<n;++i) ds=ds&&fp::lo(fr.domain()[i])<=fp::lo(yr.domain()[i])&&fp::hi(fr.domain()[i])>=fp::hi(yr.domain()[i]); ok(P+"refines-domain",ds,in); if (ds) for (int i=0;i<3;++i) { auto p=fp::point(r,yr.domain()); V a=fp::at(fr,p),b=fp::at(yr,p); // the restriction is rounded outwards, so refines is never too generous
            ok(P+"refines",b.l<=a.l&&a.u<=b.u,[&]{return cat(is," y=",fp::str(yr)," at ",tmo::pts(p)," ",a.str()," not in ",b.str());}); } } if (ic) { BoxDomainType ib=intersection(fr.domain(),yr.domain()); bool meet=true; for (int i=0;i<6;++i) { auto p=fp::point(r,ib); V a=fp::at(fr,p),b=fp::at(yr,p); if (a.u<b.l||b.u<a.l) meet=false; } (void)meet; if (&fr&&fp::str(fr)==fp::str(f)&&yr.domain()==D) { Q e=ref::x(fr.model().error().raw()).v+ref::x(yr.model().error().raw()).v; std::map<std::vector<unsigned>,Q> df; for (auto* q:{&fr,&yr}) for (auto it=q->model().begin();it!=q->model().end();++it) { std::vector<unsigned> ix; for (size_t t=0;t<n;++t) ix.push_back(unsigned(it->index()[t])); df[ix]+=(q==&fr?Q(1):Q(-1))*ref::q(it->coefficient()); } Q s(0); for (auto& t:df) s+=ref::abs(t.second); ok(P+"inconsistent",s>e,in); } } },in); } }
VF_SCENARIO(domains_dp,5) { domains<fl::TDP>(r); }

template<class T> static void vectors(vf::Rng& r) { using S=typename K<T>::S; using W=typename K<T>::W; using N=typename K<T>::N; auto pr=prec<T>(r); std::string sn; size_t n=1+r.below(2); auto swp=tmo::sweeper<T>(r,pr,&sn,n>=2); auto D=fp::box(r,n),E=fp::box(r,1+r.below(2)); S f=rnd<T>(r,pr,swp,D,2),g=rnd<T>(r,pr,swp,D,2),h=rnd<T>(r,pr,swp,D,2),e1=rnd<T>(r,pr,swp,E,2),e2=rnd<T>(r,pr,swp,E,2); std::string P=cat("VectorFunctionPatch",T::name(),"/"); std::string is=cat(sn," f=",fp::str(f)," g=",fp::str(g)," h=",fp::str(h)); vf::distinct(cat("vec",sn,n,f.model().number_of_terms(),g.model().number_of_terms(),E.size())); auto in=[&]{return is;}; W v({f,g}),w({g,h}); N c=fl::bounds<T>(r,pr,3); Q cl=fl::lo(c).v,ch=fl::hi(c).v;
    auto J=[&](char const* op,auto mk,auto q){ total(P+op,[&]{ W z=mk(); for (int i=0;i<2;++i) { auto p=fp::point(r,D); Q a=tmo::value(r,fp::at(f,p)),b=tmo::value(r,fp::at(g,p)),x=tmo::value(r,fp::at(h,p)),k=fp::pick(r,cl,ch); auto ex=q(a,b,x,k); if (!ok(cat(P,op,"-size"),z.result_size()==ex.size(),in)) return; for (size_t j=0;j<ex.size();++j) fp::holds(P+op,z[j],p,I(ex[j]),cat(is," ",j)); } },in); }; using C=Q const&; using VQ=std::vector<Q>;
    J("join-ss",[&]{return join(f,g);},[](C a,C b,C,C){return VQ{a,b};}); J("join-sv",[&]{return join(h,v);},[](C a,C b,C x,C){return VQ{x,a,b};}); J("join-vs",[&]{return join(v,h);},[](C a,C b,C x,C){return VQ{a,b,x};}); J("join-vv",[&]{return join(v,w);},[](C a,C b,C x,C){return VQ{a,b,b,x};}); J("adjoin",[&]{W z=v; z.adjoin(h); return z;},[](C a,C b,C x,C){return VQ{a,b,x};}); J("set",[&]{W z=v; z.set(0,h); return z;},[](C,C b,C x,C){return VQ{x,b};}); J("element-assign",[&]{W z=v; z[1]=h; return z;},[](C a,C,C x,C){return VQ{a,x};}); J("element-swap",[&]{W z=v; S t=z.get(0); z[0]=z[1]; z[1]=t; return z;},[](C a,C b,C,C){return VQ{b,a};});
    J("add",[&]{return v+w;},[](C a,C b,C x,C){return VQ{Q(a+b),Q(b+x)};}); J("sub",[&]{return v-w;},[](C a,C b,C x,C){return VQ{Q(a-b),Q(b-x)};}); J("neg",[&]{return -v;},[](C a,C b,C,C){return VQ{Q(-a),Q(-b)};}); J("pos",[&]{return +v;},[](C a,C b,C,C){return VQ{a,b};}); J("scalar-mul",[&]{return c*v;},[](C a,C b,C,C k){return VQ{Q(k*a),Q(k*b)};}); J("mul-scalar",[&]{return v*c;},[](C a,C b,C,C k){return VQ{Q(k*a),Q(k*b)};}); J("function-mul",[&]{return h*v;},[](C a,C b,C x,C){return VQ{Q(x*a),Q(x*b)};}); J("mul-function",[&]{return v*h;},[](C a,C b,C x,C){return VQ{Q(x*a),Q(x*b)};}); if (cl>0||ch<0) { J("div-scalar",[&]{return v/c;},[](C a,C b,C,C k){return VQ{Q(a/k),Q(b/k)};}); J("/=",[&]{W z=v; z/=c; return z;},[](C a,C b,C,C k){return VQ{Q(a/k),Q(b/k)};}); }
    J("+=",[&]{W z=v; z+=w; return z;},[](C a,C b,C x,C){return VQ{Q(a+b),Q(b+x)};}); J("-=",[&]{W z=v; z-=w; return z;},[](C a,C b,C x,C){return VQ{Q(a-b),Q(b-x)};}); J("*=",[&]{W z=v; z*=c; return z;},[](C a,C b,C,C k){return VQ{Q(a*k),Q(b*k)};});
    { Vector<N> cv(2,N(pr)); cv[0]=c; cv[1]=-c; J("add-vector",[&]{return v+cv;},[](C a,C b,C,C k){return VQ{Q(a+k),Q(b-k)};}); J("sub-vector",[&]{return v-cv;},[](C a,C b,C,C k){return VQ{Q(a-k),Q(b+k)};}); J("+=vector",[&]{W z=v; z+=cv; return z;},[](C a,C b,C,C k){return VQ{Q(a+k),Q(b-k)};}); J("-=vector",[&]{W z=v; z-=cv; return z;},[](C a,C b,C,C k){return VQ{Q(a-k),Q(b+k)};}); Matrix<N> A(3,2,N(pr)); A[0][0]=N(1,pr); A[1][1]=c; A[2][0]=N(-2,pr); A[2][1]=N(3,pr); J("matrix-mul",[&]{return A*v;},[](C a,C b,C,C k){return VQ{a,Q(k*b),Q(3*b-2*a)};}); }
    // combine: functions of independent arguments
    total(P+"combine",[&]{ W ev({e1,e2}); W z1=combine(f,e1),z2=combine(v,ev),z3=combine(f,ev),z4=combine(v,e1); auto p=fp::point(r,D),q=fp::point(r,E); auto pq=p; pq.insert(pq.end(),q.begin(),q.end()); auto ck=[&](char const* nm,W const& z,std::vector<std::pair<S const*,bool>> ex){ if (!ok(cat(P,nm,"-size"),z.result_size()==ex.size()&&z.argument_size()==n+E.size(),in)) return; for (size_t j=0;j<ex.size();++j) for (int s=0;s<2;++s) fp::holds(P+nm,z[j],pq,I(choose(fp::at(*ex[j].first,ex[j].second?q:p),s)),cat(is," e1=",fp::str(e1)," e2=",fp::str(e2)," ",j)); }; ck("combine-ss",z1,{{&f,false},{&e1,true}}); ck("combine-vv",z2,{{&f,false},{&g,false},{&e1,true},{&e2,true}}); ck("combine-sv",z3,{{&f,false},{&e1,true},{&e2,true}}); ck("combine-vs",z4,{{&f,false},{&g,false},{&e1,true}}); },in);
    total(P+"range",[&]{ auto rg=v.range(); X nn=ref::x(norm(v).raw()); auto cd=v.codomain(); for (int i=0;i<3;++i) { auto p=fp::point(r,D); for (size_t j=0;j<2;++j) { V a=fp::at(v[j],p); ok(P+"range",ref::le(tmo::clo(rg[j]),a.l)&&ref::ge(tmo::chi(rg[j]),a.u),in); ok(P+"codomain",ref::le(ref::x(cd[j].lower_bound().raw()),a.l)&&ref::ge(ref::x(cd[j].upper_bound().raw()),a.u),in); ok(P+"norm",ref::ge(nn,ref::abs(a.l))&&ref::ge(nn,ref::abs(a.u)),in); } } },in);
    // composition of patches: an outer patch over a box holding the range
    total(P+"compose",[&]{ auto rg=v.range(); Array<IntervalDomainType> ob(2,IntervalDomainType()); for (size_t j=0;j<2;++j) { double l=tmo::clo(rg[j]).v.get_d(),u=tmo::chi(rg[j]).v.get_d(); if (!(std::fabs(l)<1000&&std::fabs(u)<1000)) return; ob[j]=IntervalDomainType(FloatDP(ExactDouble(std::floor(l*16-1)/16),dp),FloatDP(ExactDouble(std::ceil(u*16+1)/16),dp)); } BoxDomainType O{Vector<IntervalDomainType>(ob)}; S o1=rnd<T>(r,pr,swp,O,3),o2=rnd<T>(r,pr,swp,O,2); W ov({o1,o2}); auto os=cat(is," outer ",fp::str(o1),fp::str(o2)); S z=compose(o1,v); W zv=compose(ov,v); S zu=unchecked_compose(o1,v); for (int i=0;i<3;++i) { auto p=fp::point(r,D); std::vector<Q> q; for (size_t j=0;j<2;++j) q.push_back(tmo::value(r,fp::at(v[j],p))); Q a=tmo::value(r,fp::at(o1,q)),b=tmo::value(r,fp::at(o2,q)); fp::holds(P+"compose",z,p,I(a),os); fp::holds(P+"unchecked_compose",zu,p,I(a),os); fp::holds(P+"compose-vector",zv[1],p,I(b),os); }
        // an outer patch which does not hold the range must be refused
        if (fp::hi(O[0])-fp::lo(O[0])>1) { auto O2=O; O2[0]=IntervalDomainType(O[0].lower_bound(),FloatDP(ExactDouble((O[0].lower_bound().get_d()+O[0].upper_bound().get_d())/2-0.5),dp)); if (fp::lo(O2[0])<fp::hi(O2[0])) { S o3=rnd<T>(r,pr,swp,O2,2); bool sup=false; for (int i=0;i<4;++i) { V a=fp::at(f,fp::point(r,D)); if (a.u>fp::hi(O2[0])) sup=true; } if (sup) { bool refused=false; try { compose(o3,v); } catch (std::exception const&) { refused=true; } ok(P+"compose-outside-refused",refused,[&]{return os;}); } } } },in); }
VF_SCENARIO(vectors_dp,4) { vectors<fl::TDP>(r); }

// patches built from, and composed with, symbolic functions; and type-erased models
template<class T> static void generic(vf::Rng& r) { using S=typename K<T>::S; using W=typename K<T>::W; using M=typename K<T>::M; using N=typename K<T>::N; auto pr=prec<T>(r); std::string sn; size_t n=1+r.below(2); auto swp=tmo::sweeper<T>(r,pr,&sn,true); auto D=fp::box(r,n,16); std::vector<I> dom; for (size_t i=0;i<n;++i) dom.push_back(I(fp::lo(D[i]),fp::hi(D[i]))); auto e=mpi::random(r,dom,int(r.range(1,6)),mpi::Allow::but({mpi::ATAN,mpi::ASIN,mpi::ACOS,mpi::MAX,mpi::MIN,mpi::ABS,mpi::TAN,mpi::EXP,mpi::LOG,mpi::SQRT}),0.3,100,3); std::string is=cat(sn," ",e.str()," on ",fp::str(D)); vf::distinct(mpi::shape(e)); std::string P=cat("FunctionPatch",T::name(),"/");
    std::vector<EffectiveScalarMultivariateFunction> xs; for (size_t i=0;i<n;++i) xs.push_back(EffectiveScalarMultivariateFunction::coordinate(n,i)); EffectiveScalarMultivariateFunction ef=mpi::build(e,xs,[&](Q const& q){return EffectiveScalarMultivariateFunction::constant(n,EffectiveNumber(ref::rational(q)));}); ValidatedScalarMultivariateFunction vfn(ef); ValidatedVectorMultivariateFunction vv(EffectiveVectorMultivariateFunction({ef,xs[0]}));
    auto cheap=[&](std::vector<M> const& ms,size_t na){ try { mpi::build(e,ms,[&](Q const& q){return M::constant(na,ValidatedNumber(ref::rational(q)),swp);},[&](mpi::Op o,M const& m){ Q nn=ref::x(m.norm().raw()).v,rd=ref::x(m.radius().raw()).v,av=ref::abs(ref::q(m.average().raw())); if ((o==mpi::REC||o==mpi::DIV||o==mpi::POW)&&rd>av*Q(3,4)) throw std::runtime_error("slow"); if ((o==mpi::SIN||o==mpi::COS)&&(nn>12||rd>2)) throw std::runtime_error("slow"); if (m.number_of_terms()>60) throw std::runtime_error("slow"); }); return true; } catch (std::exception const&) { vf::note("slow"); return false; } };   // guard against expensive remainders
    { std::vector<M> ms; auto id=S::identity(D,swp); for (size_t i=0;i<n;++i) ms.push_back(id.model(i)); if (!cheap(ms,n)) return; }
    auto val=[&](std::vector<Q> const& p){ std::vector<I> q; for (auto& x:p) q.push_back(I(x)); return mpi::eval(e,q); };
    partial(P+"from-function",[&]{ S f(D,vfn,swp); W w(D,vv,swp); for (int i=0;i<3;++i) { auto p=fp::point(r,D); I v=val(p); if (v.bad) continue; fp::holds(P+"from-function",f,p,v,is); fp::holds(P+"from-vector-function",w[0],p,v,is); fp::holds(P+"from-vector-function-coordinate",w[1],p,I(p[0]),is); } });
    // inner patches staying in D
    { auto E=fp::box(r,1+r.below(2),16); std::vector<S> in; std::string gs; bool good=true; for (size_t i=0;i<n;++i) { S g=rnd<T>(r,pr,swp,E,2,0); Q nn=ref::x(norm(g).raw()).v; Q c=(fp::lo(D[i])+fp::hi(D[i]))/2,w=(fp::hi(D[i])-fp::lo(D[i]))/2; long sh=0; while (nn*ref::pow(Q(2),sh)>w/2) --sh; g=g*bnd<T>(ref::pow(Q(2),sh),ref::pow(Q(2),sh),pr)+bnd<T>(c,c,pr); X l=tmo::clo(g.range()),u=tmo::chi(g.range()); good=good&&ref::ge(l,fp::lo(D[i]))&&ref::le(u,fp::hi(D[i])); in.push_back(g); gs+=" inner "+fp::str(g); } std::vector<M> gm; for (auto& g:in) gm.push_back(g.model()); if (good&&cheap(gm,E.size())) { W w=n==1?W({in[0]}):W({in[0],in[1]}); partial(P+"compose-function",[&]{ S z=compose(vfn,w); W zv=compose(vv,w); for (int i=0;i<3;++i) { auto p=fp::point(r,E); std::vector<Q> q; for (size_t j=0;j<n;++j) q.push_back(tmo::value(r,fp::at(in[j],p))); I v=val(q); if (v.bad) continue; fp::holds(P+"compose-function",z,p,v,is+gs); fp::holds(P+"compose-vector-function",zv[0],p,v,is+gs); fp::holds(P+"compose-vector-function-coordinate",zv[1],p,I(q[0]),is+gs); } }); } }
    // the same through type-erased function models and patches
    if constexpr (T::isdp) { S f=rnd<T>(r,pr,swp,D,2),g=rnd<T>(r,pr,swp,D,2); using FM=ValidatedScalarMultivariateFunctionModelDP; using VM=ValidatedVectorMultivariateFunctionModelDP; using FP=ValidatedScalarMultivariateFunctionPatch; std::string Q_="FunctionModel/"; auto js=cat(sn," f=",fp::str(f)," g=",fp::str(g)); auto in=[&]{return js;}; using C=Q const&; size_t k=r.below(n);
      auto J=[&](char const* op,auto mk,auto q){ total(Q_+op,[&]{ FM z=mk(); S s(z); for (int i=0;i<2;++i) { auto p=fp::point(r,D); Q a=tmo::value(r,fp::at(f,p)),b=tmo::value(r,fp::at(g,p)); fp::holds(Q_+op,s,p,I(q(a,b)),js); } },in); };
      FM mf(f),mg(g); J("add",[&]{return FM(mf+mg);},[](C a,C b){return Q(a+b);}); J("sub",[&]{return FM(mf-mg);},[](C a,C b){return Q(a-b);}); J("mul",[&]{return FM(mf*mg);},[](C a,C b){return Q(a*b);}); J("neg",[&]{return FM(-mf);},[](C a,C){return Q(-a);}); J("sqr",[&]{return FM(sqr(mf));},[](C a,C){return Q(a*a);}); ValidatedNumber th(Rational(1,3)); J("add-number",[&]{return FM(mf+th);},[](C a,C){return Q(a+Q(1,3));}); J("number-mul",[&]{return FM(th*mf);},[](C a,C){return Q(a*Q(1,3));}); J("+=",[&]{FM z=mf; z+=mg; return z;},[](C a,C b){return Q(a+b);}); J("*=number",[&]{FM z=mf; z*=th; return z;},[](C a,C){return Q(a*Q(1,3));}); J("copy-independent",[&]{FM z=mf; FM y=z; z+=mg; return y;},[](C a,C){return a;});
      auto JP=[&](char const* op,auto mk,auto q){ total("GenericFunctionPatch/"+std::string(op),[&]{ FP z=mk(); for (int i=0;i<2;++i) { auto p=fp::point(r,D); Q a=tmo::value(r,fp::at(f,p)),b=tmo::value(r,fp::at(g,p)); Vector<FloatDPBounds> x(n,FloatDPBounds(dp)); for (size_t j=0;j<n;++j) x[j]=FloatDPBounds(Rational(ref::rational(p[j])),dp); FloatDPBounds v=unchecked_evaluate(z,x); fl::encloses("GenericFunctionPatch/"+std::string(op),v,q(a,b),js); } },in); }; FP pf(f),pg(g); JP("add",[&]{return pf+pg;},[](C a,C b){return Q(a+b);}); JP("sub",[&]{return pf-pg;},[](C a,C b){return Q(a-b);}); JP("mul",[&]{return pf*pg;},[](C a,C b){return Q(a*b);}); JP("number-mul",[&]{return th*pf;},[](C a,C){return Q(a*Q(1,3));}); JP("sub-number",[&]{return pf-th;},[](C a,C){return Q(a-Q(1,3));});
      total(Q_+"operations",[&]{ auto E=fp::sub(r,D); S z(restriction(mf,E)); auto p=fp::point(r,E); fp::holds(Q_+"restriction",z,p,I(tmo::value(r,fp::at(f,p))),js); VM jn=join(mf,mg); W jw(jn); p=fp::point(r,D); fp::holds(Q_+"join",jw[1],p,I(tmo::value(r,fp::at(g,p))),js); VM cb=combine(VM(1u,mf),VM(1u,mg)); W cw(cb); auto q=fp::point(r,D); auto pq=p; pq.insert(pq.end(),q.begin(),q.end()); fp::holds(Q_+"combine",cw[1],pq,I(tmo::value(r,fp::at(g,q))),js); Q a=fp::pick(r,fp::lo(D[k]),fp::hi(D[k])); FloatDPBounds ab(Rational(ref::rational(a)),dp); S pe(partial_evaluate(mf,k,ab)); auto pa=p; pa[k]=a; auto pd=pa; pd.erase(pd.begin()+long(k)); fp::holds(Q_+"partial_evaluate",pe,pd,I(tmo::value(r,fp::at(f,pa))),js); S em(embed(mf,E)); auto qe=fp::point(r,E); auto pe2=p; pe2.insert(pe2.end(),qe.begin(),qe.end()); fp::holds(Q_+"embed",em,pe2,I(tmo::value(r,fp::at(f,p))),js); },in); } }
VF_SCENARIO(generic_dp,4) { generic<fl::TDP>(r); }
