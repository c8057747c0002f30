// Exact number types against GMP rationals.
#include "ref.hpp"
using namespace Ariadne;
using ref::Q; using ref::Z; using vf::ok; using vf::cat; using vf::total;

static std::string S(Q const& a) { return ref::str(a); }
template<class T> static std::string out(T const& t) { std::ostringstream os; os << t; return os.str(); }
static Comparison sgn_cmp(Q const& a, Q const& b) { return a<b ? Comparison::LESS : a>b ? Comparison::GREATER : Comparison::EQUAL; }

#define EQV(key, expr, expect, ...) \
    total(key, [&] { auto r_=(expr); Q got_=ref::q(r_); Q want_=Q(0)+(expect); ok(key, got_==want_, [&] { return cat(__VA_ARGS__, " gave ", S(got_), " want ", S(want_)); }); }, [&]{ return cat(__VA_ARGS__); })
#define EQB(key, expr, expect, ...) \
    total(key, [&] { bool got_=bool(expr); bool want_=(expect); ok(key, got_==want_, [&] { return cat(__VA_ARGS__, " gave ", got_); }); }, [&]{ return cat(__VA_ARGS__); })
#define EQT(key, expr, expect, ...) \
    total(key, [&] { auto got_=(expr); auto want_=(expect); ok(key, got_==want_, [&] { return cat(__VA_ARGS__, " gave ", got_, " want ", want_); }); }, [&]{ return cat(__VA_ARGS__); })

template<class T> static void comparisons(std::string const& t, T const& a, T const& b, Q const& qa, Q const& qb) {
    std::string in=cat(S(qa)," , ",S(qb));
    EQB(t+"/==", a==b, qa==qb, in); EQB(t+"/!=", a!=b, qa!=qb, in); EQB(t+"/<", a<b, qa<qb, in);
    EQB(t+"/>", a>b, qa>qb, in); EQB(t+"/<=", a<=b, qa<=qb, in); EQB(t+"/>=", a>=b, qa>=qb, in);
    total(t+"/cmp", [&]{ Comparison c=cmp(a,b); ok(t+"/cmp", c==sgn_cmp(qa,qb), [&]{ return cat(in," gave ",int(c)); }); });
    vf::distinct(cat(t,"cmp",int(sgn_cmp(qa,qb)),mpz_sizeinbase(qa.get_num_mpz_t(),2)/8,'.',mpz_sizeinbase(qb.get_num_mpz_t(),2)/8,'.',mpz_sizeinbase(qa.get_den_mpz_t(),2)/8));
}

VF_SCENARIO(integer,3) {
    Z za=ref::rint(r), zb=r.coin(1,8)?za:ref::rint(r); Integer a=ref::integer(za), b=ref::integer(zb); Q qa(za), qb(zb);
    std::string in=cat(za.get_str()," , ",zb.get_str());
    EQV("Integer/add", a+b, qa+qb, in); EQV("Integer/sub", a-b, qa-qb, in); EQV("Integer/mul", a*b, qa*qb, in);
    EQV("Integer/neg", -a, -qa, in); EQV("Integer/pos", +a, qa, in); EQV("Integer/abs", abs(a), ref::abs(qa), in); EQV("Integer/sqr", sqr(a), qa*qa, in);
    EQV("Integer/min", min(a,b), ref::qmin(qa,qb), in); EQV("Integer/max", max(a,b), ref::qmax(qa,qb), in);
    EQV("Integer/nul", nul(a), 0, in); EQV("Integer/hlf", hlf(a), qa/2, in);
    if (zb!=0) { EQV("Integer/div", a/b, qa/qb, in); EQV("Integer/rec", rec(b), 1/qb, in); }
    { unsigned m=unsigned(r.below(9)); EQV("Integer/powNat", pow(a,m), ref::pow(qa,long(m)), cat(in," ^ ",m)); }
    if (za!=0) { int n=int(r.range(-6,6)); EQV("Integer/powInt", pow(a,n), ref::pow(qa,n), cat(in," ^ ",n)); }
    { Integer c=a; c+=b; ok("Integer/+=", ref::z(c)==za+zb, [&]{return in;}); c=a; c-=b; ok("Integer/-=", ref::z(c)==za-zb, [&]{return in;}); c=a; c*=b; ok("Integer/*=", ref::z(c)==za*zb, [&]{return in;});
      c=a; ++c; ok("Integer/++", ref::z(c)==za+1, [&]{return in;}); c=a; --c; ok("Integer/--", ref::z(c)==za-1, [&]{return in;});
      c=a; c+=c; ok("Integer/+=self", ref::z(c)==2*za, [&]{return in;}); c=a; c-=c; ok("Integer/-=self", ref::z(c)==0, [&]{return in;}); c=a; c*=c; ok("Integer/*=self", ref::z(c)==za*za, [&]{return in;}); }
    comparisons("Integer",a,b,qa,qb);
    EQB("Integer/is_zero", is_zero(a), za==0, in);
    total("Integer/sgn",[&]{ ok("Integer/sgn", int(sgn(a))==(za>0)-(za<0), [&]{return in;}); });
    EQT("Integer/print", out(a), za.get_str(), in); EQT("Integer/literal", a.literal(), za.get_str(), in);
    EQV("Integer/String", Integer(String(za.get_str())), qa, in);
    if (za>0) { EQT("Integer/log2floor", log2floor(Natural(a)), int(mpz_sizeinbase(za.get_mpz_t(),2)-1), in); }
    // conversion to and from built-in integers
    if (za.fits_slong_p()) { long l=za.get_si(); EQV("Integer/from-long", Integer(l), qa, in); EQT("Integer/get<long>", a.get<long>(), l, in); }
    else { bool threw=false; vf::at("Integer/get<long>-refuses"); try { (void)a.get<long>(); } catch (std::exception const&) { threw=true; } ok("Integer/get<long>-refuses", threw, [&]{return in;}); }
    if (za.fits_sint_p()) { int l=int(za.get_si()); EQV("Integer/from-int", Integer(l), qa, in); EQT("Integer/get<int>", a.get<int>(), l, in); }
    else { bool threw=false; vf::at("Integer/get<int>-refuses"); try { (void)a.get<int>(); } catch (std::exception const&) { threw=true; } ok("Integer/get<int>-refuses", threw, [&]{return in;}); }
    if (za.fits_uint_p()) { EQV("Integer/from-unsigned", Integer((unsigned)za.get_ui()), qa, in); }
}
VF_SCENARIO(builtin_integers,1) {
    long l; switch(r.below(4)) { case 0: l=long(r.u64()); break; case 1: l=long(1ul<<r.range(29,63))+r.range(-2,2); break; case 2: l=r.range(-9,9); break; default: l=r.pick({LONG_MAX,LONG_MIN+1,LONG_MIN,long(INT_MAX),long(INT_MIN),long(UINT_MAX),long(UINT_MAX)+1}); }
    unsigned long u=(unsigned long)l; Z zu; mpz_set_ui(zu.get_mpz_t(),u); Z zl(l); Q qu(zu), ql(zl); std::string in=cat(l," / ",u);
    EQV("Integer/from-long", Integer(l), ql, in); EQV("Integer/from-ulong", Integer(u), qu, in); EQV("Integer/from-longlong", Integer((long long)l), ql, in); EQV("Integer/from-ulonglong", Integer((unsigned long long)u), qu, in);
    EQV("Integer/from-int", Integer(int(l)), Q(int(l)), in); EQV("Integer/from-uint", Integer(unsigned(l)), Q(unsigned(l)), in);
    EQV("Integer/from-short", Integer(short(l)), Q(short(l)), in); EQV("Integer/from-uchar", Integer((unsigned char)(l)), Q((unsigned char)(l)), in);
    EQV("Dyadic/from-long", Dyadic(l), ql, in); EQV("Dyadic/from-ulong", Dyadic(u), qu, in); EQV("Dyadic/from-int", Dyadic(int(l)), Q(int(l)), in);
    EQV("Rational/from-long", Rational(l), ql, in); EQV("Rational/from-ulong", Rational(u), qu, in); EQV("Rational/from-int", Rational(int(l)), Q(int(l)), in); EQV("Rational/from-uint", Rational(unsigned(l)), Q(unsigned(l)), in);
    EQV("Decimal/from-long", Decimal(l), ql, in); EQV("Decimal/from-int", Decimal(int(l)), Q(int(l)), in);
    EQV("Integer/literal-z", Ariadne::operator""_z((unsigned long long)u), qu, in);
    EQV("Rational/literal-q", Ariadne::operator""_q((unsigned long long)u), qu, in);
    EQT("Integer/get<long>", Integer(l).get<long>(), l, in);
    { Integer a(r.range(-5,5)); int n=int(l); Q qa=ref::q(a); EQB("Integer/mixed==int", a==n, qa==Q(n), in); EQB("Integer/mixed<int", a<n, qa<Q(n), in); EQB("Integer/mixed>int", a>n, qa>Q(n), in); }
    { Rational a(r.range(-5,5)); int n=int(l); Q qa=ref::q(a); EQB("Rational/mixed==int", a==n, qa==Q(n), in); EQB("Rational/mixed<int", a<n, qa<Q(n), in); EQB("Rational/mixed>int", a>n, qa>Q(n), in); }
    { Dyadic a(r.range(-5,5)); int n=int(l); Q qa=ref::q(a); EQB("Dyadic/mixed==int", a==n, qa==Q(n), in); EQB("Dyadic/mixed<int", a<n, qa<Q(n), in); EQB("Dyadic/mixed>int", a>n, qa>Q(n), in); }
}
VF_SCENARIO(dyadic,3) {
    bool huge=r.coin(1,20); Q qa=ref::rdyad(r,huge?4000:200,huge?3000:300), qb=r.coin(1,8)?qa:ref::rdyad(r,200,huge?3000:300);
    Dyadic a=ref::dyadic(qa), b=ref::dyadic(qb); std::string in=cat(S(qa)," , ",S(qb));
    EQV("Dyadic/add", a+b, qa+qb, in); EQV("Dyadic/sub", a-b, qa-qb, in); EQV("Dyadic/mul", a*b, qa*qb, in); EQV("Dyadic/add()", add(a,b), qa+qb, in); EQV("Dyadic/sub()", sub(a,b), qa-qb, in); EQV("Dyadic/mul()", mul(a,b), qa*qb, in);
    EQV("Dyadic/neg", -a, -qa, in); EQV("Dyadic/pos", +a, qa, in); EQV("Dyadic/abs", abs(a), ref::abs(qa), in); EQV("Dyadic/sqr", sqr(a), qa*qa, in); EQV("Dyadic/hlf", hlf(a), qa/2, in); EQV("Dyadic/nul", nul(a), 0, in);
    EQV("Dyadic/min", min(a,b), ref::qmin(qa,qb), in); EQV("Dyadic/max", max(a,b), ref::qmax(qa,qb), in);
    { unsigned m=unsigned(r.below(7)); EQV("Dyadic/powNat", pow(a,m), ref::pow(qa,long(m)), cat(in," ^ ",m)); }
    if (qa!=0) { int n=int(r.range(-5,5)); EQV("Dyadic/powInt", pow(a,n), ref::pow(qa,n), cat(in," ^ ",n)); }
    if (qb!=0) { EQV("Dyadic/div", a/b, qa/qb, in); }
    EQV("Dyadic/floor", floor(a), Q(ref::floor(qa)), in); EQV("Dyadic/ceil", ceil(a), Q(ref::ceil(qa)), in);
    total("Dyadic/round",[&]{ Q z=ref::q(round(a)); ok("Dyadic/round", z==(qa>=0?Q(ref::floor(Q(qa+Q(1,2)))):Q(ref::ceil(Q(qa-Q(1,2))))), [&]{return cat(in," gave ",S(z));}); });
    { int e=int(r.range(-80,80)); Q t=ref::pow(Q(2),e); EQV("Dyadic/mul-twoexp", a*TwoExp(e), qa*t, cat(in," 2^",e)); EQV("Dyadic/div-twoexp", a/TwoExp(e), qa/t, cat(in," 2^",e)); EQV("Dyadic/TwoExp", Dyadic(TwoExp(e)), t, cat("2^",e)); EQV("Dyadic/half", a/two, qa/2, in);
      EQV("Dyadic/shift-compound", (a*TwoExp(e))*TwoExp(-e), qa, cat(in," 2^",e)); }
    { Dyadic c=a; c+=b; ok("Dyadic/+=", ref::q(c)==qa+qb, [&]{return in;}); c=a; c-=b; ok("Dyadic/-=", ref::q(c)==qa-qb, [&]{return in;}); c=a; c*=b; ok("Dyadic/*=", ref::q(c)==qa*qb, [&]{return in;}); c=a; c*=c; ok("Dyadic/*=self", ref::q(c)==qa*qa, [&]{return in;}); c=a; c+=c; ok("Dyadic/+=self", ref::q(c)==2*qa, [&]{return in;}); c=a; c-=c; ok("Dyadic/-=self", ref::q(c)==0, [&]{return in;}); }
    comparisons("Dyadic",a,b,qa,qb);
    total("Dyadic/sgn",[&]{ ok("Dyadic/sgn", int(sgn(a))==(qa>0)-(qa<0), [&]{return in;}); });
    EQB("Dyadic/is_zero", is_zero(a), qa==0, in); EQB("Dyadic/is_finite", is_finite(a), true, in); EQB("Dyadic/is_inf", is_inf(a), false, in); EQB("Dyadic/is_nan", is_nan(a), false, in);
    total("Dyadic/mantissa-exponent",[&]{ Q m=ref::q(a.mantissa()); int e=a.exponent(); ok("Dyadic/mantissa-exponent", m/ref::pow(Q(2),e)==qa, [&]{return cat(in," gave ",S(m)," / 2^",e);}); });
    // construction from mantissa and exponent
    { Z p=ref::rint(r); unsigned k=unsigned(r.below(200)); EQV("Dyadic/pq", Dyadic(ref::integer(p),k), Q(p)/ref::pow(Q(2),long(k)), cat(p.get_str()," / 2^",k)); EQV("Dyadic/p-Natural", Dyadic(ref::integer(p),Natural(k)), Q(p)/ref::pow(Q(2),long(k)), cat(p.get_str()," / 2^",k)); }
    // decimal literal, exact and back
    if (!huge) { total("Dyadic/literal",[&]{ String l=a.literal(); Q v; std::string s=l; bool neg=!s.empty()&&s[0]=='-'; if(neg) s=s.substr(1); auto dot=s.find('.'); bool good=dot!=std::string::npos;
        if (good) { std::string f=s.substr(dot+1); Z n(s.substr(0,dot)+f,10); v=Q(n)/ref::pow(Q(10),long(f.size())); if (neg) v=-v; }
        ok("Dyadic/literal", good && v==qa, [&]{return cat(in," gave ",l);}); });
      total("Dyadic/String",[&]{ Dyadic c(a.literal()); ok("Dyadic/String", ref::q(c)==qa, [&]{return cat(in," via ",a.literal()," gave ",S(ref::q(c)));}); });
      EQT("Dyadic/print", out(a), a.literal(), in); }
    EQV("Rational/from-Dyadic", Rational(a), qa, in); EQV("Decimal/from-Dyadic", Decimal(a), qa, in);
    { mpf_t m; mpf_init2(m,65535); mpf_set(m,a.get_mpf()); EQV("Dyadic/mpf", Dyadic(m), qa, in); mpf_clear(m); }
    if (mpz_sizeinbase(qa.get_num_mpz_t(),2)<=53 && mpz_sizeinbase(qa.get_den_mpz_t(),2)<900) { double d=a.get_d(); ok("Dyadic/get_d-exact", ref::q(d)==qa, [&]{return in;}); }
    vf::sample([&]{ return cat("dyadic ",in); });
}
VF_SCENARIO(doubles,2) {
    double d=ref::rdouble(r); Q qd=ref::q(d); std::string in=cat(d);
    EQV("Dyadic/from-ExactDouble", Dyadic(ExactDouble(d)), qd, in); EQV("Rational/from-ExactDouble", Rational(ExactDouble(d)), qd, in); EQV("Dyadic/from-double", Dyadic(d), qd, in);
    EQV("Rational/from-FloatDP", Rational(FloatDP(ExactDouble(d),dp)), qd, in); EQV("Dyadic/from-FloatDP", Dyadic(FloatDP(ExactDouble(d),dp)), qd, in);
    total("Dyadic/get_d",[&]{ ok("Dyadic/get_d", Dyadic(d).get_d()==d, [&]{return in;}); });
    { Q qa=ref::rrat(r,100); Rational a=ref::rational(qa); auto c=cmp(a,ExactDouble(d)); ok("Rational/cmp-ExactDouble", (int(c)>0)-(int(c)<0)==(qa>qd)-(qa<qd), [&]{return cat(S(qa)," , ",d);}); EQB("Rational/mixed<FloatDP", a<Rational(FloatDP(ExactDouble(d),dp)), qa<qd, in); }
}
VF_SCENARIO(rational,3) {
    bool huge=r.coin(1,25); int nb=huge?20000:200; Q qa=ref::rrat(r,nb), qb=r.coin(1,8)?qa:ref::rrat(r,r.coin()?nb:60); Rational a=ref::rational(qa), b=ref::rational(qb); std::string in=cat(S(qa)," , ",S(qb));
    EQV("Rational/add", a+b, qa+qb, in); EQV("Rational/sub", a-b, qa-qb, in); EQV("Rational/mul", a*b, qa*qb, in); if (qb!=0) { EQV("Rational/div", a/b, qa/qb, in); EQV("Rational/rec", rec(b), 1/qb, in); EQV("Rational/div()", div(a,b), qa/qb, in); }
    EQV("Rational/neg", -a, -qa, in); EQV("Rational/pos", +a, qa, in); EQV("Rational/abs", abs(a), ref::abs(qa), in); EQV("Rational/sqr", sqr(a), qa*qa, in); EQV("Rational/hlf", hlf(a), qa/2, in); EQV("Rational/nul", nul(a), 0, in);
    EQV("Rational/mag", mag(a), ref::abs(qa), in);
    EQV("Rational/min", min(a,b), ref::qmin(qa,qb), in); EQV("Rational/max", max(a,b), ref::qmax(qa,qb), in);
    if (!huge) { unsigned m=unsigned(r.below(9)); EQV("Rational/powNat", pow(a,m), ref::pow(qa,long(m)), cat(in," ^ ",m)); if (qa!=0) { int n=int(r.range(-8,8)); EQV("Rational/powInt", pow(a,n), ref::pow(qa,n), cat(in," ^ ",n)); } }
    EQV("Rational/floor", floor(a), Q(ref::floor(qa)), in); EQV("Rational/ceil", ceil(a), Q(ref::ceil(qa)), in);
    total("Rational/round",[&]{ Q z=ref::q(round(a)); ok("Rational/round", z==(qa>=0?Q(ref::floor(Q(qa+Q(1,2)))):Q(ref::ceil(Q(qa-Q(1,2))))), [&]{return cat(in," gave ",S(z));}); });
    { Rational c=a; c+=b; ok("Rational/+=", ref::q(c)==qa+qb, [&]{return in;}); c=a; c-=b; ok("Rational/-=", ref::q(c)==qa-qb, [&]{return in;}); c=a; c*=b; ok("Rational/*=", ref::q(c)==qa*qb, [&]{return in;}); if (qb!=0) { c=a; c/=b; ok("Rational//=", ref::q(c)==qa/qb, [&]{return in;}); } c=a; c*=c; ok("Rational/*=self", ref::q(c)==qa*qa, [&]{return in;}); c=a; c-=c; ok("Rational/-=self", ref::q(c)==0, [&]{return in;}); }
    comparisons("Rational",a,b,qa,qb);
    total("Rational/sgn",[&]{ ok("Rational/sgn", int(sgn(a))==(qa>0)-(qa<0), [&]{return in;}); });
    EQB("Rational/is_zero", is_zero(a), qa==0, in); EQB("Rational/is_finite", is_finite(a), true, in);
    ok("Rational/num-den", ref::z(a.get_num())==qa.get_num() && ref::z(a.get_den())==qa.get_den() && ref::z(a.numerator())==qa.get_num() && ref::z(a.denominator())==qa.get_den(), [&]{return in;});
    { Z n=ref::rint(r), d=ref::rint(r); if (d!=0) { Q v(n,d); v.canonicalize(); EQV("Rational/nd", Rational(ref::integer(n),ref::integer(d)), v, cat(n.get_str(),"/",d.get_str())); total("Rational/nd-canonical",[&]{ Rational c(ref::integer(n),ref::integer(d)); ok("Rational/nd-canonical", ref::z(c.get_num())==v.get_num()&&ref::z(c.get_den())==v.get_den(), [&]{return cat(n.get_str(),"/",d.get_str());}); }); } }
    EQT("Rational/print", out(a), qa.get_str(), in); EQV("Rational/String", Rational(String(qa.get_str())), qa, in);
}
VF_SCENARIO(decimal,2) {
    Z pa=ref::rint(r,100), pb=ref::rint(r,100); unsigned ea=unsigned(r.below(20)), eb=unsigned(r.below(20)); Q qa=Q(pa)/ref::pow(Q(10),long(ea)), qb=r.coin(1,8)?qa:Q(pb)/ref::pow(Q(10),long(eb));
    Decimal a(ref::integer(pa),ea), b = qb==qa ? Decimal(ref::integer(pa*10),ea+1) : Decimal(ref::integer(pb),eb); std::string in=cat(pa.get_str(),"e-",ea," , ",S(qb));
    EQV("Decimal/add", a+b, qa+qb, in); EQV("Decimal/sub", a-b, qa-qb, in); EQV("Decimal/mul", a*b, qa*qb, in); if (qb!=0) EQV("Decimal/div", a/b, qa/qb, in);
    EQV("Decimal/neg", -a, -qa, in); EQV("Decimal/pos", +a, qa, in); EQV("Decimal/abs", abs(a), ref::abs(qa), in); EQV("Decimal/sqr", sqr(a), qa*qa, in); EQV("Decimal/hlf", hlf(a), qa/2, in); EQV("Decimal/nul", nul(a), 0, in);
    EQV("Decimal/min", min(a,b), ref::qmin(qa,qb), in); EQV("Decimal/max", max(a,b), ref::qmax(qa,qb), in);
    { Decimal c=a; c+=b; ok("Decimal/+=", ref::q(c)==qa+qb, [&]{return in;}); }
    comparisons("Decimal",a,b,qa,qb); EQV("Rational/from-Decimal", Rational(a), qa, in);
    total("Decimal/print",[&]{ std::string s=out(a); bool neg=s[0]=='-'; if(neg) s=s.substr(1); auto dot=s.find('.'); std::string f=s.substr(dot+1), w=s.substr(0,dot); Z n(w+f,10); Q v=Q(n)/ref::pow(Q(10),long(f.size())); if(neg) v=-v; ok("Decimal/print", v==qa, [&]{return cat(in," gave ",out(a));}); });
    // a literal in any spelling
    { std::string s; if (r.coin(1,3)) s+=r.coin()?"-":"+"; int nw=int(r.below(12)), nf=int(r.below(14)); std::string w,f; for(int i=0;i<nw;++i) w+=char('0'+r.below(r.coin()?2:10)); for(int i=0;i<nf;++i) f+=char('0'+r.below(r.coin()?2:10)); if (w.empty()) w="0"; s+=w; if (nf||r.coin()) s+="."+f;
      Z n(w+f,10); Q v=Q(n)/ref::pow(Q(10),long(f.size())); if (s[0]=='-') v=-v; EQV("Decimal/String", Decimal(String(s)), v, s); EQV("Decimal/literal-string", Ariadne::operator""_dec(s.c_str(),s.size()), v, s);
      total("Decimal/literal-roundtrip",[&]{ Decimal c{String(s)}; ok("Decimal/literal-roundtrip", ref::q(Decimal(c.literal()))==v, [&]{return cat(s," literal ",c.literal());}); }); }
    // a decimal given as a double with at most nine significant figures
    { long n=r.range(1,999999999); int e=int(r.range(-12,3)); Q v=Q(n)*ref::pow(Q(10),e); std::string ds=cat(n,"e",e); double d=strtod(ds.c_str(),nullptr); if (r.coin()) { d=-d; v=-v; } EQV("Decimal/from-double", Decimal(d), v, ds); }
}
template<class B, class E> static void bounds_scen(vf::Rng& r, std::string const& t, std::function<E(Q const&)> mk, std::function<Q(vf::Rng&)> gen) {
    auto iv=[&](Q& l, Q& u){ l=gen(r); u=gen(r); if (r.coin(1,6)) u=l; if (r.coin(1,8)) l=0; if (l>u) std::swap(l,u); };
    Q al,au,bl,bu; iv(al,au); iv(bl,bu); B a(mk(al),mk(au)), b(mk(bl),mk(bu)); std::string in=cat("[",S(al),",",S(au),"] , [",S(bl),",",S(bu),"]");
    auto pt=[&](Q const& l, Q const& u)->Q { switch(r.below(4)) { case 0: return l; case 1: return u; case 2: { Q h=(l+u)/2; return h; } default: { Q s=l+(u-l)*Q(long(r.below(1025)),1024); s.canonicalize(); return s; } } };
    auto chk=[&](std::string const& op, auto const& f, Q const& v){ std::string k=t+"/"+op; total(k,[&]{ auto c=f(); ref::X l=ref::x(c.lower()), u=ref::x(c.upper()); ok(k, ref::le(l,v)&&ref::ge(u,v), [&]{return cat(in," value ",S(v)," gave [",ref::str(l),",",ref::str(u),"]");}); },[&]{return in;}); };
    for (int i=0;i<3;++i) { Q x=pt(al,au), y=pt(bl,bu);
        chk("add",[&]{return a+b;},x+y); chk("sub",[&]{return a-b;},x-y); chk("mul",[&]{return a*b;},x*y); chk("neg",[&]{return -a;},-x); chk("pos",[&]{return +a;},x);
        chk("add()",[&]{return add(a,b);},x+y); chk("sub()",[&]{return sub(a,b);},x-y); chk("mul()",[&]{return mul(a,b);},x*y); chk("neg()",[&]{return neg(a);},-x); chk("pos()",[&]{return pos(a);},x); chk("sqr",[&]{return sqr(a);},x*x); chk("hlf",[&]{return hlf(a);},x/2); chk("abs",[&]{return abs(a);},ref::abs(x)); chk("max",[&]{return max(a,b);},ref::qmax(x,y)); chk("min",[&]{return min(a,b);},ref::qmin(x,y));
        { unsigned m=unsigned(r.below(6)); chk("powNat",[&]{return pow(a,m);},ref::pow(x,long(m))); }
        if constexpr (std::is_same_v<E,Rational>) { if (y!=0) { chk("div",[&]{return a/b;},x/y); chk("div()",[&]{return div(a,b);},x/y); chk("rec",[&]{return rec(b);},1/y); int n=int(r.range(-4,4)); chk("powInt",[&]{return pow(b,n);},ref::pow(y,n)); } }
        auto K=[&](std::string const& op, ValidatedKleenean k, bool truth){ std::string key=t+"/cmp"+op; ok(key, truth ? possibly(k) : !definitely(k), [&]{return cat(in," at ",S(x)," ",op," ",S(y)," gave ",k);}); };
        K("==",a==b,x==y); K("!=",a!=b,x!=y); K("<",a<b,x<y); K(">",a>b,x>y); K("<=",a<=b,x<=y); K(">=",a>=b,x>=y);
        if (x==y) { ok(t+"/inconsistent", !bool(inconsistent(a,b)), [&]{return in;}); }
        if (x>=bl&&x<=bu) { chk("refinement",[&]{return refinement(a,b);},x); }
        chk("coarsening",[&]{return coarsening(a,b);},x); chk("coarsening2",[&]{return coarsening(a,b);},y); }
    ok(t+"/refines", bool(refines(a,b))==(al>=bl&&au<=bu), [&]{return in;});
    // strict resolution: decidable comparisons of separated bounds must be decided
    if (au<bl) { ok(t+"/decides<", definitely(a<b) && !possibly(a>=b) && !possibly(a==b), [&]{return in;}); }
    // results are intervals: lower end not above upper end
    total(t+"/ordered",[&]{ auto s=[&](auto const& c){ ref::X l=ref::x(c.lower()), u=ref::x(c.upper()); return !(l.finite()&&u.finite()&&l.v>u.v); }; ok(t+"/ordered", s(a+b)&&s(a-b)&&s(a*b)&&s(hlf(a))&&s(sqr(a))&&s(neg(a))&&s(abs(a))&&s(pow(a,3u))&&s(pow(a,2u)), [&]{return in;}); });
    vf::distinct(cat(t,(al>0)-(al<0),(au>0)-(au<0),(bl>0)-(bl<0),(bu>0)-(bu<0),al==au,bl==bu,al==bl,au==bu,al==bu,au==bl));
}
VF_SCENARIO(dyadic_bounds,2) { bounds_scen<DyadicBounds,Dyadic>(r,"DyadicBounds",[](Q const& v){return ref::dyadic(v);},[](vf::Rng& g)->Q { return g.coin()?Q(g.range(-6,6)):ref::rdyad(g,80,60); }); }
VF_SCENARIO(rational_bounds,2) { bounds_scen<RationalBounds,Rational>(r,"RationalBounds",[](Q const& v){return ref::rational(v);},[](vf::Rng& g)->Q { return g.coin()?Q(g.range(-6,6)):ref::rrat(g,80); }); }
VF_SCENARIO(dyadic_ball,1) {
    auto g=[&]{ return r.coin()?Q(r.range(-6,6)):ref::rdyad(r,60,40); }; Q av=g(), ae=ref::abs(g()), bv=g(), be=ref::abs(g()); DyadicBall a(ref::dyadic(av),ref::dyadic(ae)), b(ref::dyadic(bv),ref::dyadic(be)); std::string in=cat(S(av),"+/-",S(ae)," , ",S(bv),"+/-",S(be));
    for (int i=0;i<4;++i) { Q x=av+ae*Q(r.range(-4,4),4), y=bv+be*Q(r.range(-4,4),4); auto chk=[&](char const* op, auto const& f, Q const& v){ std::string k=cat("DyadicBall/",op); total(k,[&]{ auto c=f(); Q d=ref::abs(ref::q(c.value())-v); ok(k, d<=ref::q(c.error()), [&]{return cat(in," value ",S(v));}); }); };
        chk("add",[&]{return a+b;},x+y); chk("sub",[&]{return a-b;},x-y); chk("mul",[&]{return a*b;},x*y); chk("abs",[&]{return abs(a);},ref::abs(x));
        auto k=(a<b); ok("DyadicBall/cmp<", x<y?possibly(k):!definitely(k), [&]{return in;}); if (x==y) ok("DyadicBall/inconsistent", !bool(inconsistent(a,b)), [&]{return in;});
        if (ref::abs(x-bv)<=be) chk("refinement",[&]{return refinement(a,b);},x); chk("coarsening",[&]{return coarsening(a,b);},x); chk("coarsening2",[&]{return coarsening(a,b);},y);
        total("DyadicBall/to-bounds",[&]{ DyadicBounds c(a); ok("DyadicBall/to-bounds", ref::q(c.lower())<=x&&ref::q(c.upper())>=x, [&]{return in;}); DyadicBall back(c); ok("DyadicBall/from-bounds", ref::abs(ref::q(back.value())-x)<=ref::q(back.error()), [&]{return in;}); }); }
    ok("DyadicBall/refines", bool(refines(a,b))==(ref::abs(av-bv)+ae<=be), [&]{return in;});
}
// Infinities and not-a-number
template<class T> static void specials(vf::Rng& r, std::string const& t, std::function<T(Q const&)> mk) {
    auto gen=[&](T& v, ref::X& x){ switch(r.below(5)) { case 0: v=T::inf(); x=ref::X::inf(1); break; case 1: v=T::inf(Sign::NEGATIVE); x=ref::X::inf(-1); break; case 2: v=T::nan(); x=ref::X::nan(); break; default: { Q q=r.coin()?Q(r.range(-2,2)):ref::rdyad(r,r.coin()?60:600,r.coin()?40:400); v=mk(q); x=ref::X(q); } } };
    T a,b; ref::X xa,xb; gen(a,xa); gen(b,xb); std::string in=cat(ref::str(xa)," , ",ref::str(xb));
    auto sg=[](ref::X const& x){ return x.kind==2?0:x.kind?x.kind:(x.v>0)-(x.v<0); };
    auto neg=[](ref::X const& x){ return x.kind==2?x:x.kind?ref::X::inf(-x.kind):ref::X(Q(-x.v)); };
    auto add=[&](ref::X const& x, ref::X const& y){ if (x.isnan()||y.isnan()) return ref::X::nan(); if (x.finite()&&y.finite()) return ref::X(Q(x.v+y.v)); if (x.finite()) return y; if (y.finite()) return x; return x.kind==y.kind?x:ref::X::nan(); };
    auto mul=[&](ref::X const& x, ref::X const& y){ if (x.isnan()||y.isnan()) return ref::X::nan(); if (x.finite()&&y.finite()) return ref::X(Q(x.v*y.v)); int s=sg(x)*sg(y); return s?ref::X::inf(s):ref::X::nan(); };
    auto chk=[&](std::string const& op, auto const& f, ref::X const& w){ std::string k=t+"/special/"+op; total(k,[&]{ auto v=f(); ref::X g=ref::x(static_cast<T const&>(v)); ok(k, ref::same(g,w), [&]{return cat(in," gave ",ref::str(g)," want ",ref::str(w));}); },[&]{return in;}); };
    chk("add",[&]{return a+b;},add(xa,xb)); chk("sub",[&]{return a-b;},add(xa,neg(xb))); chk("mul",[&]{return a*b;},mul(xa,xb)); chk("neg",[&]{return -a;},neg(xa)); chk("hlf",[&]{return hlf(a);},xa.finite()?ref::X(Q(xa.v/2)):xa);
    chk("abs",[&]{return abs(a);},xa.isnan()?xa:xa.finite()?ref::X(ref::abs(xa.v)):ref::X::inf(1));
    if (!xa.isnan()&&!xb.isnan()) { int c = xa.kind!=xb.kind ? (xa.kind>xb.kind?1:-1) : xa.kind ? 0 : (xa.v>xb.v)-(xa.v<xb.v);
        EQB(t+"/special/==", a==b, c==0, in); EQB(t+"/special/<", a<b, c<0, in); EQB(t+"/special/>", a>b, c>0, in); EQB(t+"/special/<=", a<=b, c<=0, in); EQB(t+"/special/>=", a>=b, c>=0, in); EQB(t+"/special/!=", a!=b, c!=0, in);
        chk("max",[&]{return max(a,b);},c>=0?xa:xb); chk("min",[&]{return min(a,b);},c<=0?xa:xb); }
    EQB(t+"/special/is_nan", is_nan(a), xa.isnan(), in); EQB(t+"/special/is_inf", is_inf(a), xa.kind==1||xa.kind==-1, in); EQB(t+"/special/is_finite", is_finite(a), xa.finite(), in);
    chk("copy",[&]{ T c(a); return c;},xa); chk("assign",[&]{ T c=mk(Q(5)); c=a; return c;},xa); chk("move",[&]{ T c(a); T d(std::move(c)); return d;},xa);
    if (!xa.isnan()) total(t+"/special/sgn",[&]{ ok(t+"/special/sgn", int(sgn(a))==sg(xa), [&]{return in;}); });
    { double d=a.get_d(); ok(t+"/special/get_d", xa.isnan()?std::isnan(d):xa.kind?(std::isinf(d)&&(d>0)==(xa.kind>0)):std::isfinite(d), [&]{return in;}); }
    if constexpr (std::is_same_v<T,Dyadic>) { Rational q(a); ok("Rational/special/from-Dyadic", ref::same(ref::x(q),xa), [&]{return in;}); }
    vf::distinct(cat(t,"special",xa.kind,xb.kind,sg(xa),sg(xb)));
}
VF_SCENARIO(dyadic_special,1) { specials<Dyadic>(r,"Dyadic",[](Q const& v){return ref::dyadic(v);}); }
VF_SCENARIO(rational_special,1) { specials<Rational>(r,"Rational",[](Q const& v){return ref::rational(v);}); }
// Value semantics over histories of construction, copying, moving, swapping and in-place operations
template<class T> static void history(vf::Rng& r, std::string const& t, std::function<T(Q const&)> mk, std::function<Q(vf::Rng&)> gen) {
    const int N=4; std::vector<T> v; std::vector<Q> m; std::vector<bool> live(N,true); for (int i=0;i<N;++i) { Q g=gen(r); v.push_back(mk(g)); m.push_back(g); }
    std::string trace; int steps=int(r.range(5,40));
    for (int s=0;s<steps;++s) { int i=int(r.below(N)), j=int(r.below(N)); int op=int(r.below(10)); std::string k=t+"/history"; vf::at(k);
        if (!live[j] && op!=6) { continue; }
        if (!live[i] && op>=1 && op!=2 && op!=6) { continue; }
        switch(op) {
            case 0: v[i]=v[j]; m[i]=m[j]; live[i]=true; trace+=cat(" a",i,"=a",j); break;
            case 1: { T c(v[j]); std::swap(c,v[i]); m[i]=m[j]; trace+=cat(" swapcopy",i,j); break; }
            case 2: if (i!=j) { v[i]=std::move(v[j]); m[i]=m[j]; live[i]=true; live[j]=false; trace+=cat(" a",i,"=move a",j); } break;
            case 3: if (mpz_sizeinbase(m[i].get_num_mpz_t(),2)<3000) { v[i]+=v[j]; m[i]+=m[j]; trace+=cat(" a",i,"+=a",j); } break;
            case 4: if constexpr (!std::is_same_v<T,Decimal>) { v[i]-=v[j]; m[i]-=m[j]; trace+=cat(" a",i,"-=a",j); } break;
            case 5: if constexpr (!std::is_same_v<T,Decimal>) { if (mpz_sizeinbase(m[i].get_num_mpz_t(),2)+mpz_sizeinbase(m[j].get_num_mpz_t(),2)<3000 && mpz_sizeinbase(m[i].get_den_mpz_t(),2)+mpz_sizeinbase(m[j].get_den_mpz_t(),2)<3000) { v[i]*=v[j]; m[i]*=m[j]; trace+=cat(" a",i,"*=a",j); } } break;
            case 6: { Q g=gen(r); v[i]=mk(g); m[i]=g; live[i]=true; trace+=cat(" a",i,"=new"); break; }
            case 7: v[i]=-v[j]; m[i]=-m[j]; trace+=cat(" a",i,"=-a",j); break;
            case 8: { std::vector<T> w(v); v=w; trace+=" veccopy"; break; }
            default: { T c(std::move(v[i])); v[i]=c; trace+=cat(" a",i," moved out and copied back"); break; } }
        for (int l=0;l<N;++l) if (live[l]) ok(k, ref::q(v[l])==m[l], [&]{return cat("after",trace," a",l," is ",S(ref::q(v[l]))," want ",S(m[l]));});
    }
    vf::distinct(t+trace);
}
VF_SCENARIO(integer_history,1) { history<Integer>(r,"Integer",[](Q const& v){return ref::integer(v.get_num());},[](vf::Rng& g)->Q { return Q(ref::rint(g)); }); }
VF_SCENARIO(dyadic_history,2) { history<Dyadic>(r,"Dyadic",[](Q const& v){return ref::dyadic(v);},[](vf::Rng& g)->Q { return ref::rdyad(g); }); }
VF_SCENARIO(rational_history,1) { history<Rational>(r,"Rational",[](Q const& v){return ref::rational(v);},[](vf::Rng& g)->Q { return ref::rrat(g); }); }
VF_SCENARIO(decimal_history,1) { history<Decimal>(r,"Decimal",[](Q const& v){ Q a=v; unsigned e=0; while (a.get_den()!=1) { a*=10; ++e; } return Decimal(ref::integer(a.get_num()),e);},[](vf::Rng& g)->Q { return Q(g.range(-100000,100000))/ref::pow(Q(10),g.range(0,6)); }); }
