From 27201cde8376e1a2812f062bf2f8f877eaed1f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:21 +0000
Subject: [PATCH 01/98] fix: construct Integer correctly from every 64-bit and
 negative 32-bit value

---
 source/numeric/integer.cpp | 28 +++++++++-------------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/source/numeric/integer.cpp b/source/numeric/integer.cpp
index 374ee33..e17601e 100644
--- a/source/numeric/integer.cpp
+++ b/source/numeric/integer.cpp
@@ -32,6 +32,7 @@
 
 #include "numeric/concepts.hpp"
 
+#include <cstdint>
 #include <limits>
 
 namespace Ariadne {
@@ -55,33 +56,22 @@ Integer::Integer(Nat32 m) {
 
 Integer::Integer(Int32 n) {
     mpz_init(_mpz);
-    mpz_set_ui(_mpz,static_cast<long unsigned int>(n.get_si()));
+    mpz_set_si(_mpz,n.get_si());
 }
 
 Integer::Integer(Nat64 m) {
     mpz_init(_mpz);
-    static const unsigned int max=std::numeric_limits<Int>::max();
-    static const unsigned long long int lmax=max;
-    static const Integer zmax=Integer(Int32(max));
-    unsigned long long int larg = m.get_ui();
-    unsigned long long int lquot = larg / lmax;
-    unsigned long long int lrem = larg % lmax;
-    unsigned int rem = static_cast<unsigned int>(lrem);
-    unsigned int quot = static_cast<unsigned int>(lquot);
-    ARIADNE_ASSERT(larg==lquot*lmax+lrem);
-    mpz_set_ui(_mpz,rem);
-    if(lquot!=0) {
-        *this += Integer(quot)*zmax;
-    }
+    const std::uint64_t n=m.get_ui();
+    mpz_import(_mpz,1u,-1,sizeof(n),0,0u,&n);
 }
 
 Integer::Integer(Int64 n) {
     mpz_init(_mpz);
-    if(n.get_si()<0) {
-        *this = -Integer(Nat64(-n.get_si()));
-    } else {
-        *this = Integer(Nat64(n.get_si()));
-    }
+    const std::int64_t i=n.get_si();
+    // Negate as unsigned, since the most negative value has no signed negation
+    const std::uint64_t a = (i<0) ? -static_cast<std::uint64_t>(i) : static_cast<std::uint64_t>(i);
+    mpz_import(_mpz,1u,-1,sizeof(a),0,0u,&a);
+    if (i<0) { mpz_neg(_mpz,_mpz); }
 }
 
 Integer::Integer(const mpz_t z) {
-- 
2.43.0


From 5f11ef27eb8ae9594d72584d58d6a5ceec53cbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:21 +0000
Subject: [PATCH 02/98] fix: convert unsigned 64-bit integers above the signed
 range to Rational

---
 source/numeric/rational.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/numeric/rational.hpp b/source/numeric/rational.hpp
index b49290f..a8a1017 100644
--- a/source/numeric/rational.hpp
+++ b/source/numeric/rational.hpp
@@ -197,7 +197,7 @@ template<> struct IsNumber<Rational> : True { };
 Rational operator"" _q(unsigned long long int n);
 Rational operator"" _q(long double x);
 
-template<BuiltinIntegral N> inline Rational::Rational(N n) : Rational(Int64(n)) { }
+template<BuiltinIntegral N> inline Rational::Rational(N n) : Rational(Integer(n)) { }
 
 OutputStream& write(OutputStream& os, mpz_t const z);
 InputStream& operator>>(InputStream& is, Rational& q1);
-- 
2.43.0


From 21ad492ec0aa9d97a27bdfa8ac9b48a74cb2cf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:21 +0000
Subject: [PATCH 03/98] fix: Decimal operator<= and operator> compared their
 arguments in reverse

---
 source/numeric/decimal.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/numeric/decimal.hpp b/source/numeric/decimal.hpp
index 73de284..8c465b1 100644
--- a/source/numeric/decimal.hpp
+++ b/source/numeric/decimal.hpp
@@ -82,10 +82,10 @@ class Decimal
     //! \name Comparison operators
     friend Boolean operator==(Decimal const& d1, Decimal const& d2) { return cmp(d1,d2)==Comparison::EQUAL; } //!< <p/>
     friend Boolean operator!=(Decimal const& d1, Decimal const& d2) { return cmp(d1,d2)!=Comparison::EQUAL; } //!< <p/>
-    friend Boolean operator<=(Decimal const& d1, Decimal const& d2) { return cmp(d2,d1)!=Comparison::GREATER; } //!< <p/>
+    friend Boolean operator<=(Decimal const& d1, Decimal const& d2) { return cmp(d1,d2)!=Comparison::GREATER; } //!< <p/>
     friend Boolean operator>=(Decimal const& d1, Decimal const& d2) { return cmp(d1,d2)!=Comparison::LESS; } //!< <p/>
     friend Boolean operator< (Decimal const& d1, Decimal const& d2) { return cmp(d1,d2)==Comparison::LESS; } //!< <p/>
-    friend Boolean operator> (Decimal const& d1, Decimal const& d2) { return cmp(d2,d1)==Comparison::GREATER; } //!< <p/>
+    friend Boolean operator> (Decimal const& d1, Decimal const& d2) { return cmp(d1,d2)==Comparison::GREATER; } //!< <p/>
     //!@}
 
     //!@{
-- 
2.43.0


From 3785ef092f9425f877753e73b37c6c9f8f7fdb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:21 +0000
Subject: [PATCH 04/98] fix: Dyadic(mpf_t) ignored its argument

---
 source/numeric/dyadic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/numeric/dyadic.cpp b/source/numeric/dyadic.cpp
index 03bac1d..c5374f1 100644
--- a/source/numeric/dyadic.cpp
+++ b/source/numeric/dyadic.cpp
@@ -108,7 +108,7 @@ Dyadic::Dyadic() {
 
 Dyadic::Dyadic(mpf_t mpf) {
     mpf_init2(_mpf,maximum_precision);
-    mpf_set(_mpf,_mpf);
+    mpf_set(_mpf,mpf);
 }
 
 Dyadic::Dyadic(Integer const& p, Natural q) {
-- 
2.43.0


From d19b88104a11e72f2f3f0b9f71b6f10f5bef5c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:21 +0000
Subject: [PATCH 05/98] fix: a moved-from Dyadic kept default precision,
 truncating values later assigned to it

---
 source/numeric/dyadic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/numeric/dyadic.cpp b/source/numeric/dyadic.cpp
index c5374f1..199edd8 100644
--- a/source/numeric/dyadic.cpp
+++ b/source/numeric/dyadic.cpp
@@ -175,7 +175,7 @@ Dyadic::Dyadic(const Dyadic& x) {
 }
 
 Dyadic::Dyadic(Dyadic&& x) {
-    mpf_init(_mpf);
+    mpf_init2(_mpf,maximum_precision);
     mpf_swap(_mpf,x._mpf);
 }
 
-- 
2.43.0


From 906991fbedf518735d4251abbfd1e64b50904bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:21 +0000
Subject: [PATCH 06/98] fix: neg of DyadicBounds swapped lower and upper bounds

---
 source/numeric/dyadic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/numeric/dyadic.hpp b/source/numeric/dyadic.hpp
index 5c73f2a..cc0c138 100644
--- a/source/numeric/dyadic.hpp
+++ b/source/numeric/dyadic.hpp
@@ -305,7 +305,7 @@ template<> class Bounds<Dyadic> {
     friend Bounds<Dyadic> pos(Bounds<Dyadic> const& w) {
         return Bounds<Dyadic>(pos(w._l),pos(w._u)); }
     friend Bounds<Dyadic> neg(Bounds<Dyadic> const& w) {
-        return Bounds<Dyadic>(neg(w._l),neg(w._u)); }
+        return Bounds<Dyadic>(neg(w._u),neg(w._l)); }
     friend Bounds<Dyadic> sqr(Bounds<Dyadic> const& w) {
         if(w._l>0) { return Bounds<Dyadic>(sqr(w._l),sqr(w._u)); }
         else if(w._u<0) { return Bounds<Dyadic>(sqr(w._u),sqr(w._l)); }
-- 
2.43.0


From b255b3065a75c454ddf0327ed4f06508c782ff6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:22 +0000
Subject: [PATCH 07/98] fix: cmp of Rational and of Integer with int returned
 values outside the Comparison enumeration

---
 source/numeric/integer.cpp  | 3 ++-
 source/numeric/rational.cpp | 7 +++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/source/numeric/integer.cpp b/source/numeric/integer.cpp
index e17601e..09de856 100644
--- a/source/numeric/integer.cpp
+++ b/source/numeric/integer.cpp
@@ -250,7 +250,8 @@ Comparison cmp(Integer const& z1, Integer const& z2) {
 }
 
 Comparison cmp(Integer const& z1, Int const& n2) {
-    return Comparison(mpz_cmp_si(z1._mpz,n2));
+    auto c=mpz_cmp_si(z1._mpz,n2);
+    return c==0 ? Comparison::EQUAL : (c>0?Comparison::GREATER:Comparison::LESS);
 }
 
 Boolean eq(Integer const& z1, Integer const& z2) {
diff --git a/source/numeric/rational.cpp b/source/numeric/rational.cpp
index 711910c..7e6dedf 100644
--- a/source/numeric/rational.cpp
+++ b/source/numeric/rational.cpp
@@ -60,6 +60,9 @@ template<> class Float<DP> { volatile double _dbl; public: double get_d() const
 
 
 
+// The GMP comparison functions return any integer of the required sign
+inline Comparison comparison(int c) { return c==0 ? Comparison::EQUAL : c>0 ? Comparison::GREATER : Comparison::LESS; }
+
 template<> class ExtensionOperations<Rational> {
     friend class Rational;
     friend class ExtendedOperations<Rational>;
@@ -100,7 +103,7 @@ template<> class FiniteOperations<Rational> {
         if(mpq_cmp(q1._mpq,q2._mpq)<=0) { mpq_set(r._mpq,q1._mpq); } else { mpq_set(r._mpq,q2._mpq); } }
     static Void abs(Rational& r, Rational const& q) { mpq_abs(r._mpq,q._mpq); }
 
-    static Comparison cmp(Rational const& q1, Rational const& q2) { return static_cast<Comparison>(mpq_cmp(q1._mpq,q2._mpq)); }
+    static Comparison cmp(Rational const& q1, Rational const& q2) { return comparison(mpq_cmp(q1._mpq,q2._mpq)); }
     static Boolean eq(Rational const& q1, Rational const& q2) { return mpq_equal(q1._mpq,q2._mpq); }
 };
 
@@ -463,7 +466,7 @@ Comparison cmp(ExactDouble const& x1, Rational const& q2) {
 }
 
 Comparison cmp(Rational const& q1, Int const& n2) {
-    return Comparison(mpq_cmp_si(q1._mpq,n2,1));
+    return comparison(mpq_cmp_si(q1._mpq,n2,1));
 }
 
 Comparison cmp(Int const& n1, Rational const& q2) {
-- 
2.43.0


From ed1fbccb8fff8e7efa400975529af826a8600fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:23 +0000
Subject: [PATCH 08/98] fix: writing a Rational with more than 510 digits
 overran a fixed buffer

---
 source/numeric/rational.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/source/numeric/rational.cpp b/source/numeric/rational.cpp
index 7e6dedf..b907c13 100644
--- a/source/numeric/rational.cpp
+++ b/source/numeric/rational.cpp
@@ -525,11 +525,9 @@ Rational operator"" _q(long double x) {
 }
 
 OutputStream& write(OutputStream& os, mpz_t const z) {
-    char str[512];
-    str[511]='\0';
-    mpz_get_str (str, 10, z);
-    assert(str[511]=='\0');
-    return os << str;
+    String str(mpz_sizeinbase(z,10)+2u,'\0');
+    mpz_get_str (str.data(), 10, z);
+    return os << str.c_str();
 }
 
 InputStream& operator>>(InputStream& is, Rational& q1) {
-- 
2.43.0


From 8965d21f8d0f6703f2abf5db1d95bb59a4f07f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:23 +0000
Subject: [PATCH 09/98] fix: hlf of RationalBounds swapped lower and upper
 bounds

---
 source/numeric/rational.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/numeric/rational.cpp b/source/numeric/rational.cpp
index b907c13..4a8a5d5 100644
--- a/source/numeric/rational.cpp
+++ b/source/numeric/rational.cpp
@@ -664,7 +664,7 @@ RationalBounds pos(RationalBounds const& q) {
 RationalBounds neg(RationalBounds const& q) {
     return RationalBounds(neg(q._u),neg(q._l)); }
 RationalBounds hlf(RationalBounds const& q) {
-    return RationalBounds(hlf(q._u),hlf(q._l)); }
+    return RationalBounds(hlf(q._l),hlf(q._u)); }
 RationalBounds sqr(RationalBounds const& q) {
     return _sqr(RoundExact(),q); }
 RationalBounds rec(RationalBounds const& q) {
-- 
2.43.0


From e93c65e22c251c5f257b7758f2bbf9401ba4983a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:23 +0000
Subject: [PATCH 10/98] fix: even powers of RationalBounds ignored the absolute
 value already computed

---
 source/numeric/rational.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/numeric/rational.cpp b/source/numeric/rational.cpp
index 4a8a5d5..2cf309d 100644
--- a/source/numeric/rational.cpp
+++ b/source/numeric/rational.cpp
@@ -679,7 +679,7 @@ RationalBounds mul(RationalBounds const& q1, RationalBounds const& q2) {
 RationalBounds div(RationalBounds const& q1, RationalBounds const& q2) {
     return _div(RoundExact(),q1,q2); }
 RationalBounds pow(RationalBounds const& q, Nat m) {
-    RationalBounds r = (m%2==0) ? abs(q) : q;  Int n=static_cast<Int>(m); return RationalBounds(pow(q._l,n),pow(q._u,n)); }
+    RationalBounds r = (m%2==0) ? abs(q) : q;  Int n=static_cast<Int>(m); return RationalBounds(pow(r._l,n),pow(r._u,n)); }
 RationalBounds pow(RationalBounds const& q, Int n) {
     if(n<0) { return pow(rec(q),Nat(-n)); } else return pow(q,Nat(n));}
 
-- 
2.43.0


From 7f0d460dd3b031bfca6de838447023f5a9b08189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:31 +0000
Subject: [PATCH 11/98] fix: double-precision exp, log, sin, cos, tan, asin,
 acos and atan were not rounded in the direction asked for

The hand-written series gave results on the wrong side of the exact value (for
instance cos(up,-5) < cos(-5)), and aborted on an internal assertion near
multiples of pi/2. Evaluate them with MPFR, in the current rounding mode.
---
 source/numeric/double.cpp           | 474 ++--------------------------
 source/numeric/double.hpp           |   1 -
 source/numeric/float_bounds.tpl.hpp |   1 +
 3 files changed, 25 insertions(+), 451 deletions(-)

diff --git a/source/numeric/double.cpp b/source/numeric/double.cpp
index b45cc4a..7b22f4e 100644
--- a/source/numeric/double.cpp
+++ b/source/numeric/double.cpp
@@ -54,11 +54,7 @@ Void set_default_builtin_rounding() { set_builtin_rounding_upward(); }
 static const double _pi_up=3.1415926535897936;
 static const double _pi_down=3.1415926535897931;
 
-static const double _quarter_pi_approx=0.78539816339744828;
 static const double _pi_approx=3.1415926535897931;
-static const double _two_pi_approx=6.2831853071795862;
-static const double _sqrt2_approx=0.70710678118654757;
-static const double _log2_approx=0.6931471805599453094;
 
 // The floor of log_10(|x|). abslog10floor(x)+1 is the number of digits of x before the decimal point.
 // Returns the smallest representable  int  if x is zero
@@ -68,32 +64,21 @@ int abslog10floor(double x) {
     //return std::max(std::floor(std::log10(std::abs(x))),MIN_INT);
 }
 
-static inline double next_rnd(double x) {
-    volatile double y=+x; y=y+1e-300; y=y-1e-300; return +y;
-}
-
-static inline double next_opp(double x) {
-    volatile double y=-x; y=y+1e-300; y=y-1e-300; return -y;
-}
-
-
-static inline double horner_rnd(Int n, double x, const long long int* c)
-{
-    volatile double y=1./c[n];
-    for(Int i=n-1; i>=0; --i) {
-        y=1.0/c[i]+x*y;
-    }
-    return y;
+// Evaluate the MPFR function f at x, correctly rounded in the current builtin rounding mode.
+static double mpfr_rnd(int(*f)(mpfr_ptr,mpfr_srcptr,mpfr_rnd_t), double x) {
+    mpfr_rnd_t rnd;
+    switch(get_builtin_rounding_mode()) {
+        case ROUND_DOWNWARD: rnd=MPFR_RNDD; break;
+        case ROUND_UPWARD: rnd=MPFR_RNDU; break;
+        case ROUND_TOWARD_ZERO: rnd=MPFR_RNDZ; break;
+        default: rnd=MPFR_RNDN;
+    }
+    mpfr_t y; mpfr_init2(y,53); mpfr_set_d(y,x,MPFR_RNDN);
+    f(y,y,rnd);
+    double r=mpfr_get_d(y,rnd); mpfr_clear(y);
+    return r;
 }
 
-static inline double horner_opp(Int n, double x, const long long int* c)
-{
-    volatile double y=-1./c[n];
-    for(Int i=n-1; i>=0; --i) {
-        y=-1.0/c[i]+x*y;
-    }
-    return -y;
-}
 
 // Rounded-fused multiple-and-add
 double fma_rnd(double x, double y, double z)
@@ -142,13 +127,6 @@ double sqrt_rnd(double x)
 }
 
 
-double pos_sin_rnd_series(double x);
-double neg_sin_rnd_series(double x);
-double pos_cos_rnd_series(double x);
-double neg_cos_rnd_series(double x);
-double tan_rnd_series(double x);
-
-
 double texp(double x) {
     double r=1.0; double t=1.0;
     for(Nat i=1; i!=20; ++i) {
@@ -158,99 +136,13 @@ double texp(double x) {
 }
 
 // Correctly rounded exponential function
-double exp_rnd(double x)
-{
-    static const long long int c[7]={ 1LL, 6LL, -360LL, 15120LL, -604800LL, 23950080LL, -946218790LL };
-
-    // Set w=r(exp(r)+1)/(exp(r)-1).
-    // Then w=2 + s/c1 + s^2/c2 + ...
-    // where s=r^2, and
-    // and exp(r) = y = (w+r)/(w-r)
-    // The first six terms are sufficient to compute w
-    // Note that we always have w>0 and y>0
-
-    // Note that dy/dr = 2w/(w-e)^2 > 0
-    // and dy/dw = -2r/(w-r)^2, so if r<0 we need to under-approximate w
-
-    if(x==0.0) { return 1.0; }
-    double n=std::floor(x/_log2_approx+0.5);
-    volatile double r,s,t,w,y;
-    volatile double log2;
-    log2=(n>0.0) ? next_opp(_log2_approx) : next_rnd(_log2_approx);
-    r=x+(-n)*log2;
-
-    ARIADNE_ASSERT_MSG(r>=-0.4, " r = "<<r<<", x = "<<x);
-    ARIADNE_ASSERT_MSG(r<=+0.4, " r = "<<r<<", x = "<<x);
-
-    if(r<0) {
-        // Compute w by standard Horner's rule gives correct rounding since w is monotone increasing in s
-        s = r*r;
-        w = 1+horner_rnd(6,s,c);
-        //c[0] + s * (1./c[1] + s * (1./c[2] + s * (1./c[3] + s * (1./c[4] + s * (1./c[5] + s * (1./c[6]) ) ) ) ) );
-    } else {
-        // Compute -w by standard Horner's rule gives opposite rounding since w is monotone increasing in s
-        s = (-r)*r; s=-s;
-        w = horner_opp(6,s,c);
-        w = -1-w; w=-w;
-        //w = -c[0] + s * (-1./c[1] + s * (-1./c[2] + s * (-1./c[3] + s * (-1./c[4] + s * (-1./c[5] + s * (-1./c[6]) ) ) ) ) );
-        //w=-w;
-    }
-
-    t=r-w;
-    y=(w+r)/(-t);
-
-
-    long int m=static_cast<long int>(n);
-    Int e;
-    volatile double z=frexp(y,&e);
-    z=ldexp(z,m+e);
-    return z;
+double exp_rnd(double x) {
+    return mpfr_rnd(mpfr_exp,x);
 }
 
-
-
-
 double log_rnd(double x) {
-    static const long long int c[12]={ 1LL, 3LL, 5LL, 7LL, 9LL, 11LL, 13LL, 15LL, 17LL, 19LL, 21LL, 23LL };
-
     ARIADNE_ASSERT_MSG(x>=0.0,"log(x): x="<<x);
-    // Write x=2^ny with 1/sqrt(2) <= y <= sqrt(2)
-    // Write log(y)=log(1+z)-log(1-z) where z=(y-1)/(y+1) and y=(1+z)/(1-z),
-    // Note that y is monotone increasing in z (and vice-versa)
-    // The constraints on y give |z| < 0.172.
-    // Use a Taylor expansion to compute log(1+z)-log(1-z), yielding
-    // We have log(y) = 2(z + 1/3 z^3 + 1/5 z^5+...)
-    // We obtain reasonable sufficient accuracy by taking terms up to z^19
-    // Let s=z^2 and w=(1+s/3+s^2/5+...+s^9/19), so log(y)=2*z*w
-    // Note that if z<0 (corresponding to y<1) then we need to use
-    // opposite rounding to compute s and w.
-
-    if(x==0.0) { return std::numeric_limits<double>::infinity(); }
-    if(x==1.0) { return 0.0; }
-
-    Int n;
-    volatile double y,z,s,t,w,ly;
-
-    y=frexp(x,&n);
-    if(y<_sqrt2_approx) { y=y*2; --n; }
-
-    if(y>=1.0) {
-        t=-1-y;
-        z=(y-1)/(-t);
-        s=z*z;
-        w=horner_rnd(10,s,c);
-        ly=2*z*w;
-    } else {
-        t=1-y;
-        z=(-t)/(1+y);
-        s=(-z)*z;
-        s=-s;
-        w=horner_opp(10,s,c);
-        ly=2*z*w;
-    }
-
-    volatile double log2rnd = (n>=0) ? next_rnd(_log2_approx) : next_opp(_log2_approx);
-    return log2rnd*n+ly;
+    return mpfr_rnd(mpfr_log,x);
 }
 
 double pi_rnd() {
@@ -272,46 +164,9 @@ double pi_opp() {
 }
 
 double sin_rnd(double x) {
-    volatile double two_pi_rnd=2*pi_rnd();
-    volatile double two_pi_opp=2*pi_opp();
-
-    volatile double half_pi_rnd=two_pi_rnd/4;
-    volatile double half_pi_opp=two_pi_opp/4;
-
-    Int q = (long int)(std::floor(x/_quarter_pi_approx)) % 8;
-    if(q<-4) { q+=8; } if(q>=4) { q-=8; }
-    volatile double n=-std::floor(x/_two_pi_approx+0.5);
-
-    volatile double y,w,s;
-
-    // Set to true if sin is decreasing so we want opposite rounding
-    Bool want_opposite=(q<-2||q>=2);
-    // if n is negative then we need to switch rounding of two_pi
-    volatile double two_pi_corr=((n>=0.0) ^ want_opposite) ? two_pi_rnd : two_pi_opp;
-
-    // Scale onto interval from -pi to pi
-    if(want_opposite) { y=-x+(-n)*(two_pi_corr); y=-y; } else { y=x+n*two_pi_corr; }
-
-    assert(-_two_pi_approx<=y && y<=_two_pi_approx);
-
-
-    switch(q) {
-    case -4: { w = -y - 2*half_pi_opp; w=-w; s=neg_sin_rnd_series(w); break; }
-    case -3: { w = -y - 1*half_pi_rnd; w=+w; s=neg_cos_rnd_series(w); break; }
-    case -2: { w = +y + 1*half_pi_rnd; w=+w; s=neg_cos_rnd_series(w); break; }
-    case -1: { w = +y + 0*half_pi_opp; w=-w; s=neg_sin_rnd_series(w); break; }
-    case +0: { w = +y + 0*half_pi_opp; w=+w; s=pos_sin_rnd_series(w); break; }
-    case +1: { w = +y - 1*half_pi_opp; w=-w; s=pos_cos_rnd_series(w); break; }
-    case +2: { w = -y + 1*half_pi_rnd; w=-w; s=pos_cos_rnd_series(w); break; }
-    case +3: { w = -y + 2*half_pi_rnd; w=+w; s=pos_sin_rnd_series(w); break; }
-    default: { s=0; assert(false); }
-    }
-
-    return s;
+    return mpfr_rnd(mpfr_sin,x);
 }
 
-inline double max(double x1, double x2) { return std::max(x1,x2); }
-
 double nul_rnd(double x) { return 0.0; }
 double pos_rnd(double x) { return +x; }
 double neg_rnd(double x) { return -x; }
@@ -337,306 +192,25 @@ double neg_rec_opp(double x) { volatile double t=1.0/x; return -t; }
 
 
 double cos_rnd(double x) {
-    const double pi_rnd=Ariadne::pi_rnd();
-    const double pi_opp=Ariadne::pi_opp();
-    const double half_pi_rnd=pi_rnd/2;
-
-    if(x==0.0) { return 1.0; }
-
-    // Compute a constant n such that n*pi<x<(n+1)*pi
-    long int n_rnd=(long int)(std::floor(div_rnd(x,pi_opp)));
-    long int n_opp=(long int)(std::floor(div_opp(x,pi_rnd)));
-
-    if(n_rnd!=n_opp) {
-        if(n_rnd>n_opp) {
-            // Rounding upwards
-            if(n_rnd%2==0) { return 1.0; }
-            volatile double y1=sub_rnd(pi_rnd*n_rnd,x);
-            volatile double y2=sub_rnd(x,pi_opp*n_rnd);
-            assert(y1>=0 && y2>=0);
-            volatile double w=std::max(y1,y2);
-            return neg_cos_rnd_series(w);
-        } else {
-            // Rounding downwards
-            if(n_rnd%2==0) { return -1.0; }
-            volatile double y1=sub_opp(pi_opp*n_opp,x);
-            volatile double y2=sub_opp(x,pi_rnd*n_opp);
-            assert(y1>=0 && y2>=0);
-            volatile double w=std::max(y1,y2);
-            return pos_cos_rnd_series(w);
-        }
-    }
-
-
-    // Set y=x-n*pi (with opposite rounding) if n is even
-    // and to (n+1)*pi-x (with opposite rounding) if n is odd
-    volatile double y;
-    if(n_rnd%2==0) {
-        y=sub_opp(x,mul_rnd(n_rnd,pi_rnd));
-    } else {
-        y=sub_opp(mul_opp(n_rnd+1,pi_opp),x);
-    }
-
-    Int q = (long int)(std::floor(y/_quarter_pi_approx)) % 8;
-    assert(q<=4);
-
-    volatile double w,c;
-    if(q==0) {
-        w=y;
-        c=pos_cos_rnd_series(w);
-    } else if(q==1 || q==2) {
-        w=sub_rnd(pi_rnd/2,y);
-        if(w>=0.0) { c=pos_sin_rnd_series(w); }
-        else { c=neg_sin_rnd_series(-w); }
-    } else if(q==3 || q==4) {
-        w=sub_opp(pi_opp,y);
-        c=neg_cos_rnd_series(w);
-    } else {
-        w=0;c=0;
-        assert(false);
-    }
-
-    return c;
-
-
-
-    volatile double z=0.0;
-
-    ARIADNE_ASSERT(-_two_pi_approx<=y && y<=_two_pi_approx);
-    switch(q) {
-    case -4: { w = +y + 2*half_pi_rnd; w=+w; w=max(w,z); c=neg_cos_rnd_series(w); break; }
-    case -3: { w = +y + 1*half_pi_rnd; w=-w; w=max(w,z); c=neg_sin_rnd_series(w); break; }
-    case -2: { w = +y + 1*half_pi_rnd; w=+w; w=max(w,z); c=pos_sin_rnd_series(w); break; }
-    case -1: { w = +y + 0*half_pi_rnd; w=-w; w=max(w,z); c=pos_cos_rnd_series(w); break; }
-    case +0: { w = -y + 0*half_pi_rnd; w=-w; w=max(w,z); c=pos_cos_rnd_series(w); break; }
-    case +1: { w = -y + 1*half_pi_rnd; w=+w; w=max(w,z); c=pos_sin_rnd_series(w); break; }
-    case +2: { w = -y + 1*half_pi_rnd; w=-w; w=max(w,z); c=neg_sin_rnd_series(w); break; }
-    case +3: { w = -y + 2*half_pi_rnd; w=+w; w=max(w,z); c=neg_cos_rnd_series(w); break; }
-    default: { assert(false); }
-    }
-
-    return c;
-}
-
-
-double pos_sin_rnd_series(double x) {
-    ARIADNE_ASSERT(x>=0.0);
-    ARIADNE_ASSERT(x<=0.7853981634);
-    static const long long int c[9]={ 1LL, -6LL, 120LL, -5040LL, 362880LL, -39916800LL, 6227020800LL, -1307674368000LL, 355687428096000LL };
-
-    // Compute sin(x) by Taylor series
-    volatile double s,w,y;
-    // TODO: Use Horner's scheme. Need a different algorithm for the case that x is negative
-    s=x*x; w=horner_rnd(8,s,c); y=x*w;
-
-
-    return y;
-}
-
-double neg_sin_rnd_series(double x) {
-    ARIADNE_ASSERT(x>=0.0);
-    ARIADNE_ASSERT(x<=0.7853981634);
-    static const long long int c[9]={ 1LL, -6LL, 120LL, -5040LL, 362880LL, -39916800LL, 6227020800LL, -1307674368000LL, 355687428096000LL };
-
-    // Compute sin(x) by Taylor series
-    volatile double s,w,y;
-    // TODO: Use Horner's scheme. Need a different algorithm for the case that x is negative
-    s=(-x)*x; s=-s; w=horner_opp(8,s,c); y=x*(-w);
-
-
-    return y;
-}
-
-
-double pos_cos_rnd_series(double x) {
-    ARIADNE_ASSERT(x>=0.0);
-    ARIADNE_ASSERT(x<=0.7853981634);
-
-    static const long long int c[9]={ 1LL, -2LL, 24LL, -720LL, 40320LL, -3628800LL, 479001600LL, -87178291200LL, 20922789888000LL };
-
-    // Compute cos(x) by Taylor series. Since cos(x) is decreasing in x^2,
-    // we need to use opposite rounding for the computation of x^2
-
-    volatile double s,y;
-    s=(-x)*x;
-    s=-s;
-    y=0.0;
-    y=horner_rnd(8,s,c);
-    return y;
-}
-
-double neg_cos_rnd_series(double x) {
-    ARIADNE_ASSERT(x>=0.0);
-    ARIADNE_ASSERT(x<=0.7853981634);
-
-    static const long long int c[9]={ 1LL, -2LL, 24LL, -720LL, 40320LL, -3628800LL, 479001600LL, -87178291200LL, 20922789888000LL };
-    volatile double s,y;
-    s=x*x;
-    y=0.0;
-    y=horner_opp(8,s,c);
-    return -y;
+    return mpfr_rnd(mpfr_cos,x);
 }
 
 double tan_rnd(double x) {
-
-    volatile double y,q,r,s,t,u,v;
-
-    double n=std::floor(x/_pi_approx+0.5);
-
-    volatile double pi_corr=(n>=0) ? next_opp(_pi_approx) : next_rnd(_pi_approx);
-    y=x-n*pi_corr;
-
-
-    ARIADNE_ASSERT(y>=-_pi_up/2);
-    ARIADNE_ASSERT(y<=+_pi_up/2);
-
-    // Use the double-angle formula tan(2x) = tan(x)/(1-tan^2(x))
-    // Note that the function y/(1-y^2) is monotone increasing for |y|<1
-    // To get enough accuracy, we use the double angle formula twice,
-    // ensuring that |x|<=pi/8.
-
-    q=y/4;
-    r=tan_rnd_series(q);
-    if(y>=0) {
-        u=r*r-1;
-        s=(2*r)/(-u);
-        v=s*s-1;
-        t=(2*s)/(-v);
-    } else {
-        u=(-r)*r;
-        u=1+u;
-        s=(2*r)/u;
-        v=(-s)*s;
-        v=1+v;
-        t=(2*s)/v;
-    }
-    return t;
-}
-
-double tan_rnd_series(double x) {
-    // Need |x|<=pi/8
-    ARIADNE_ASSERT(x>=-_pi_up/8);
-    ARIADNE_ASSERT(x<=+_pi_up/8);
-
-    // Numerators of Taylor coefficients
-    static const int64_t cn[13]={
-        1LL, 1LL, 2LL, 17LL, 62LL, 1382LL, 21844LL, 929569LL, 6404582LL, 443861162LL,
-        18888466084LL, 113927491862LL, 58870668456604LL };
-
-    // Denominators of Taylor coefficients
-    static const int64_t cd[13]={
-        1LL, 3LL, 15LL, 315LL, 2835LL, 155925LL, 6081075LL, 638512875LL, 10854718875LL, 1856156927625LL,
-        194896477400625LL, 2900518163668125LL, 3698160658676859375LL };
-
-
-    // To get enough accuracy, we need |x|<pi/8
-    // since we can't store the rational coefficients exactly.
-    // Note that we could in principle use approximations to the
-    // coesfficients, but this goes against the "spirit" of the code.
-
-    volatile double c,s,w,r;
-    if(x>=0) {
-        s=x*x;
-        w=double(cn[12])/cd[12];
-        for(Int i=11; i>=0; --i) {
-            c=double(cn[i])/cd[i];
-            w=c+s*w;
-        }
-        r=x*w;
-    } else {
-        s=(-x)*x; s=-s;
-        w=double(-cn[12])/cd[12];
-        for(Int i=12; i>=0; --i) {
-            c=double(-cn[i])/cd[i];
-            w=c+s*w;
-        }
-        r=x*(-w);
-    }
-    return r;
-}
-
-double atan_rnd_series(double x) {
-    // atan(x) = \sum_{n=0}^{\infty} (-1)^n/(2n+1) x^{2n+1}
-    // Relative trunctation error less than machine epsilon if |x|<=0.375 (this is not a tight bound)
-    assert(std::abs(x)<0.5);
-    static const long long int c[19]={ 1LL, -3LL, 5LL, -7LL, 9LL, -11LL, 13LL, -15LL, 17LL, -19LL, 21LL, -23LL, 25LL, -27LL, 29LL, -31LL, 33LL, -35LL, 37LL };
-
-    volatile double s,w,r;
-    if(x>=0) {
-        s=mul_rnd(x,x);
-        w=horner_rnd(18,s,c);
-        r=x*w;
-    } else {
-        s=mul_opp(x,x);
-        w=horner_opp(17,s,c);
-        r=x*w;
-    }
-    return r;
+    return mpfr_rnd(mpfr_tan,x);
 }
 
 double atan_rnd(double x) {
-    // use range reduction
-    // atan(-x) = -atan(x)
-    // atan(1/x) = pi/2 - atan(x) for x>0
-    // atan(1/x) = -pi/2 - atan(x) for x<0
-    //
-    // atan(x) = sgn(x)*pi/2 + atan(-1/x)
-    // atan(x) = atan(c) + atan((x-c)/(1+x*c))
-    // atan(x) = 2*atan(c) where c = x/(1+sqrt(1+x^2))
-
-    // Find c,d such that atan(1)=atan(c)+atan(d), and atan(d)=atan(c)+atan(-d)
-    // Obtain c=1/sqrt(3), d=2-sqrt(3), with atan(c)=pi/6
-    // Take atan(x) = atan(c) + atan(x-c)/(1+x*c)
-    // In practice, take c to be an exact value, and d rounded upward
-
-    // Value to add to final series expansion
-    volatile double a=0.0;
-
-    // 1<x<2+sqrt(3)  c=sqrt(3)
-    // (x-c)/(1+c*x)
-
-    // Change x to range [-1:+1]
-    if (x>1.0) { x=-1.0/x; a=pi_rnd()/2; }
-    else if (x<-1.0) { x=-1.0/x; a=-pi_opp()/2; }
-
-    // Scale x to have |x|<pi/6~=0.26795 by shifting around c=1/sqrt(3)~=0.57735
-    // Note that the exact value of atan(c) lies in the range pi_rnd()/6
-    volatile double c = 0.577350269189625731058868041145615279674530029296875;
-    volatile double d = 0.267949192431122751312244645305327139794826507568359375;
-
-    if (x>d) {
-        x=(x-c)/(-(-1.0+(-c)*x));
-        a=a+pi_rnd()/6;
-    } else if (x<-d) {
-        x=(x+c)/(1.0+(-c)*x); // Check rounding
-        a=a+(-pi_opp())/6;
-    }
-    return a + atan_rnd_series(x);
+    return mpfr_rnd(mpfr_atan,x);
 }
 
 double asin_rnd(double x) {
-    // WARNING: Correctness of rounding has not been properly checked
-    // asin(x)=atan(x/sqrt(1-x*x))=atan(x*sqrt(1/(1-x*x)))
-    if (x>=0) {
-        // y=atan(x*sqrt(v)), w=sqrt(v), v=-1/u, u=x^2-1
-        volatile double u=x*x-1.0;
-        volatile double v=(-1.0)/u;
-        volatile double w=sqrt_rnd(v);
-        return atan_rnd(x*w);
-    } else {
-        // y=atan(x/w), w=sqrt(v), v=1+x*u, u=-x
-        volatile double u=-x;
-        volatile double v=1.0+x*u;
-        volatile double w=sqrt_rnd(v);
-        return atan_rnd(x/w);
-    }
-    // Alternatively, use Newton iteration
-    // y=asin(x), sin(y)-x=0, y' = y-(sin(y)-x)/cos(y)=y+(sin(y)-x)/-cos(y)
-    // For x>0, starting with y=x gives increasing sequence
+    ARIADNE_ASSERT_MSG(-1.0<=x && x<=1.0,"asin(x): x="<<x);
+    return mpfr_rnd(mpfr_asin,x);
 }
 
 double acos_rnd(double x) {
-    return pi_rnd()/2.0+asin_rnd(-x);
+    ARIADNE_ASSERT_MSG(-1.0<=x && x<=1.0,"acos(x): x="<<x);
+    return mpfr_rnd(mpfr_acos,x);
 }
 
 } // namespace Ariadne
diff --git a/source/numeric/double.hpp b/source/numeric/double.hpp
index a2239b9..1b0bb81 100644
--- a/source/numeric/double.hpp
+++ b/source/numeric/double.hpp
@@ -55,7 +55,6 @@ double asin_rnd(double x);
 double acos_rnd(double x);
 double atan_rnd(double x);
 double neg_rec_rnd(double x);
-double atan_rnd_series(double x);
 double pi_rnd();
 
 double abs_rnd(double x);
diff --git a/source/numeric/float_bounds.tpl.hpp b/source/numeric/float_bounds.tpl.hpp
index 4cfdb97..5dffb74 100644
--- a/source/numeric/float_bounds.tpl.hpp
+++ b/source/numeric/float_bounds.tpl.hpp
@@ -72,6 +72,7 @@ template<class F> auto Operations<Bounds<F>>::_pi(PR pr) -> Bounds<F> {
 }
 
 template<class F> auto Operations<Bounds<F>>::_sin(Bounds<F> const& x) -> Bounds<F> {
+    if(x.lower_raw()==x.upper_raw()) { return Bounds<F>(sin(down,x._l),sin(up,x._u)); }
     return cos(x-hlf(_pi(x.precision())));
 }
 
-- 
2.43.0


From 36109a2f4566c647f328c8d0eab388cefdd63ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:58 +0000
Subject: [PATCH 12/98] fix: converting a Rational or Dyadic beyond the
 double-precision range downward did not terminate

---
 source/numeric/floatdp.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/numeric/floatdp.cpp b/source/numeric/floatdp.cpp
index b3062db..c059c3d 100644
--- a/source/numeric/floatdp.cpp
+++ b/source/numeric/floatdp.cpp
@@ -95,11 +95,13 @@ FloatDP::Float(Dyadic const& w, RoundingModeType rnd, PrecisionType pr)
          RoundingModeType old_rnd=get_rounding_mode();
          if(rnd==ROUND_UPWARD) {
              set_rounding_upward();
+             if (dbl==-std::numeric_limits<double>::infinity()) { dbl=-std::numeric_limits<double>::max(); }
              while (Dyadic(dbl)<w) { dbl=dbl+std::numeric_limits<double>::min(); }
              set_rounding_mode(old_rnd);
          }
          if(rnd==ROUND_DOWNWARD) {
              set_rounding_downward();
+             if (dbl==std::numeric_limits<double>::infinity()) { dbl=std::numeric_limits<double>::max(); }
              while (Dyadic(dbl)>w) { dbl=dbl-std::numeric_limits<double>::min(); }
              set_rounding_mode(old_rnd);
          }
@@ -120,11 +122,13 @@ FloatDP::Float(Rational const& q, RoundingModeType rnd, PrecisionType pr)
         RoundingModeType old_rnd=get_rounding_mode();
         if(rnd==ROUND_UPWARD) {
             set_rounding_upward();
+            if (dbl==-std::numeric_limits<double>::infinity()) { dbl=-std::numeric_limits<double>::max(); }
             while (cast_rational(dbl)<q) { dbl=dbl+std::numeric_limits<double>::min(); }
             set_rounding_mode(old_rnd);
         }
         if(rnd==ROUND_DOWNWARD) {
             set_rounding_downward();
+            if (dbl==std::numeric_limits<double>::infinity()) { dbl=std::numeric_limits<double>::max(); }
             while (cast_rational(dbl)>q) { dbl=dbl-std::numeric_limits<double>::min(); }
             set_rounding_mode(old_rnd);
         }
-- 
2.43.0


From 113254c83f0531bed37d05c7e1f501667f62e627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:33 +0000
Subject: [PATCH 13/98] fix: double-precision sqrt could iterate for ever when
 rounding upward

---
 source/numeric/double.cpp | 16 +---------------
 1 file changed, 1 insertion(+), 15 deletions(-)

diff --git a/source/numeric/double.cpp b/source/numeric/double.cpp
index 7b22f4e..247a5bb 100644
--- a/source/numeric/double.cpp
+++ b/source/numeric/double.cpp
@@ -108,22 +108,8 @@ double pow_rnd(double x, Int n)
 
 double sqrt_rnd(double x)
 {
-    // long int c[]={ 0, 6, -360, 15120, -604800, 23950080, -946218790, 37362124800 };
     ARIADNE_ASSERT_MSG(x>=0, " x = "<<x);
-
-    if(x==0.0) { return 0.0; }
-    Int n; volatile double y,a,b;
-    y=frexp(x,&n);
-    if(n%2) { y=y*2; n-=1; }
-    assert(y>=0.5 && y<=2.0);
-
-    a=0.0; b=y;
-    while(a!=b) {
-        a=b;
-        b=(a+y/a)/2;
-    }
-
-    return ldexp(b,n/2);
+    return mpfr_rnd(mpfr_sqrt,x);
 }
 
 
-- 
2.43.0


From bd7a6162fefeab31d62e63fa11ca06fef00c122b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:33 +0000
Subject: [PATCH 14/98] fix: quotient of PositiveLowerBound and
 PositiveUpperBound returned the product

---
 source/numeric/float_lower_bound.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/numeric/float_lower_bound.hpp b/source/numeric/float_lower_bound.hpp
index 0249204..8954883 100644
--- a/source/numeric/float_lower_bound.hpp
+++ b/source/numeric/float_lower_bound.hpp
@@ -311,7 +311,7 @@ template<class F> class Positive<LowerBound<F>> : public LowerBound<F>
     friend PositiveLowerBound<F> operator*(PositiveLowerBound<F> const& x1, PositiveLowerBound<F> const& x2) {
         return PositiveLowerBound<F>(mul(down,x1.raw(),x2.raw())); }
     friend PositiveLowerBound<F> operator/(PositiveLowerBound<F> const& x1, PositiveUpperBound<F> const& x2) {
-        return PositiveLowerBound<F>(mul(down,x1.raw(),x2.raw())); }
+        return PositiveLowerBound<F>(div(down,x1.raw(),x2.raw())); }
     friend PositiveLowerBound<F>& operator+=(PositiveLowerBound<F>& x1, PositiveLowerBound<F> const& x2) {
         return x1=x1+x2; }
     friend PositiveLowerBound<F>& operator*=(PositiveLowerBound<F>& x1, PositiveLowerBound<F> const& x2) {
-- 
2.43.0


From 71cfcabfa7ff27ea44b9d8d81220c2d92d042c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:33 +0000
Subject: [PATCH 15/98] fix: upper bound of a quotient of positive numbers was
 rounded downward

---
 source/numeric/float_upper_bound.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/numeric/float_upper_bound.hpp b/source/numeric/float_upper_bound.hpp
index 1180d6f..b7d0cd4 100644
--- a/source/numeric/float_upper_bound.hpp
+++ b/source/numeric/float_upper_bound.hpp
@@ -342,7 +342,7 @@ template<class F> class Positive<UpperBound<F>> : public UpperBound<F>
     friend PositiveUpperBound<F> operator/(PositiveUpperBound<F> const& x1, Positive<F> const& x2) {
         return PositiveUpperBound<F>(div(up,x1.raw(),x2)); }
     friend PositiveUpperBound<F> operator/(Positive<F> const& x1, PositiveLowerBound<F> const& x2) {
-        return PositiveUpperBound<F>(div(down,x1,x2.raw())); }
+        return PositiveUpperBound<F>(div(up,x1,x2.raw())); }
     friend PositiveUpperBound<F> operator/(PositiveUpperBound<F> const& x1, Nat m2) {
         return PositiveUpperBound<F>(div(up,x1.raw(),F(m2,x1.precision()))); }
     friend PositiveLowerBound<F> operator/(Positive<F> const& x1, PositiveUpperBound<F> const& x2);
-- 
2.43.0


From 1c110aa46e1b835bb17e12f771cb7f0befabf17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:33 +0000
Subject: [PATCH 16/98] fix: min of PositiveBounds ignored the upper bound of
 its first argument

---
 source/numeric/float_bounds.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/numeric/float_bounds.hpp b/source/numeric/float_bounds.hpp
index d57ce50..276e34f 100644
--- a/source/numeric/float_bounds.hpp
+++ b/source/numeric/float_bounds.hpp
@@ -546,7 +546,7 @@ template<class F> class Positive<Bounds<F>> : public Bounds<F>
     friend PositiveBounds<F> max(Bounds<F> const& x1, PositiveBounds<F> const& x2) {
         return PositiveBounds<F>(max(down,x1._l,x2._l),max(up,x1._u,x2._u)); }
     friend PositiveBounds<F> min(PositiveBounds<F> const& x1, PositiveBounds<F> const& x2) {
-        return PositiveBounds<F>(min(down,x1._l,x2._l),min(up,x2._u,x2._u)); }
+        return PositiveBounds<F>(min(down,x1._l,x2._l),min(up,x1._u,x2._u)); }
     friend PositiveBounds<F> abs(PositiveBounds<F> const& x) { return PositiveBounds<F>(abs(x._l),abs(x._u)); }
 
     friend Bounds<F> const& cast_unsigned(PositiveBounds<F> const& x) { return x; }
-- 
2.43.0


From 2b25b44c45f80a6ded181fea62c6ddaf40dd5654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:33 +0000
Subject: [PATCH 17/98] fix: abs, rec and sqr of Ball could miss values of
 their argument

abs of a negative ball returned the ball itself (and so max and min were wrong),
rec of a ball containing zero returned a bounded ball, and sqr with an error of
higher precision than the value excluded zero.
---
 source/numeric/float_ball.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/numeric/float_ball.hpp b/source/numeric/float_ball.hpp
index d965eb6..651ef99 100644
--- a/source/numeric/float_ball.hpp
+++ b/source/numeric/float_ball.hpp
@@ -477,11 +477,14 @@ template<class F, class FE> struct Operations<Ball<F,FE>> {
         if(r._e>r._v) {
             r._e=hlf(add(up,r._e,_make_error(r._v)));
             r._v=F(Dyadic(r._e),upward,x.precision());
+            r._e=FE(Dyadic(r._v),upward,r._e.precision());
         }
         return r;
     }
 
     static Ball<F,FE> _rec(Ball<F,FE> const& x) {
+        // The reciprocal is unbounded if zero lies in the ball
+        if(not (x._e<abs(x._v))) { return Ball<F,FE>(nul(x._v),FE::inf(x._e.precision())); }
         // Use this code to find value same as reciprocal value
         auto rv=rec(approx,x._v);
         auto ru=rec(up,sub(down,x._v,x._e));
@@ -610,7 +613,7 @@ template<class F, class FE> struct Operations<Ball<F,FE>> {
 
 
     static Ball<F,FE> _abs(Ball<F,FE> const& x) {
-        if(x._e<abs(x._v)) { return x; }
+        if(x._e<abs(x._v)) { return Ball<F,FE>(abs(x._v),x._e); }
         else { auto rv=hlf(add(up,abs(x._v),x._e)); return Ball<F,FE>(rv,_make_error(rv)); }
     }
 
-- 
2.43.0


From fa65a853bc915aaf2c89818f5fb0b26f817e34af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:33 +0000
Subject: [PATCH 18/98] fix: cos of Bounds straddling an odd multiple of pi
 could be an ulp too tight

---
 source/numeric/float_bounds.tpl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/numeric/float_bounds.tpl.hpp b/source/numeric/float_bounds.tpl.hpp
index 5dffb74..533879f 100644
--- a/source/numeric/float_bounds.tpl.hpp
+++ b/source/numeric/float_bounds.tpl.hpp
@@ -94,7 +94,7 @@ template<class F> auto Operations<Bounds<F>>::_cos(Bounds<F> const& x) -> Bounds
 
     F rl(prec),ru(prec);
     if(y.lower_raw()<=-pi_val.lower_raw()) {
-        if(y.upper_raw()<=0.0_x) { rl=-one; ru=cos(up,y.upper_raw()); }
+        if(y.upper_raw()<=0.0_x) { rl=-one; ru=cos(up,min(-y.upper_raw(),add(down,two_pi_val.lower_raw(),y.lower_raw()))); }
         else { rl=-one; ru=+one; }
     } else if(y.lower_raw()<=0.0_x) {
         if(y.upper_raw()<=0.0_x) { rl=cos(down,y.lower_raw()); ru=cos(up,y.upper_raw()); }
-- 
2.43.0


From 86400af68f8d1b8efa3363553e03fd4c631632a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:34 +0000
Subject: [PATCH 19/98] fix: tan of Bounds containing a pole aborted or
 returned reversed bounds

---
 source/numeric/float_bounds.tpl.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/numeric/float_bounds.tpl.hpp b/source/numeric/float_bounds.tpl.hpp
index 533879f..47ddc02 100644
--- a/source/numeric/float_bounds.tpl.hpp
+++ b/source/numeric/float_bounds.tpl.hpp
@@ -114,6 +114,7 @@ template<class F> auto Operations<Bounds<F>>::_cos(Bounds<F> const& x) -> Bounds
 
 template<class F> auto Operations<Bounds<F>>::_tan(Bounds<F> const& x) -> Bounds<F> {
     ARIADNE_ASSERT(x.lower_raw()<=x.upper_raw());
+    if(x.lower_raw()==x.upper_raw()) { return Bounds<F>(tan(down,x._l),tan(up,x._u)); }
     PR prec=x.precision();
     const Bounds<F> pi_bnds=_pi(prec);
     const F pi_val=pi_bnds.value_raw();
@@ -121,8 +122,8 @@ template<class F> auto Operations<Bounds<F>>::_tan(Bounds<F> const& x) -> Bounds
     F n(round(div(near,x.value_raw(),pi_val)));
     F::set_rounding_mode(rnd);
     Bounds<F> y=x-n*pi_bnds;
-    assert(y.lower_raw()>=-hlf(pi_val));
-    assert(y.upper_raw()<=+hlf(pi_val));
+    const F hlf_pi=hlf(pi_bnds.lower_raw());
+    if(not (y.lower_raw()>=-hlf_pi and y.upper_raw()<=hlf_pi)) { return Bounds<F>(-F::inf(prec),+F::inf(prec)); }
     return Bounds<F>(tan(down,y._l),tan(up,y._u));
 }
 
-- 
2.43.0


From 3b6f6d2918deb38e964f4472fc35fbfb19817367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:34 +0000
Subject: [PATCH 20/98] fix: trunc of multiple-precision Bounds aborted

---
 source/numeric/float_bounds.tpl.hpp | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/source/numeric/float_bounds.tpl.hpp b/source/numeric/float_bounds.tpl.hpp
index 47ddc02..635b91a 100644
--- a/source/numeric/float_bounds.tpl.hpp
+++ b/source/numeric/float_bounds.tpl.hpp
@@ -128,17 +128,11 @@ template<class F> auto Operations<Bounds<F>>::_tan(Bounds<F> const& x) -> Bounds
 }
 
 template<class F> auto Operations<Bounds<F>>::_trunc(Bounds<F> const& x) -> Bounds<F> {
-    typename F::RoundingModeType rm=F::get_rounding_mode();
-    const double& xl=x.lower_raw().get_d();
-    const double& xu=x.upper_raw().get_d();
-    // Use machine epsilon instead of minimum to move away from zero
-    const float fm=std::numeric_limits<float>::epsilon();
-    volatile float tu=xu;
-    if(tu<xu) { F::set_rounding_upward(); tu=tu+fm; }
-    volatile float tl=xl;
-    if(tl>xl) { F::set_rounding_downward(); tl=tl-fm; }
-    F::set_rounding_mode(rm);
-    assert(tl<=xl); assert(tu>=xu);
+    const float inf=std::numeric_limits<float>::infinity();
+    float tl=static_cast<float>(x.lower_raw().get_d());
+    while(ExactDouble(tl)>x.lower_raw()) { tl=std::nextafter(tl,-inf); }
+    float tu=static_cast<float>(x.upper_raw().get_d());
+    while(ExactDouble(tu)<x.upper_raw()) { tu=std::nextafter(tu,+inf); }
     return Bounds<F>(ExactDouble(tl),ExactDouble(tu),x.precision());
 }
 
-- 
2.43.0


From a75053f8bedb6aae7d0dc7792d1239087bd87491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:46 +0000
Subject: [PATCH 21/98] fix: getting one-sided bounds or a ball from a generic
 number holding bounds recursed forever

---
 source/numeric/number_wrapper.hpp | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/source/numeric/number_wrapper.hpp b/source/numeric/number_wrapper.hpp
index badec5e..9c080e7 100644
--- a/source/numeric/number_wrapper.hpp
+++ b/source/numeric/number_wrapper.hpp
@@ -401,6 +401,9 @@ inline OutputStream& operator<<(OutputStream& os, ParadigmCode cd) {
     }
 }
 
+template<class X> struct IsBoundsType : False { };
+template<class Y> struct IsBoundsType<Bounds<Y>> : True { };
+
 template<class X> class NumberGetterMixin : public virtual NumberInterface {
   public:
   //  operator X const& () const { return static_cast<NumberMixin<X>const&>(*this); }
@@ -429,25 +432,25 @@ template<class X> class NumberGetterMixin : public virtual NumberInterface {
         return this->_get_as<Rational>(); }
 
     virtual FloatDPBall _get(MetricTag,DoublePrecision pr,DoublePrecision pre) const override {
-        return this->_get_as<FloatDPBall>(pr); }
+        return this->_get_ball_as<FloatDPBall,FloatDPBounds>(pr,pre); }
     virtual FloatDPBounds _get(OrderTag,DoublePrecision pr) const override {
         return this->_get_as<FloatDPBounds>(pr); }
     virtual FloatDPUpperBound _get(UpperTag,DoublePrecision pr) const override {
-        return this->_get_as<FloatDPUpperBound>(pr); }
+        return this->_get_one_sided_as<FloatDPUpperBound,FloatDPBounds>(pr); }
     virtual FloatDPLowerBound _get(LowerTag,DoublePrecision pr) const override {
-        return this->_get_as<FloatDPLowerBound>(pr); }
+        return this->_get_one_sided_as<FloatDPLowerBound,FloatDPBounds>(pr); }
     virtual FloatDPApproximation _get(ApproximateTag,DoublePrecision pr) const override {
         return this->_get_as<FloatDPApproximation>(pr); }
     virtual FloatMPDPBall _get(MetricTag,MultiplePrecision pr, DoublePrecision pre) const override {
-        return this->_get_as<FloatMPDPBall>(pr,pre); }
+        return this->_get_ball_as<FloatMPDPBall,FloatMPBounds>(pr,pre); }
     virtual FloatMPBall _get(MetricTag, MultiplePrecision pr, MultiplePrecision pre) const override {
-        return this->_get_as<FloatMPBall>(pr,pre); }
+        return this->_get_ball_as<FloatMPBall,FloatMPBounds>(pr,pre); }
     virtual FloatMPBounds _get(OrderTag, MultiplePrecision pr) const override {
         return this->_get_as<FloatMPBounds>(pr); }
     virtual FloatMPUpperBound _get(UpperTag, MultiplePrecision pr) const override {
-        return this->_get_as<FloatMPUpperBound>(pr); }
+        return this->_get_one_sided_as<FloatMPUpperBound,FloatMPBounds>(pr); }
     virtual FloatMPLowerBound _get(LowerTag, MultiplePrecision pr) const override {
-        return this->_get_as<FloatMPLowerBound>(pr); }
+        return this->_get_one_sided_as<FloatMPLowerBound,FloatMPBounds>(pr); }
     virtual FloatMPApproximation _get(ApproximateTag, MultiplePrecision pr) const override {
         return this->_get_as<FloatMPApproximation>(pr); }
 
@@ -462,6 +465,14 @@ template<class X> class NumberGetterMixin : public virtual NumberInterface {
     template<class R, class PR> inline R _get_as(PR pr) const {
         if constexpr (Constructible<R,X,PR>) { return R(_cast(*this),pr); }
         else { std::cerr<<"Warning: Cannot convert " << _cast(*this) << " of type " << this->_class_name() << " to " << class_name<R>() << " with precision " << pr << "\n"; throw ParadigmError(); } }
+    // Two-sided numbers have their upper or lower bound extracted from their bounds, since direct construction goes back through an Upper/LowerNumber.
+    template<class R, class B, class PR> inline R _get_one_sided_as(PR pr) const {
+        if constexpr (Constructible<B,X,PR>) { return R(this->template _get_as<B>(pr)); }
+        else { return this->template _get_as<R>(pr); } }
+    template<class R, class B, class PR, class PRE> inline R _get_ball_as(PR pr, PRE pre) const {
+        if constexpr (IsBoundsType<X>::value and Constructible<B,X,PR>) { return R(this->template _get_as<B>(pr),pre); }
+        else if constexpr (Same<R,FloatDPBall>) { return this->template _get_as<R>(pr); }
+        else { return this->template _get_as<R>(pr,pre); } }
     template<class R, class PR, class PRE> inline R _get_as(PR pr, PRE pre) const {
         if constexpr (Constructible<R,X,PR,PRE>) { return R(_cast(*this),pr,pre); }
         else { std::cerr<<"Warning: Cannot convert " << _cast(*this) << " of type " << this->_class_name() << " to " << class_name<R>() << " with precision " << pr << " and error precision " << pre << "\n"; throw ParadigmError(); } }
-- 
2.43.0


From a75b5e3ffc0266cdd74c563b4df735b575bf12a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:46 +0000
Subject: [PATCH 22/98] fix: UpperBound conversion to another precision rounded
 downward

---
 source/numeric/float_upper_bound.tpl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/numeric/float_upper_bound.tpl.hpp b/source/numeric/float_upper_bound.tpl.hpp
index ed53c24..e71f7ec 100644
--- a/source/numeric/float_upper_bound.tpl.hpp
+++ b/source/numeric/float_upper_bound.tpl.hpp
@@ -37,8 +37,8 @@
 
 namespace Ariadne {
 
-template<class F> UpperBound<F>::UpperBound(F const& x, PR pr) : _u(x,downward,pr) {}
-template<class F> UpperBound<F>::UpperBound(Bounds<F> const& x, PR pr) : _u(x._u,downward,pr) {}
+template<class F> UpperBound<F>::UpperBound(F const& x, PR pr) : _u(x,upward,pr) {}
+template<class F> UpperBound<F>::UpperBound(Bounds<F> const& x, PR pr) : _u(x._u,upward,pr) {}
 template<class F> UpperBound<F>::UpperBound(UpperBound<F> const& x, PR pr) : _u(x._u,upward,pr) {}
 
 template<class F> UpperBound<F>::UpperBound(Bounds<F> const& x) : UpperBound<F>(x.upper_raw()) { }
-- 
2.43.0


From f020dd281945cb9da50d6088de235f2ac5a18a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:46 +0000
Subject: [PATCH 23/98] fix: max and min of FloatMP of different precisions
 rounded the result

---
 source/numeric/floatmp.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/numeric/floatmp.cpp b/source/numeric/floatmp.cpp
index bae4abc..1d505fc 100644
--- a/source/numeric/floatmp.cpp
+++ b/source/numeric/floatmp.cpp
@@ -390,8 +390,10 @@ FloatMP hlf(FloatMP const& x) { return hlf(FloatMP::get_rounding_mode(),x); }
 FloatMP pos(FloatMP const& x) { return pos(FloatMP::get_rounding_mode(),x); }
 FloatMP neg(FloatMP const& x) { return neg(FloatMP::get_rounding_mode(),x); }
 FloatMP shft(FloatMP const& x, Int n) { return shft(FloatMP::get_rounding_mode(),x,n); }
-FloatMP max(FloatMP const& x1, FloatMP const& x2) { return max(FloatMP::get_rounding_mode(),x1,x2); }
-FloatMP min(FloatMP const& x1, FloatMP const& x2) { return min(FloatMP::get_rounding_mode(),x1,x2); }
+FloatMP max(FloatMP const& x1, FloatMP const& x2) {
+    FloatMP r(max(x1.precision(),x2.precision()),NoInit()); mpfr_max(r._mpfr,x1._mpfr,x2._mpfr,MPFR_RNDN); return r; }
+FloatMP min(FloatMP const& x1, FloatMP const& x2) {
+    FloatMP r(max(x1.precision(),x2.precision()),NoInit()); mpfr_min(r._mpfr,x1._mpfr,x2._mpfr,MPFR_RNDN); return r; }
 
 
 // Mixed operations
-- 
2.43.0


From 185aa58a67bb5c4a6a7bd9f891f7fa93725bea98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:46 +0000
Subject: [PATCH 24/98] fix: cos of Bounds aborted when the reduced argument
 lies just outside [-pi,pi]

---
 source/numeric/float_bounds.tpl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/numeric/float_bounds.tpl.hpp b/source/numeric/float_bounds.tpl.hpp
index 635b91a..a3e1f3c 100644
--- a/source/numeric/float_bounds.tpl.hpp
+++ b/source/numeric/float_bounds.tpl.hpp
@@ -89,8 +89,8 @@ template<class F> auto Operations<Bounds<F>>::_cos(Bounds<F> const& x) -> Bounds
     F n(round(div(near,x.value_raw(),(two_pi_val.value_raw()))));
     Bounds<F> y=x-2*(n*pi_val);
 
-    ARIADNE_ASSERT(y.lower_raw()<=pi_val.upper_raw());
-    ARIADNE_ASSERT(y.upper_raw()>=-pi_val.upper_raw());
+    // The multiple of two pi is chosen approximately, so the reduced argument may lie outside the range handled below.
+    if(y.lower_raw()>pi_val.upper_raw() or y.upper_raw()<-pi_val.upper_raw()) { return Bounds<F>(-one,+one); }
 
     F rl(prec),ru(prec);
     if(y.lower_raw()<=-pi_val.lower_raw()) {
-- 
2.43.0


From 02e907ea9cd5087c65eda0c8218db7c66dda71ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:17 +0000
Subject: [PATCH 25/98] fix: triangular_decomposition chose pivots from the
 original matrix

---
 source/algebra/matrix.tpl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/algebra/matrix.tpl.hpp b/source/algebra/matrix.tpl.hpp
index 6d2aa09..6304834 100644
--- a/source/algebra/matrix.tpl.hpp
+++ b/source/algebra/matrix.tpl.hpp
@@ -595,9 +595,9 @@ triangular_decomposition(const Matrix<X>& A)
         SizeType iamax=k;
         X amax=A.zero_element();
         for(SizeType i=k; i!=m; ++i) {
-            if(decide(abs(A[i][k])>amax)) {
+            if(decide(abs(U[i][k])>amax)) {
                 iamax=i;
-                amax=abs(A[i][k]);
+                amax=abs(U[i][k]);
             }
         }
 
-- 
2.43.0


From 805a2be83a6608b02582252a032bac10b71fd8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:17 +0000
Subject: [PATCH 26/98] fix: MultiIndex increment wrote one element past its
 array

---
 source/algebra/multi_index.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/algebra/multi_index.cpp b/source/algebra/multi_index.cpp
index ab139c9..7c8e721 100644
--- a/source/algebra/multi_index.cpp
+++ b/source/algebra/multi_index.cpp
@@ -30,12 +30,12 @@ namespace Ariadne {
 
 MultiIndex& MultiIndex::operator++() {
     assert(_n>0);
-    if(_n==1) { ++_p[0]; ++_p[_n]; return *this; }
+    if(_n==1) { ++_p[0]; return *this; }
     if(_p[_n-2]!=0) { --_p[_n-2]; ++_p[_n-1]; return *this; }
     else {
         IndexType li=_p[_n-1]; _p[_n-1]=0;
         for(SizeType k=_n-1; k!=0; --k) { if(_p[k-1]!=0) { --_p[k-1]; _p[k]=li+1u; return *this; } }
-        _p[0]=li+1u; ++_p[_n];
+        _p[0]=li+1u;
     }
     return *this;
 }
-- 
2.43.0


From 02ea21a99206a8f1cec02011cc279a4c8cfd2feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:17 +0000
Subject: [PATCH 27/98] fix: moved-from MultiIndexList kept its size with no
 storage

---
 source/algebra/multi_index.inl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/algebra/multi_index.inl.hpp b/source/algebra/multi_index.inl.hpp
index 39bc572..d38837c 100644
--- a/source/algebra/multi_index.inl.hpp
+++ b/source/algebra/multi_index.inl.hpp
@@ -156,7 +156,7 @@ inline MultiIndexConstPointer MultiIndexListConstIterator::operator->() const {
 inline MultiIndexList::MultiIndexList(MultiIndexList&& lst)
     : _capacity(lst._capacity), _size(lst._size), _argument_size(lst._argument_size), _indices(lst._indices)
 {
-    lst._indices=nullptr;
+    lst._capacity=0u; lst._size=0u; lst._indices=nullptr;
 }
 
 inline MultiIndexList& MultiIndexList::operator=(MultiIndexList&& lst) {
@@ -168,7 +168,7 @@ inline MultiIndexList& MultiIndexList::operator=(MultiIndexList&& lst) {
         _argument_size=lst._argument_size;
 
         _indices=lst._indices;
-        lst._indices = nullptr;
+        lst._capacity=0u; lst._size=0u; lst._indices=nullptr;
     }
     return *this;
 }
-- 
2.43.0


From a12309b0a5f657dd43b3ecf2fd1408e36f1544bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:53 +0000
Subject: [PATCH 28/98] fix: flow of a Differential used the time variable for
 the first parameter

---
 source/algebra/differential.tpl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/algebra/differential.tpl.hpp b/source/algebra/differential.tpl.hpp
index 7260603..345b1fa 100644
--- a/source/algebra/differential.tpl.hpp
+++ b/source/algebra/differential.tpl.hpp
@@ -876,7 +876,7 @@ Vector<Differential<X>>::_flow(const Vector<Differential<X> >& df, Vector<X> con
 
     Vector<Differential<X>> dx0=Vector<Differential<X>>(n,[&](SizeType i){return Differential<X>::variable(n+1u+m,deg+1u,x0[i],i);});
     Vector<Differential<X>> da(m,n+1u+m,deg+1u,a.zero_element());
-    for (SizeType i=0; i!=m; ++i) { da[i]=Differential<X>::variable(n+1u+m,deg+1u,a[i],n+i); }
+    for (SizeType i=0; i!=m; ++i) { da[i]=Differential<X>::variable(n+1u+m,deg+1u,a[i],n+1u+i); }
 
     return _flow(df,dx0, da);
 }
-- 
2.43.0


From 7897f63ee435fa9d5110d9e0553cbf25e911c301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:53 +0000
Subject: [PATCH 29/98] fix: Vector<Differential>::set_degree left the vector's
 own degree unchanged

---
 source/algebra/differential.tpl.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/algebra/differential.tpl.hpp b/source/algebra/differential.tpl.hpp
index 345b1fa..7a40f07 100644
--- a/source/algebra/differential.tpl.hpp
+++ b/source/algebra/differential.tpl.hpp
@@ -739,6 +739,7 @@ template<class X> Void Vector<Differential<X>>::set_degree(DegreeType deg) {
     for(SizeType i=0; i!=this->size(); ++i) {
         (*this)[i].set_degree(deg);
     }
+    this->_chars=DifferentialCharacteristics<X>(this->argument_size(),deg,this->zero_coefficient());
 }
 
 
-- 
2.43.0


From 97daf6651951eaaa0f16e875f52a5698072a4052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:53 +0000
Subject: [PATCH 30/98] fix: compose of Differentials modified its const
 argument while computing

---
 source/algebra/differential.tpl.hpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/source/algebra/differential.tpl.hpp b/source/algebra/differential.tpl.hpp
index 7a40f07..0a7f9d0 100644
--- a/source/algebra/differential.tpl.hpp
+++ b/source/algebra/differential.tpl.hpp
@@ -591,14 +591,12 @@ Differential<X> Differential<X>::_compose(const UnivariateDifferential<X>& x, co
 template<class X>
 Differential<X> Differential<X>::_compose(const Differential<X>& x, const Vector<Differential<X>>& y)
 {
-    Vector<Differential<X>>& ync=const_cast< Vector<Differential<X>>&>(y);
     X zero(y.zero_element().zero_coefficient());
-    Vector<X> yv(y.size(),zero);
+    Vector<Differential<X>> w(y);
     DegreeType deg=min(x.degree(),y.degree());
-    for(SizeType i=0; i!=ync.result_size(); ++i) { yv[i]=ync[i].value(); ync[i].set_value(zero); }
-    Differential<X> r=_evaluate(x,ync);
+    for(SizeType i=0; i!=w.result_size(); ++i) { w[i].set_value(zero); }
+    Differential<X> r=_evaluate(x,w);
     r.set_degree(deg);
-    for(SizeType i=0; i!=ync.result_size(); ++i) { ync[i].set_value(yv[i]); }
     return r;
 }
 
@@ -608,13 +606,11 @@ Vector<Differential<X>> Differential<X>::_compose(const Vector<Differential<X>>&
 {
     //std::cerr<<"compose(DV x, DV y)\n x="<<x<<"\n y="<<y<<std::endl;
     X zero(y.zero_element().zero_coefficient());
-    Vector<Differential<X>>& ync=const_cast< Vector<Differential<X>>&>(y);
-    Vector<X> yv(y.size(),zero);
+    Vector<Differential<X>> w(y);
     DegreeType deg=min(x.degree(),y.degree());
-    for(SizeType i=0; i!=ync.result_size(); ++i) { yv[i]=ync[i].value(); ync[i].set_value(zero); }
+    for(SizeType i=0; i!=w.result_size(); ++i) { w[i].set_value(zero); }
     Vector<Differential<X>> r(x.size(),y.argument_size(),deg,y.zero_coefficient());
-    for(SizeType i=0; i!=x.result_size(); ++i) { r[i]=_evaluate(x[i],y); r[i].set_degree(deg); }
-    for(SizeType i=0; i!=ync.result_size(); ++i) { ync[i].set_value(yv[i]); }
+    for(SizeType i=0; i!=x.result_size(); ++i) { r[i]=_evaluate(x[i],w); r[i].set_degree(deg); }
     return r;
 }
 
-- 
2.43.0


From d5d8c02dbf8535f6f0b9b7ba92fb5cc13bd42415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:53 +0000
Subject: [PATCH 31/98] fix: compose of a series with a zero Differential
 dereferenced the end of its expansion

---
 source/algebra/differential.tpl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/algebra/differential.tpl.hpp b/source/algebra/differential.tpl.hpp
index 0a7f9d0..c62ef30 100644
--- a/source/algebra/differential.tpl.hpp
+++ b/source/algebra/differential.tpl.hpp
@@ -578,7 +578,7 @@ Differential<X> Differential<X>::_compose(const UnivariateDifferential<X>& x, co
     DegreeType d=min(x.degree(),y.degree());
 
     Differential<X> w=y;
-    if(w.begin()->index().degree()==0) { w.begin()->coefficient()=0; }
+    if(w.begin()!=w.end() && w.begin()->index().degree()==0) { w.begin()->coefficient()=0; }
     Differential<X> r(as,d,y.zero_coefficient());
     r[MultiIndex(as)]=x[d];
     for(SizeType n=1; n<=d; ++n) {
-- 
2.43.0


From 8f492014d0ddc21635891d92cf5f517c9933da12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:53 +0000
Subject: [PATCH 32/98] fix: min, max and abs of a Differential picked a branch
 when the values may be equal

---
 source/algebra/differential.tpl.hpp | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/source/algebra/differential.tpl.hpp b/source/algebra/differential.tpl.hpp
index c62ef30..09aa207 100644
--- a/source/algebra/differential.tpl.hpp
+++ b/source/algebra/differential.tpl.hpp
@@ -507,27 +507,24 @@ Differential<X> AlgebraOperations<Differential<X>>::apply(Pow op, const Differen
 template<class X> Differential<X> AlgebraOperations<Differential<X>>::apply(Min op, const Differential<X>& x1, const Differential<X>& x2) {
     // FIXME: Maybe need different code for validated and approximate paradigms
     ARIADNE_ASSERT_MSG(x1.argument_size()==x2.argument_size(),"x1="<<x1<<" x2="<<x2);
-    if(decide(x1.value()==x2.value())) {
-        ARIADNE_THROW(std::runtime_error,"min(Differential<X> x1, Differential<X> x2)","x1[0]==x2[0]");
-    }
-    return decide(x1.value()<x2.value()) ? x1 : x2;
+    if(decide(x1.value()<x2.value())) { return x1; }
+    if(decide(x1.value()>x2.value())) { return x2; }
+    ARIADNE_THROW(std::runtime_error,"min(Differential<X> x1, Differential<X> x2)","x1[0] may equal x2[0]");
 }
 
 
 template<class X> Differential<X> AlgebraOperations<Differential<X>>::apply(Max op, const Differential<X>& x1,const Differential<X>& x2) {
     ARIADNE_ASSERT_MSG(x1.argument_size()==x2.argument_size(),"x1="<<x1<<" x2="<<x2);
-    if(decide(x1.value()==x2.value())) {
-        ARIADNE_THROW(std::runtime_error,"max(Differential<X> x1, Differential<X> x2)","x1[0]==x2[0]");
-    }
-    return decide(x1.value()>x2.value()) ? x1 : x2;
+    if(decide(x1.value()>x2.value())) { return x1; }
+    if(decide(x1.value()<x2.value())) { return x2; }
+    ARIADNE_THROW(std::runtime_error,"max(Differential<X> x1, Differential<X> x2)","x1[0] may equal x2[0]");
 }
 
 template<class X> Differential<X> AlgebraOperations<Differential<X>>::apply(Abs op, const Differential<X>& x) {
     // FIXME: Maybe need different code for validated and approximate paradigms
-    if(decide(x.value()==0)) {
-        ARIADNE_THROW(std::runtime_error,"abs(Differential<X> x)","x[0]==0");
-    }
-    return decide(x.value()>0) ? pos(x) : neg(x);
+    if(decide(x.value()>0)) { return pos(x); }
+    if(decide(x.value()<0)) { return neg(x); }
+    ARIADNE_THROW(std::runtime_error,"abs(Differential<X> x)","x[0] may equal 0");
 }
 
 
-- 
2.43.0


From 2758a58ef1567e70d38155f556ccc605f6dba38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:53 +0000
Subject: [PATCH 33/98] fix: affine vector of Differentials put the gradient on
 the wrong variables

---
 source/algebra/differential.tpl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/algebra/differential.tpl.hpp b/source/algebra/differential.tpl.hpp
index 09aa207..03ad735 100644
--- a/source/algebra/differential.tpl.hpp
+++ b/source/algebra/differential.tpl.hpp
@@ -148,13 +148,13 @@ template<class X> Vector<Differential<X>> Differential<X>::variables(DegreeType
 
 template<class X> Vector<Differential<X>> Differential<X>::affine(DegreeType deg, const Vector<X>& v, const Matrix<X>& G) {
     X zero=v.zero_element();
-    Vector<Differential<X>> r(v.size(),Differential<X>(v.size(),deg,zero));
+    Vector<Differential<X>> r(v.size(),Differential<X>(G.column_size(),deg,zero));
     MultiIndex a(r.argument_size());
     for(SizeType i=0; i!=r.size(); ++i) {
         r[i]._expansion.append(a,v[i]);
         for(SizeType j=0; j!=r.argument_size(); ++j) {
             const X& gij=G[i][j];
-            if(decide(gij!=0)) { a[i]=1; r[i]._expansion.append(a,gij); a[i]=0; }
+            a[j]=1; r[i]._expansion.append(a,gij); a[j]=0;
         }
     }
     return r;
-- 
2.43.0


From 1d870fe804dc9cbdee9fa0eade9e4610809c5de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:02 +0000
Subject: [PATCH 34/98] fix: derivative of a UnivariateDifferential wrote past
 its coefficients

---
 source/algebra/univariate_differential.tpl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/algebra/univariate_differential.tpl.hpp b/source/algebra/univariate_differential.tpl.hpp
index 6f39dba..fa7b4fd 100644
--- a/source/algebra/univariate_differential.tpl.hpp
+++ b/source/algebra/univariate_differential.tpl.hpp
@@ -119,7 +119,7 @@ UnivariateDifferential<X>
 UnivariateDifferential<X>::_derivative(const UnivariateDifferential<X>& x)
 {
     DegreeType n=x.degree(); DegreeType one=1u;
-    UnivariateDifferential<X> r(std::min(n,one)-one,x.zero_coefficient());
+    UnivariateDifferential<X> r(std::max(n,one)-one,x.zero_coefficient());
     if(n==0) { r[0]=x[0]*0; }
     for(DegreeType i=0; i<n; ++i) {
         r[i]=(i+1u)*x[i+1u];
-- 
2.43.0


From 5e7940577ac7f62bfca46edb7c8797896a90ecb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:02 +0000
Subject: [PATCH 35/98] fix: compose of UnivariateDifferentials modified its
 const argument while computing

---
 source/algebra/univariate_differential.tpl.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/source/algebra/univariate_differential.tpl.hpp b/source/algebra/univariate_differential.tpl.hpp
index fa7b4fd..ab5f6e3 100644
--- a/source/algebra/univariate_differential.tpl.hpp
+++ b/source/algebra/univariate_differential.tpl.hpp
@@ -101,16 +101,14 @@ template<class X>
 UnivariateDifferential<X> UnivariateDifferential<X>::_compose(const UnivariateDifferential<X>& x, const UnivariateDifferential<X>& y)
 {
     DegreeType d=std::min(x.degree(),y.degree());
-    X y0 = y[0];
-    X z = Ariadne::create_zero(y0);
-    const_cast<X&>(y[0]) = z;
+    X z = Ariadne::create_zero(y[0]);
+    UnivariateDifferential<X> w(y); w[0] = z;
     UnivariateDifferential<X> r(d, z);
     r[0]=x[d];
     for(DegreeType n=1; n<=d; ++n) {
-        r=r*y;
+        r=r*w;
         r[0]+=x[static_cast<SizeType>(d-n)];
     }
-    const_cast<X&>(y[0])=y0;
     return r;
 }
 
-- 
2.43.0


From 9b2c66bc9d1736e996198961a8ecb09d65f4435c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:42 +0000
Subject: [PATCH 36/98] fix: include the width of an interval constant term in
 the radius of a Taylor model

---
 source/function/taylor_model.tpl.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/function/taylor_model.tpl.hpp b/source/function/taylor_model.tpl.hpp
index 2a42577..6d4ab84 100644
--- a/source/function/taylor_model.tpl.hpp
+++ b/source/function/taylor_model.tpl.hpp
@@ -1905,6 +1905,9 @@ template<class P, class F> auto TaylorModel<P,F>::radius() const -> NormType {
     for(ConstIterator iter=this->begin(); iter!=this->end(); ++iter) {
         if(iter->index().degree()!=0) {
             r+=mag(iter->coefficient());
+        } else if constexpr (AnInterval<CoefficientType>) {
+            // The average is only a point of an interval constant term
+            r+=mag(iter->coefficient()-NumericType(this->average()));
         }
     }
     r+=this->error();
-- 
2.43.0


From 69deeeb0ac1ced3006b9f9e8937b4f639d0d78ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:42 +0000
Subject: [PATCH 37/98] fix: unscale Taylor models by the exact centre and
 radius of the domain

---
 source/function/taylor_model.tpl.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/source/function/taylor_model.tpl.hpp b/source/function/taylor_model.tpl.hpp
index 6d4ab84..b6624ac 100644
--- a/source/function/taylor_model.tpl.hpp
+++ b/source/function/taylor_model.tpl.hpp
@@ -1761,16 +1761,15 @@ template<class P, class F> Void TaylorModel<P,F>::unscale(IntervalDomainType con
     // The motivation for mapping to everything is that any function on the
     // resulting interval should be independent of the unneeded component
     TaylorModel<P,F>& tm=*this;
-    auto ivl=convert_interval(codom,this->precision());
-    ARIADNE_ASSERT_MSG(decide(ivl.lower_bound()<=ivl.upper_bound()),"Cannot unscale TaylorModel<P,F> "<<tm<<" from empty interval "<<ivl);
+    ARIADNE_ASSERT_MSG(decide(codom.lower_bound()<=codom.upper_bound()),"Cannot unscale TaylorModel<P,F> "<<tm<<" from empty interval "<<codom);
 
     if(codom.lower_bound()==codom.upper_bound()) {
         tm=0;
         // Uncomment out line below to make unscaling to a singleton interval undefined
         //tm.clear(); tm.set_error(+inf);
     } else {
-        auto c=ivl.centre();
-        auto s=rec(ivl.radius());
+        auto c=NumericType(med(codom),this->precision());
+        auto s=rec(NumericType(rad(codom),this->precision()));
         tm-=c;
         tm*=s;
     }
-- 
2.43.0


From fde707e9f57345f54b7ee316af0234c3b53d48ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:42 +0000
Subject: [PATCH 38/98] fix: allow discarding no variables of a Taylor model

---
 source/function/taylor_model.tpl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/function/taylor_model.tpl.hpp b/source/function/taylor_model.tpl.hpp
index b6624ac..e2e2ba2 100644
--- a/source/function/taylor_model.tpl.hpp
+++ b/source/function/taylor_model.tpl.hpp
@@ -1582,10 +1582,10 @@ template<class P, class F> TaylorModel<P,F> TaylorModel<P,F>::_embed_error(const
 }
 
 template<class P, class F> TaylorModel<P,F> TaylorModel<P,F>::_discard_variables(const TaylorModel<P,F>& tm, Array<SizeType> const& discarded_variables) {
-    for(SizeType i=0; i!=discarded_variables.size()-1u; ++i) {
+    for(SizeType i=0; i+1u<discarded_variables.size(); ++i) {
         ARIADNE_PRECONDITION(discarded_variables[i]<discarded_variables[i+1u]);
     }
-    ARIADNE_PRECONDITION(discarded_variables[discarded_variables.size()-1u]<tm.argument_size());
+    ARIADNE_PRECONDITION(discarded_variables.size()==0 || discarded_variables[discarded_variables.size()-1u]<tm.argument_size());
 
     const SizeType number_of_variables = tm.argument_size();
     const SizeType number_of_discarded_variables = discarded_variables.size();
-- 
2.43.0


From 762d956608f5542eeef002620042901ace84d2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:42 +0000
Subject: [PATCH 39/98] fix: do not evaluate analytic functions to zero
 tolerance

---
 source/function/taylor_model.tpl.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/function/taylor_model.tpl.hpp b/source/function/taylor_model.tpl.hpp
index e2e2ba2..45fcba8 100644
--- a/source/function/taylor_model.tpl.hpp
+++ b/source/function/taylor_model.tpl.hpp
@@ -1296,7 +1296,9 @@ template<class P, class F> TaylorModel<P,F>& TaylorModel<P,F>::clobber() {
 template<class P, class F> auto TaylorModel<P,F>::tolerance() const -> RawFloatType {
     typedef RawFloatType FLT;
     const ThresholdSweeper<FLT>* ptr=dynamic_cast<const ThresholdSweeper<FLT>*>(&static_cast<const SweeperInterface<FLT>&>(this->_sweeper));
-    return (ptr) ? ptr->sweep_threshold() : FLT(cast_exact(std::numeric_limits<double>::epsilon()),this->precision());
+    // Do not use a zero threshold, since it is not possible to evaluate analytic functions to zero tolerance
+    if(ptr) { if(ptr->sweep_threshold()>0) { return ptr->sweep_threshold(); } }
+    return FLT(cast_exact(std::numeric_limits<double>::epsilon()),this->precision());
 }
 
 
-- 
2.43.0


From 31ba597b3b55da9b1b1937d688358968f97023bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:42 +0000
Subject: [PATCH 40/98] fix: bound the error about the rounded result in Taylor
 model arithmetic

---
 source/function/taylor_model.tpl.hpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/source/function/taylor_model.tpl.hpp b/source/function/taylor_model.tpl.hpp
index 45fcba8..2cac9a3 100644
--- a/source/function/taylor_model.tpl.hpp
+++ b/source/function/taylor_model.tpl.hpp
@@ -472,8 +472,15 @@ template<class P, class F> TaylorModel<P,F>::TaylorModel(const Expansion<MultiIn
 template<class P, class F> TaylorModel<P,F> TaylorModel<P,F>::scaling(SizeType as, SizeType j, const IntervalDomainType& codom, SweeperType swp) {
     TaylorModel<P,F> r(as,swp);
     auto ivl=convert_interval(codom,r.precision());
-    r.set_gradient(j,1);
-    r*=ivl.radius();
+    // FIXME: The rounding errors of the midpoint and of the radius are only partially accounted for.
+    if constexpr (Same<P,ValidatedTag> && ARawFloat<CoefficientType>) {
+        Bounds<F> rad(ivl.radius());
+        r.set_gradient(j,rad.value());
+        r.set_error(Error<F>(hlf(sub(up,rad.upper_raw(),rad.lower_raw()))));
+    } else {
+        r.set_gradient(j,1);
+        r*=ivl.radius();
+    }
     r+=static_cast<NumericType>(ivl.midpoint());
     return r;
 }
@@ -637,7 +644,7 @@ template<class F> F add_err(F const& x, ValidatedApproximation<F> const& c, Erro
     F::set_rounding_upward();
     Rounded<F> u=xv+cu;
     Rounded<F> ml=(-xv)-cl;
-    re += hlf(u+ml);
+    re += max(u-rv,ml+rv);
     return F(rv);
 }
 
@@ -723,12 +730,12 @@ template<class F> F mul_err(F const& x, ValidatedApproximation<F> const& c, Erro
         Rounded<F> mcl=-cl;
         Rounded<F> u=xv*cu;
         Rounded<F> ml=xv*mcl;
-        re+=hlf(u+ml);
+        re += max(u-rv,ml+rv);
     } else {
         Rounded<F> mcu=-cu;
         Rounded<F> u=xv*cl;
         Rounded<F> ml=xv*mcu;
-        re+=hlf(u+ml);
+        re += max(u-rv,ml+rv);
     }
     return F(rv);
 }
@@ -823,7 +830,7 @@ template<class F> F fma_err(F const& x, F const& y, F z, Error<F>& e) {
     Rounded<F> myv=-yv;
     Rounded<F> u=xv*yv+zv;
     Rounded<F> ml=xv*myv-zv;
-    re+=(u+ml)/2;
+    re += max(u-rv,ml+rv);
     return F(rv);
 }
 
@@ -847,7 +854,7 @@ template<class F> F fma_err(ValidatedApproximation<F> const& c, F const& x, F y,
         u=xv*cl+yv;
         ml=xv*mcu-yv;
     }
-    re+=(u+ml)/2;
+    re += max(u-rv,ml+rv);
     return F(rv);
 }
 
-- 
2.43.0


From 426d7cd84caa8d9342da251617643259ca5b1bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:42 +0000
Subject: [PATCH 41/98] fix: add swept interval terms to the error of a Taylor
 model

---
 source/function/taylor_model.tpl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/function/taylor_model.tpl.hpp b/source/function/taylor_model.tpl.hpp
index 2cac9a3..21a39a3 100644
--- a/source/function/taylor_model.tpl.hpp
+++ b/source/function/taylor_model.tpl.hpp
@@ -249,7 +249,7 @@ Void SweeperBase<F>::_sweep(Expansion<MultiIndex,FloatBounds<PR>>& p, FloatError
     while(adv!=end) {
         if(this->_discard(adv->index(),mag(adv->coefficient()).raw())) {
             //te+=abs(adv->coefficient());
-            te+mag(adv->coefficient());
+            te+=mag(adv->coefficient());
         } else {
             *curr=*adv;
             ++curr;
@@ -294,7 +294,7 @@ Void SweeperBase<F>::_sweep(Expansion<MultiIndex,FloatUpperInterval<PR>>& p, Flo
     while(adv!=end) {
         if(this->_discard(adv->index(),mag(adv->coefficient()).raw())) {
             //te+=abs(adv->coefficient());
-            te+mag(adv->coefficient());
+            te+=mag(adv->coefficient());
         } else {
             *curr=*adv;
             ++curr;
-- 
2.43.0


From 6abd8816c7f7f307f99a427d6519790b85adab97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:42 +0000
Subject: [PATCH 42/98] fix: bound the truncation error of sin and cos by the
 reduced argument

---
 source/algebra/algebra_operations.tpl.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/source/algebra/algebra_operations.tpl.hpp b/source/algebra/algebra_operations.tpl.hpp
index 9b9d391..f98c139 100644
--- a/source/algebra/algebra_operations.tpl.hpp
+++ b/source/algebra/algebra_operations.tpl.hpp
@@ -358,15 +358,13 @@ template<class A> A NormedAlgebraOperations<A>::apply(Exp, const A& x)
 // and that the power series is of the form x*f(x^2)
 template<class A> A NormedAlgebraOperations<A>::apply(Sin, const A& x)
 {
-    // FIXME: Truncation error may be incorrect
-
     auto tol = cast_exact(x.tolerance());
     auto avg=x.average();
-    auto rad=x.radius();
     Int n=integer_cast<Int>( round(avg/pi) );
 
     // Range reduce; use sin(x)=sin(x-2*n*pi)=sin((2*n+1)*pi-x)
     A y=(n%2) ? n*pi-x : x-n*pi;
+    auto rad=y.norm(); // The series is taken about zero, so use a bound for |y|
 
     A s=sqr(y);
 
@@ -400,11 +398,11 @@ template<class A> A NormedAlgebraOperations<A>::apply(Cos, const A& x)
 {
     auto tol = cast_exact(x.tolerance());
     auto avg=x.average();
-    auto rad=x.radius();
 
     // Range reduce; use cos(x)=cos(x-2*n*pi)=-cos(x-pi)
     Int n=integer_cast<Int>( round(avg/pi) );
     A y=x-n*pi;
+    auto rad=y.norm(); // The series is taken about zero, so use a bound for |y|
     int c=(n%2)?-1:+1; // If n is odd, take minus the usual series
 
     A s=sqr(y);
-- 
2.43.0


From 1b97d3eee5f4aa47ee0b170d51186d25e835f365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:42 +0000
Subject: [PATCH 43/98] fix: use the correct sign of the last term of the log
 series

---
 source/algebra/algebra_operations.tpl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/algebra/algebra_operations.tpl.hpp b/source/algebra/algebra_operations.tpl.hpp
index f98c139..bb86fe3 100644
--- a/source/algebra/algebra_operations.tpl.hpp
+++ b/source/algebra/algebra_operations.tpl.hpp
@@ -301,7 +301,7 @@ template<class A> A NormedAlgebraOperations<A>::apply(Log, const A& x)
 
     A y=x/avg-1;
     A z=x.create();
-    z+=X(d%2?-1:+1,pr)/d;
+    z+=X(d%2?+1:-1,pr)/d;
     for(Nat i=1; i!=d; ++i) {
         z=X((d-i)%2?+1:-1,pr)/(d-i) + z * y;
     }
-- 
2.43.0


From 47aa86d318d4dd6a2d985f46ef3bd70e1c780776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:42 +0000
Subject: [PATCH 44/98] fix: use the correct sign of the last term of the
 reciprocal series

---
 source/algebra/algebra_operations.tpl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/algebra/algebra_operations.tpl.hpp b/source/algebra/algebra_operations.tpl.hpp
index bb86fe3..9f8678a 100644
--- a/source/algebra/algebra_operations.tpl.hpp
+++ b/source/algebra/algebra_operations.tpl.hpp
@@ -270,7 +270,7 @@ template<class A> A NormedAlgebraOperations<A>::apply(Rec, const A& x)
 
     A y=1-x/avg;
     A z=x.create();
-    z+=(d%2?-1:+1);
+    z+=1;
     for(Nat i=0; i!=d; ++i) {
         z=1 + z * y;
     }
-- 
2.43.0


From ce6dd6e7aa74be643998eba12eb0bb4bc3d576e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:42 +0000
Subject: [PATCH 45/98] fix: use the correct last coefficient of the sqrt
 series

---
 source/algebra/algebra_operations.tpl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/algebra/algebra_operations.tpl.hpp b/source/algebra/algebra_operations.tpl.hpp
index 9f8678a..eb4a953 100644
--- a/source/algebra/algebra_operations.tpl.hpp
+++ b/source/algebra/algebra_operations.tpl.hpp
@@ -240,7 +240,7 @@ template<class A> A NormedAlgebraOperations<A>::apply(Sqrt, const A& x)
 
     A y=x/avg-1;
     A z=x.create();
-    z+=sqrt_series[d-1];
+    z+=sqrt_series[d];
     for(Nat i=0; i!=d; ++i) {
         z=sqrt_series[d-i-1] + z * y;
     }
-- 
2.43.0


From 30649868c21945c85cb1bc88413525cd9d9847aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:26 +0000
Subject: [PATCH 46/98] fix: subtract in operator-= of vector function patches

---
 source/function/scaled_function_patch.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/function/scaled_function_patch.hpp b/source/function/scaled_function_patch.hpp
index 0af5a80..c1eb7a5 100644
--- a/source/function/scaled_function_patch.hpp
+++ b/source/function/scaled_function_patch.hpp
@@ -831,7 +831,7 @@ template<class M> class VectorScaledFunctionPatch
         ARIADNE_ASSERT(f.result_size()==g.result_size());
         ARIADNE_ASSERT(subset(f.domain(),g.domain()));
         ARIADNE_ASSERT(f.domain()==g.domain());
-        f.models()+=g.models();
+        f.models()-=g.models();
         return f;
     }
     friend VectorScaledFunctionPatch<M>& operator+=(VectorScaledFunctionPatch<M>& f, const Vector<NumericType>& c) {
-- 
2.43.0


From 5d62629e97bebbbf6c8499408ad6eb85b70c1182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:26 +0000
Subject: [PATCH 47/98] fix: use the restricted domain in partial_restriction
 of vector function patches

---
 source/function/scaled_function_patch.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/function/scaled_function_patch.hpp b/source/function/scaled_function_patch.hpp
index c1eb7a5..04404fb 100644
--- a/source/function/scaled_function_patch.hpp
+++ b/source/function/scaled_function_patch.hpp
@@ -803,7 +803,8 @@ template<class M> class VectorScaledFunctionPatch
         return r;
     }
     friend VectorScaledFunctionPatch<M> partial_restriction(const VectorScaledFunctionPatch<M>& tf, SizeType k, const IntervalDomainType& d) {
-        VectorScaledFunctionPatch<M> r(tf.result_size(),tf.domain(),tf.properties());
+        BoxDomainType dom=tf.domain(); dom[k]=d;
+        VectorScaledFunctionPatch<M> r(tf.result_size(),dom,tf.properties());
         for(SizeType i=0; i!=tf.result_size(); ++i) {
             r[i]=partial_restriction(tf[i],k,d);
         }
-- 
2.43.0


From 3ae178a4f1406120df9c4fc950508cf149826372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:50 +0000
Subject: [PATCH 48/98] fix: second derivative of the square and integer power
 of a univariate second differential

---
 source/algebra/fixed_univariate_differential.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/algebra/fixed_univariate_differential.hpp b/source/algebra/fixed_univariate_differential.hpp
index a6e9448..19d558d 100644
--- a/source/algebra/fixed_univariate_differential.hpp
+++ b/source/algebra/fixed_univariate_differential.hpp
@@ -395,10 +395,11 @@ template<class X> struct AlgebraOperations<UnivariateSecondDifferential<X>,X> {
         return compose(UnivariateSecondDifferential<X>(op,x.value()),x); }
 
     static UnivariateSecondDifferential<X> apply(Sqr, const UnivariateSecondDifferential<X>& x) {
-        return UnivariateSecondDifferential<X>( sqr(x._value), (2*x._value)*x._gradient, (x._value)*x._half_hessian + sqr(x._gradient) ); }
+        return UnivariateSecondDifferential<X>( sqr(x._value), (2*x._value)*x._gradient, (2*x._value)*x._half_hessian + sqr(x._gradient) ); }
 
     static UnivariateSecondDifferential<X> apply(Pow, const UnivariateSecondDifferential<X>& x, Int n) {
-        return UnivariateSecondDifferential<X>( pow(x._value,n), (n*pow(x._value,n-1))*x._gradient, hlf(n*(n-1)*pow(x._value,n-2))*x._half_hessian ); }
+        X deriv_val = (n==0) ? nul(x._value) : X(n*pow(x._value,n-1)); X second_deriv_val = (n==0 || n==1) ? nul(x._value) : X(n*(n-1)*pow(x._value,n-2));
+        return UnivariateSecondDifferential<X>( pow(x._value,n), deriv_val*x._gradient, deriv_val*x._half_hessian + hlf(second_deriv_val)*sqr(x._gradient) ); }
 
     //ddf(y)/dxdx = d/dx ( f'(y) dy/dx) = f''(y) dy/dx dy/dx + f'(y) ddy/dxdx
 
-- 
2.43.0


From b1290646e9ecb9bd1756bd96682a685250953357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:50 +0000
Subject: [PATCH 49/98] fix: setting a component of a vector function changed
 other functions sharing it

---
 source/function/function.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/function/function.cpp b/source/function/function.cpp
index bd4027f..69197e8 100644
--- a/source/function/function.cpp
+++ b/source/function/function.cpp
@@ -403,8 +403,10 @@ template<class P, class SIG> Void Function<P,SIG>::set(SizeType i, ScalarFunctio
                           "Function<P,RealVector(ARGS...)>::set(SizeType i, Function<P,RealScalar(ARGS...)>)",
                           "Cannot assign to component of vector-valued function "<<(*this)<<" as it is not a VectorOfScalarFunction.");
         }
-        VectorOfScalarFunction<P,ARG>& vf = const_cast<VectorOfScalarFunction<P,ARG>&>(*cvf);
+        // Set the component in a copy, since the object pointed to may be shared with other functions
+        VectorOfScalarFunction<P,ARG> vf(*cvf);
         vf[i]=sf;
+        this->_ptr=std::make_shared<FunctionWrapper<VectorOfScalarFunction<P,ARG>,P,SIG>>(vf);
     } else {
         ARIADNE_ASSERT((Same<ResultSizeType,SizeType>));
         std::abort();
-- 
2.43.0


From 7d52105c318c0d6048f4e5c8d5e4b51e985e1939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:50 +0000
Subject: [PATCH 50/98] fix: sine and cosine of an unbounded interval are
 [-1,+1], not NaN

---
 source/numeric/float_bounds.tpl.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/numeric/float_bounds.tpl.hpp b/source/numeric/float_bounds.tpl.hpp
index a3e1f3c..383c602 100644
--- a/source/numeric/float_bounds.tpl.hpp
+++ b/source/numeric/float_bounds.tpl.hpp
@@ -84,7 +84,8 @@ template<class F> auto Operations<Bounds<F>>::_cos(Bounds<F> const& x) -> Bounds
     const F one(1,prec);
     const Bounds<F> pi_val=_pi(prec);
     const Bounds<F> two_pi_val=2*pi_val;
-    if(x.error().raw()>two_pi_val.lower().raw()) { return Bounds<F>(-one,+one); }
+    // The radius of an unbounded interval is NaN
+    if(not (x.error().raw()<=two_pi_val.lower().raw())) { return Bounds<F>(-one,+one); }
 
     F n(round(div(near,x.value_raw(),(two_pi_val.value_raw()))));
     Bounds<F> y=x-2*(n*pi_val);
-- 
2.43.0


From 5d1be78e1cae10c00d3e1f7289a70acdb10d30d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:50 +0000
Subject: [PATCH 51/98] fix: do not simplify sqrt(sqr(x)) or atan(tan(x)) to x

---
 source/numeric/operators.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/source/numeric/operators.hpp b/source/numeric/operators.hpp
index e5c7097..bd66e43 100644
--- a/source/numeric/operators.hpp
+++ b/source/numeric/operators.hpp
@@ -499,15 +499,14 @@ struct TernaryArithmeticOperator : OperatorVariant<Fma> { using OperatorVariant:
 
 
 
+// The operator iop such that op(iop(x))=x whenever iop(x) is defined; note that sqrt(sqr(x)) and atan(tan(x)) need not equal x.
 constexpr Pos inverse(Pos) { return Pos(); }
 constexpr Neg inverse(Neg) { return Neg(); }
 constexpr Rec inverse(Rec) { return Rec(); }
 constexpr Sqrt inverse(Sqr) { return Sqrt(); }
-constexpr Sqr inverse(Sqrt) { return Sqr(); }
 constexpr Log inverse(Exp) { return Log(); }
 constexpr Exp inverse(Log) { return Exp(); }
 constexpr Atan inverse(Tan) { return Atan(); }
-constexpr Tan inverse(Atan) { return Tan(); }
 
 template<class OP> using InverseType = decltype(inverse(declval<OP>()));
 
-- 
2.43.0


From a6d4ac4a1146762026e1cb4916562f250f8edf0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:12 +0000
Subject: [PATCH 52/98] fix: include the constant term when evaluating an
 affine form

---
 source/function/affine.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/function/affine.hpp b/source/function/affine.hpp
index 7c5450d..4cdde90 100644
--- a/source/function/affine.hpp
+++ b/source/function/affine.hpp
@@ -183,7 +183,7 @@ class Affine
 };
 
 template<class X> template<class Y> Y Affine<X>::evaluate(const Vector<Y>& x) const {
-    Y r=x.zero_element(); for(SizeType j=0; j!=this->_g.size(); ++j) { r+=this->_g[j]*x[j]; } return r;
+    Y r=x.zero_element(); r+=this->_c; for(SizeType j=0; j!=this->_g.size(); ++j) { r+=this->_g[j]*x[j]; } return r;
 }
 
 template<class X> OutputStream& operator<<(OutputStream& os, const Affine<X>& f) {
-- 
2.43.0


From 918091dcc6b0722d7d51b59dc0af266c3ed4a959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:12 +0000
Subject: [PATCH 53/98] fix: error bounds when adding or scaling an affine
 model by a validated number

---
 source/function/model_utilities.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/source/function/model_utilities.hpp b/source/function/model_utilities.hpp
index 4724185..40eb736 100644
--- a/source/function/model_utilities.hpp
+++ b/source/function/model_utilities.hpp
@@ -51,6 +51,11 @@ template<class F> inline Void acc_err(F const& ml, F const& u, F& e) {
     e=add(rounded,e,hlf(add(rounded,ml,u)));
 }
 
+// Accumulate an upper bound on the distance from r to any point of [-ml:u]. Only correct if rounding upward.
+template<class F> inline Void acc_err(F const& ml, F const& r, F const& u, F& e) {
+    e=add(rounded,e,max(sub(rounded,u,r),add(rounded,ml,r)));
+}
+
 template<class F, class PRE> Ball<F,RawFloatType<PRE>> add(F const& x1, F const& x2, PRE pre) {
     F mx1=-x1;
     F::set_rounding_to_nearest();
@@ -98,8 +103,8 @@ template<class F> F add_err(F const& x, ValidatedApproximation<F> const& c, Erro
     F rv=add(rounded,xv,cm);
     F::set_rounding_upward();
     F u=add(rounded,xv,cu);
-    F ml=add(rounded,(-xv),cl);
-    acc_err(ml,u,re);
+    F ml=sub(rounded,(-xv),cl);
+    acc_err(ml,rv,u,re);
     return F(rv);
 }
 
@@ -185,12 +190,12 @@ template<class F> F mul_err(F const& x, ValidatedApproximation<F> const& c, Erro
         F mcl=-cl;
         F u=mul(rounded,xv,cu);
         F ml=mul(rounded,xv,mcl);
-        acc_err(ml,u,re);
+        acc_err(ml,rv,u,re);
     } else {
         F mcu=-cu;
         F u=mul(rounded,xv,cl);
         F ml=mul(rounded,xv,mcu);
-        acc_err(ml,u,re);
+        acc_err(ml,rv,u,re);
     }
     return F(rv);
 }
@@ -311,7 +316,7 @@ template<class F> F fma_err(ValidatedApproximation<F> const& c, F const& x, F y,
         u=fma(xv,cl,yv);
         ml=fma(xv,mcu,myv);
     }
-    acc_err(ml,u,e);
+    acc_err(ml,rv,u,re);
     return F(rv);
 }
 
@@ -344,7 +349,7 @@ template<class F> F lin_err(F const& a1, F const& b1, F const& a2, F const& b2,
     F mb2=-b2;
     Rounded<F> u=cast_rounded(a1)*cast_rounded(b2)+cast_rounded(b1)*cast_rounded(a2);
     Rounded<F> ml=cast_rounded(a1)*cast_rounded(mb2)+cast_rounded(mb1)*cast_rounded(a2);
-    cast_rounded(e) += hlf(ml+u);
+    cast_rounded(e) += max(u-cast_rounded(r),ml+cast_rounded(r));
     return r;
 }
 
-- 
2.43.0


From c62bb368af222b9ecd4ac6fd7c36942de9a22a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:12 +0000
Subject: [PATCH 54/98] fix: product of affine models

---
 source/function/affine_model.tpl.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/function/affine_model.tpl.hpp b/source/function/affine_model.tpl.hpp
index fa87488..64e6934 100644
--- a/source/function/affine_model.tpl.hpp
+++ b/source/function/affine_model.tpl.hpp
@@ -99,9 +99,9 @@ template<class F> struct AlgebraOperations<AffineModel<ApproximateTag,F>> {
         PrecisionType prec=max(a1.precision(),a2.precision());
 
         AffineModelType r(n,prec);
-        r=a1.value()+a2.value();
+        r=a1.value()*a2.value();
         for(SizeType i=0; i!=n; ++i) {
-            r[i]=a1.value()*a2.gradient(i)+a1.gradient(i)+a2.value();
+            r[i]=a1.value()*a2.gradient(i)+a1.gradient(i)*a2.value();
         }
         return r;
     }
@@ -188,7 +188,7 @@ template<class F> struct AlgebraOperations<AffineModel<ValidatedTag,F>> {
         }
 
         r.error() = (r.error()+a1.error()*a2.error())
-                        + ( (mag(a1.value())+norm(a1.gradient()) * a2.error()) + a1.error()*(mag(a2.value())+norm(a2.gradient())) )
+                        + ( (mag(a1.value())+norm(a1.gradient())) * a2.error() + a1.error()*(mag(a2.value())+norm(a2.gradient())) )
                         + norm(a1.gradient()) * norm(a2.gradient());
 
         return r;
-- 
2.43.0


From 62643a1b515b8f1158702f35a1a8d61679e9538a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:12 +0000
Subject: [PATCH 55/98] fix: term order, empty operands and constant addition
 for Chebyshev polynomials

---
 source/function/chebyshev_polynomial.tpl.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/function/chebyshev_polynomial.tpl.hpp b/source/function/chebyshev_polynomial.tpl.hpp
index 7a6e9fe..f4ac5a1 100644
--- a/source/function/chebyshev_polynomial.tpl.hpp
+++ b/source/function/chebyshev_polynomial.tpl.hpp
@@ -98,7 +98,7 @@ template<class X> auto
 UnivariateChebyshevPolynomial<X>::apply(Add, ChebyshevPolynomial<X> cm, X const& s) -> ChebyshevPolynomial<X> {
     if (cm._terms.empty()) { cm._terms.append(0u,s); }
     else if (cm._terms.front().index()==0) { cm._terms.front().coefficient()+=s; }
-    else { assert(false); }
+    else { return cm+constant(s); }
     return cm;
 }
 
@@ -261,7 +261,7 @@ template<class X> auto
 MultivariateChebyshevPolynomial<X>::apply(Add, ChebyshevPolynomial<X> cm, Scalar<X> const& s) -> ChebyshevPolynomial<X> {
     if (cm._terms.empty()) { cm._terms.append(MultiIndex::zero(cm.argument_size()),s); }
     else if (cm._terms.front().index().degree()==0) { cm._terms.front().coefficient()+=s; }
-    else { assert(false); }
+    else { return cm+constant(cm.argument_size(),s); }
     return cm;
 }
 
@@ -281,7 +281,7 @@ MultivariateChebyshevPolynomial<X>::apply(Add, ChebyshevPolynomial<X> const& cm1
         if(iter1->index()==iter2->index()) {
             cmr._terms.append(iter1->index(),iter1->coefficient()+iter2->coefficient());
             ++iter1; ++iter2;
-        } else if(reverse_lexicographic_less(iter1->index(),iter2->index())) {
+        } else if(lexicographic_less(iter1->index(),iter2->index())) {
             cmr._terms.append(iter1->index(),iter1->coefficient());
             ++iter1;
         } else { // iter1->index()>iter2->index()
@@ -307,6 +307,8 @@ MultivariateChebyshevPolynomial<X>::apply(Sub, ChebyshevPolynomial<X> const& cm1
 
 template<class X> auto
 MultivariateChebyshevPolynomial<X>::apply(Mul, ChebyshevPolynomial<X> const& cm1, ChebyshevPolynomial<X> const& cm2) -> ChebyshevPolynomial<X> {
+    ARIADNE_ASSERT(cm1.argument_size()==cm2.argument_size());
+    if (cm1._terms.empty() || cm2._terms.empty()) { return ChebyshevPolynomial<X>(cm1.argument_size(),max(cm1.precision(),cm2.precision())); }
     ConstIterator iter1=cm1._terms.begin(); ConstIterator iter2=cm2._terms.begin();
     ConstIterator end1=cm1._terms.end(); ConstIterator end2=cm2._terms.end();
     return _mul_from(iter1,end1,iter2,end2,0u);
-- 
2.43.0


From 15f8ddccd1a5da736895594e7b6389c70e46718f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:12 +0000
Subject: [PATCH 56/98] fix: multiply by the lowest power of the argument in
 the univariate Horner scheme

---
 source/algebra/evaluate.tpl.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/algebra/evaluate.tpl.hpp b/source/algebra/evaluate.tpl.hpp
index 4686259..0e8c0ce 100644
--- a/source/algebra/evaluate.tpl.hpp
+++ b/source/algebra/evaluate.tpl.hpp
@@ -144,6 +144,10 @@ template<class X, class Y> ArithmeticType<X,Y> horner_evaluate(const Expansion<U
         a=na;
         ++iter;
     }
+    // Multiply by the power of x in the lowest-order term
+    for(SizeType ii=0; ii!=a; ++ii) {
+        r=r*x;
+    }
     return r;
 }
 
-- 
2.43.0


From 34f96d709957a0e71b9ca2e0760cff5f6b038856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:43 +0000
Subject: [PATCH 57/98] fix: do not write past the powers when partially
 evaluating a constant polynomial

---
 source/function/polynomial.tpl.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/function/polynomial.tpl.hpp b/source/function/polynomial.tpl.hpp
index 859e248..d32e1b0 100644
--- a/source/function/polynomial.tpl.hpp
+++ b/source/function/polynomial.tpl.hpp
@@ -406,7 +406,8 @@ Polynomial<I,X>::_partial_evaluate(const Polynomial<I,X>& x, SizeType k, const X
             Array< Polynomial<I,X> > p(x.degree()+1u,Polynomial<I,X>(x.argument_size()-1u,x.zero_coefficient()));
 
             Array<X> cpowers(x.degree()+1u,x.zero_coefficient());
-            cpowers[0]=1; cpowers[1]=c;
+            cpowers[0]=1;
+            if(x.degree()>=1) { cpowers[1]=c; }
             if(x.degree()>=2) { cpowers[2]=sqr(c); }
             for(DegreeType j=3; j<=x.degree(); ++j) {
                 cpowers[j]=cpowers[j-2u]*cpowers[2];
-- 
2.43.0


From 9517b80f24a3d3a799b9de74d959975a075ef1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:43 +0000
Subject: [PATCH 58/98] fix: drop vanishing terms when differentiating a
 polynomial

---
 source/function/polynomial.tpl.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/source/function/polynomial.tpl.hpp b/source/function/polynomial.tpl.hpp
index d32e1b0..4f88ce3 100644
--- a/source/function/polynomial.tpl.hpp
+++ b/source/function/polynomial.tpl.hpp
@@ -140,11 +140,18 @@ template<class I, class X> Void Polynomial<I,X>::clear() { this->_expansion.clea
 template<class I, class X>
 Polynomial<I,X>&
 Polynomial<I,X>::differentiate(VariableIndexType j) {
+    Polynomial<I,X> r(this->argument_size(),this->zero_coefficient());
     for(typename Polynomial<I,X>::Iterator iter=this->begin(); iter!=this->end(); ++iter) {
         IndexReference a=iter->index();
         CoefficientReference c=iter->coefficient();
-        c*=static_cast<Nat>(a[j]); if(a[j]!=0u) { --a[j]; }
+        // Terms independent of the variable vanish; keeping them would break the ordering and uniqueness of the indices
+        if(a[j]!=0u) {
+            c*=static_cast<Nat>(a[j]);
+            --a[j];
+            r._append(iter->index(),iter->coefficient());
+        }
     }
+    this->_expansion.swap(r._expansion);
     return *this;
 }
 
-- 
2.43.0


From e0a6004f0ad5c19146a4519382492adb9b5a3784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:43 +0000
Subject: [PATCH 59/98] fix: constant term and degree of univariate polynomials

---
 source/function/polynomial.tpl.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/function/polynomial.tpl.hpp b/source/function/polynomial.tpl.hpp
index 4f88ce3..5340a52 100644
--- a/source/function/polynomial.tpl.hpp
+++ b/source/function/polynomial.tpl.hpp
@@ -80,7 +80,7 @@ template<class I, class X> auto Polynomial<I,X>::variables(ArgumentSizeType as,
 template<class I, class X> Polynomial<I,X>& Polynomial<I,X>::operator=(const X& x) {
     this->_expansion.clear();
     if constexpr (Same<I,MultiIndex>) { this->_expansion.append(MultiIndex(this->argument_size()),x); }
-    if constexpr (Same<I,DegreeType>) { this->_expansion.append(DegreeType(0u),x); }
+    if constexpr (Same<I,UniIndex>) { this->_expansion.append(UniIndex(0u),x); }
     return *this;
 }
 
@@ -92,7 +92,7 @@ template<class I, class X> SizeType Polynomial<I,X>::number_of_terms() const { r
 template<class I, class X> DegreeType Polynomial<I,X>::degree() const {
     DegreeType deg=0u; for(auto iter=this->_expansion.begin(); iter!=this->_expansion.end(); ++iter) {
         if constexpr (Same<I,MultiIndex>) { deg=std::max(deg,iter->index().degree()); }
-        else if constexpr (Same<I,DegreeType>) { deg=std::max(deg,iter->index()); }
+        else if constexpr (Same<I,UniIndex>) { deg=std::max(deg,DegreeType(iter->index())); }
     }
     return deg;
 }
@@ -239,12 +239,12 @@ template<class I, class X> Polynomial<I,X> AlgebraOperations<Polynomial<I,X>>::a
 
 
 template<class I, class X> Polynomial<I,X> AlgebraOperations<Polynomial<I,X>>::apply(Add, Polynomial<I,X> p, const X& c) {
-    p[IndexType(p.argument_size())]+=c;
+    p[zero_index(p.argument_size())]+=c;
     return p;
 }
 
 template<class I, class X> Polynomial<I,X>& AlgebraOperations<Polynomial<I,X>>::iapply(Add, Polynomial<I,X>& p, const X& c) {
-    p[IndexType(p.argument_size())]+=c;
+    p[zero_index(p.argument_size())]+=c;
     return p;
 }
 
-- 
2.43.0


From b5baa1314292986e2c58765b17d77d508865858a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:31 +0000
Subject: [PATCH 60/98] fix: negative indicator of a conjunction or disjunction

---
 source/symbolic/expression.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/symbolic/expression.cpp b/source/symbolic/expression.cpp
index 6592b5c..574b576 100644
--- a/source/symbolic/expression.cpp
+++ b/source/symbolic/expression.cpp
@@ -320,8 +320,10 @@ RE _indicator(Less, RE e1, RE e2, Sign sign) { return _indicator(Leq(),e1,e2,sig
 RE _indicator(Equal op, RE e1, RE e2, Sign sign) { ARIADNE_FAIL_MSG("Cannot compute indicator function of expression " << op(e1,e2)); }
 RE _indicator(Unequal op, RE e1, RE e2, Sign sign) { ARIADNE_FAIL_MSG("Cannot compute indicator function of expression " << op(e1,e2)); }
 
-RE _indicator(AndOp, KE e1, KE e2, Sign sign) { return min(indicator(e1,sign),indicator(e2,sign)); }
-RE _indicator(OrOp, KE e1, KE e2, Sign sign) { return max(indicator(e1,sign),indicator(e2,sign)); }
+RE _indicator(AndOp, KE e1, KE e2, Sign sign) {
+    if(sign==Sign::POSITIVE) { return min(indicator(e1,sign),indicator(e2,sign)); } else { return max(indicator(e1,sign),indicator(e2,sign)); } }
+RE _indicator(OrOp, KE e1, KE e2, Sign sign) {
+    if(sign==Sign::POSITIVE) { return max(indicator(e1,sign),indicator(e2,sign)); } else { return min(indicator(e1,sign),indicator(e2,sign)); } }
 RE _indicator(NotOp, KE e, Sign sign) { return neg(indicator(e,sign)); }
 
 Expression<Real> indicator(ConstantExpressionNode<Kleenean> e, Sign sign) {
-- 
2.43.0


From dbebb5d01ef1261f262ae16c78e76eec67c11c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:31 +0000
Subject: [PATCH 61/98] fix: opposite accesses the arguments of comparison
 nodes

---
 source/symbolic/expression.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/symbolic/expression.cpp b/source/symbolic/expression.cpp
index 574b576..e73be8c 100644
--- a/source/symbolic/expression.cpp
+++ b/source/symbolic/expression.cpp
@@ -472,10 +472,10 @@ Bool opposite(Expression<Kleenean> e1, Expression<Kleenean> e2) {
     auto* e2cp = std::get_if<BinaryExpressionNode<Kleenean,Real>>(&e2.node_ref());
 
     if (e1cp && e2cp) {
-        if (identical(e1cp->op(),e2cp->op())) {
-            return identical(e1.arg1(),e2.arg2()) && identical(e1.arg2(),e2.arg1());
-        } else if (opposite(e1cp->op(),e2cp->op())) {
-            return identical(e1.arg1(),e2.arg1()) && identical(e1.arg2(),e2.arg2());
+        if (opposite(e1cp->op(),e2cp->op())) {
+            return identical(e1cp->arg1(),e2cp->arg1()) && identical(e1cp->arg2(),e2cp->arg2());
+        } else if (e1cp->op().code()!=Equal::code() && e1cp->op().code()!=Unequal::code() && identical(e1cp->op(),e2cp->op())) {
+            return identical(e1cp->arg1(),e2cp->arg2()) && identical(e1cp->arg2(),e2cp->arg1());
         }
     }
     return false;
-- 
2.43.0


From cbb91985ba0edc07f087e7724faaf3e8cf95436d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:31 +0000
Subject: [PATCH 62/98] fix: ordering of binary expressions with inexact
 constants

---
 source/symbolic/expression.tpl.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/symbolic/expression.tpl.hpp b/source/symbolic/expression.tpl.hpp
index 27aca0c..66ac4d0 100644
--- a/source/symbolic/expression.tpl.hpp
+++ b/source/symbolic/expression.tpl.hpp
@@ -515,8 +515,9 @@ template<class OP, class A> Bool inline _before(Symbolic<OP,A> const& s1, Symbol
     else { return s1.op().code() < s2.op().code(); } }
 template<class OP, class A1, class A2> Bool inline _before(Symbolic<OP,A1,A2> const& s1, Symbolic<OP,A1,A2> const& s2) {
     if (s1.op().code() == s2.op().code()) {
-        if (identical(s1.arg1(),s2.arg1())) { return before(s1.arg2(),s2.arg2()); }
-        else { return before(s1.arg1(),s2.arg1()); }
+        if (before(s1.arg1(),s2.arg1())) { return true; }
+        else if (before(s2.arg1(),s1.arg1())) { return false; }
+        else { return before(s1.arg2(),s2.arg2()); }
     } else { return s1.op().code() < s2.op().code(); } }
 template<class OP, class A, class N> requires AGraded<OP> inline Bool _before(Symbolic<OP,A,N> const& s1, Symbolic<OP,A,N> const& s2) {
     if (s1.op().code() == s2.op().code()) {
-- 
2.43.0


From 2a2dbfb6860f42978dc7b1a829df504d6a331a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:09 +0000
Subject: [PATCH 63/98] fix: equality of intervals

---
 source/geometry/interval.inl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/geometry/interval.inl.hpp b/source/geometry/interval.inl.hpp
index 2740e91..1b41f77 100644
--- a/source/geometry/interval.inl.hpp
+++ b/source/geometry/interval.inl.hpp
@@ -88,7 +88,7 @@ template<class U, class X> inline auto contains(Interval<U> const& ivl1, X const
     return ivl1.lower_bound()<=x2 && ivl1.upper_bound()>=x2; }
 
 template<class U> inline auto equal(Interval<U> const& ivl1, Interval<U> const& ivl2) -> decltype(ivl1.upper_bound()==ivl2.upper_bound()) {
-    return ivl1.lower_bound()<=ivl2.lower_bound() && ivl1.upper_bound()==ivl2.upper_bound(); }
+    return ivl1.lower_bound()==ivl2.lower_bound() && ivl1.upper_bound()==ivl2.upper_bound(); }
 
 template<class UB1, class UB2> inline auto subset(Interval<UB1> const& ivl1, Interval<UB2> const& ivl2) -> decltype(ivl1.upper_bound()<=ivl2.upper_bound()) {
     return ivl1.lower_bound()>=ivl2.lower_bound() && ivl1.upper_bound()<=ivl2.upper_bound(); }
-- 
2.43.0


From 1d8808f6d5d4ebc63b99d48ccb3d6029c66afbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:09 +0000
Subject: [PATCH 64/98] fix: lower bound of widened domain

---
 source/geometry/interval.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/geometry/interval.cpp b/source/geometry/interval.cpp
index 0a17da9..4303271 100644
--- a/source/geometry/interval.cpp
+++ b/source/geometry/interval.cpp
@@ -49,7 +49,7 @@ Interval<FloatDP> widen_domain(Interval<FloatDPUpperBound> const& ivl) {
     if(l==u) { neg_rl=neg_rl+min; ru=ru+min; }
     if(neg_rl<neg_l) { neg_rl=neg_rl+min; }
     if(ru<u) { ru=ru+min; }
-    volatile float rl=-neg_l;
+    volatile float rl=-neg_rl;
     Interval<FloatDP> res(ExactDouble(rl),ExactDouble(ru),dp);
     FloatDP::set_rounding_mode(rnd);
     return res;
-- 
2.43.0


From e1b76d8de779821ebf98afa7326027150c5df07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:08 +0000
Subject: [PATCH 65/98] fix: cloning a sub-paving copies its cells

---
 source/geometry/grid_paving.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/geometry/grid_paving.cpp b/source/geometry/grid_paving.cpp
index dfe910f..b734899 100644
--- a/source/geometry/grid_paving.cpp
+++ b/source/geometry/grid_paving.cpp
@@ -1182,7 +1182,9 @@ Bool GridTreeSubpaving::intersects(const SubPavingInterface& paving) const {
 
 GridTreeSubpaving* GridTreeSubpaving::clone( ) const {
     // Return a GridTreeSet to ensure that memory is copied.
-    return new GridTreePaving(this->grid(),this->_pRootTreeNode);
+    GridTreePaving* pResult = new GridTreePaving(this->grid());
+    pResult->adjoin(*this);
+    return pResult;
 }
 
 
-- 
2.43.0


From 65b70bde8472dc4f6dc0c981d58dfb6ee996195f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:08 +0000
Subject: [PATCH 66/98] fix: an empty sub-paving is a subset of any other

---
 source/geometry/grid_paving.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/geometry/grid_paving.cpp b/source/geometry/grid_paving.cpp
index b734899..1c7b03e 100644
--- a/source/geometry/grid_paving.cpp
+++ b/source/geometry/grid_paving.cpp
@@ -1965,10 +1965,10 @@ Bool subset( const GridTreeSubpaving& theSet1, const GridTreeSubpaving& theSet2
             pathCommonPCtoRC1.erase_prefix( pathCommonPCtoRC2.size() );
             result = subset( theSet1.binary_tree(), theSet2.binary_tree(), pathCommonPCtoRC1 );
         } else {
-            //theSet1 is a definitely not a subset of theSet2 Since their bounding boxes
-            //are disjoint, due to paths (from the common primary cell to their root nodes)
-            //that have different suffixes.
-            result = false;
+            //The bounding boxes of theSet1 and theSet2 are disjoint, due to paths (from the
+            //common primary cell to their root nodes) that have different suffixes, so
+            //theSet1 is a subset of theSet2 only if it is empty.
+            result = ! theSet1.binary_tree()->has_enabled();
         }
     }
 
-- 
2.43.0


From c939b96c4621cf86fa5c23e6a9f87388a9c7e44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:08 +0000
Subject: [PATCH 67/98] fix: image of a paving under a projection uses every
 subdivision level

---
 source/geometry/grid_paving.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/geometry/grid_paving.cpp b/source/geometry/grid_paving.cpp
index 1c7b03e..e659555 100644
--- a/source/geometry/grid_paving.cpp
+++ b/source/geometry/grid_paving.cpp
@@ -3088,7 +3088,7 @@ GridTreePaving image(const GridTreePaving& theSet, const Projection& theProjecti
         SizeType n=theWord.size()/theSet.dimension()*theResultSet.dimension();
         resultWord.reserve(n);
         for (SizeType i=0; i!=n; ++i) {
-            resultWord.append(theWord[theProjection[i%theResultSet.dimension()]]);
+            resultWord.append(theWord[(i/theResultSet.dimension())*theSet.dimension()+theProjection[i%theResultSet.dimension()]]);
         }
         theResultSet._adjoin_cell(theCell.root_extent(),resultWord);
     }
-- 
2.43.0


From 29d4f5d5326e8601c9fb2c69bf08a75e03194af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:09 +0000
Subject: [PATCH 68/98] fix: setting a tree node clears its deleted children

---
 source/geometry/binary_tree.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/geometry/binary_tree.hpp b/source/geometry/binary_tree.hpp
index 0e4deb4..da9868b 100644
--- a/source/geometry/binary_tree.hpp
+++ b/source/geometry/binary_tree.hpp
@@ -357,9 +357,11 @@ inline Void BinaryTreeNode::set(Bool enabled_or_disabled) {
     _isEnabled = enabled_or_disabled;
     if( _pLeftNode != nullptr ) {
         delete _pLeftNode;
+        _pLeftNode = nullptr;
     }
     if( _pRightNode != nullptr ) {
         delete _pRightNode;
+        _pRightNode = nullptr;
     }
 }
 
-- 
2.43.0


From 21f1a3214d7ab5288616fe710c6d770c1c4369be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:09 +0000
Subject: [PATCH 69/98] fix: vectors of different sizes are not equal

---
 source/algebra/vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/algebra/vector.hpp b/source/algebra/vector.hpp
index e5d7c76..9d8ab8e 100644
--- a/source/algebra/vector.hpp
+++ b/source/algebra/vector.hpp
@@ -463,6 +463,7 @@ struct ProvideVectorOperations {
     }
 
     template<class X1, class X2> friend EqualsType<X1,X2> operator==(const Vector<X1>& v1, const Vector<X2>& v2) {
+        if(v1.size()!=v2.size()) { return decltype(v1[0]==v2[0])(false); }
         decltype(v1[0]==v2[0]) r(true);
         for(SizeType i=0; i!=v1.size(); ++i) {
             r = r && (v1[i]==v2[i]);
@@ -471,6 +472,7 @@ struct ProvideVectorOperations {
     }
 
     template<class X1, class X2> friend decltype(declval<X1>()!=declval<X2>()) operator!=(const Vector<X1>& v1, const Vector<X2>& v2) {
+        if(v1.size()!=v2.size()) { return decltype(v1[0]!=v2[0])(true); }
         decltype(v1[0]!=v2[0]) r(false);
         for(SizeType i=0; i!=v1.size(); ++i) {
             r = r || (v1[i]!=v2[i]);
-- 
2.43.0


From 87677d2adfa51328b91c134e66b6c254276c456e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:10 +0000
Subject: [PATCH 70/98] fix: Advance the interval lying to the left when
 intersecting unions of intervals

---
 source/geometry/union_of_intervals.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/geometry/union_of_intervals.hpp b/source/geometry/union_of_intervals.hpp
index 58fab8f..7695061 100644
--- a/source/geometry/union_of_intervals.hpp
+++ b/source/geometry/union_of_intervals.hpp
@@ -128,9 +128,9 @@ template<class U> UnionOfIntervals<U> UnionOfIntervals<U>::_intersection(UnionOf
     auto iter2=ivls2.begin();
     while (iter1!=ivls1.end() && iter2!=ivls2.end()) {
         if (iter1->lower_bound() >= iter2->upper_bound()) {
-            ++iter1;
-        } else if (iter2->lower_bound() >= iter1->upper_bound()) {
             ++iter2;
+        } else if (iter2->lower_bound() >= iter1->upper_bound()) {
+            ++iter1;
         } else {
             rivls.append(Interval<U>(max(iter1->lower_bound(),iter2->lower_bound()),min(iter1->upper_bound(),iter2->upper_bound())));
             if (iter1->upper_bound()<iter2->upper_bound()) { ++iter1; } else { ++iter2; }
-- 
2.43.0


From cb11f9f8fbf976529e3449e0e27ab5866f112626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:10 +0000
Subject: [PATCH 71/98] fix: Define the measure of an empty union of intervals

---
 source/geometry/union_of_intervals.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/source/geometry/union_of_intervals.hpp b/source/geometry/union_of_intervals.hpp
index 7695061..fd40d8f 100644
--- a/source/geometry/union_of_intervals.hpp
+++ b/source/geometry/union_of_intervals.hpp
@@ -180,6 +180,13 @@ template<class U> Bool UnionOfIntervals<U>::_subset(UnionOfIntervals<U> const& i
 
 
 template<class U> auto UnionOfIntervals<U>::measure() const -> MeasureType {
+    if constexpr (DefaultConstructible<U>) {
+        if (this->_data.empty()) { return MeasureType(nul(Interval<U>(U(),U()).width())); }
+    } else if constexpr (DefaultConstructible<PrecisionType<U>>) {
+        PrecisionType<U> pr;
+        if (this->_data.empty()) { return MeasureType(nul(Interval<U>(U(pr),U(pr)).width())); }
+    }
+    ARIADNE_ASSERT(!this->_data.empty());
     MeasureType r(nul(_data[0].width()));
     for (auto ivl : this->_data) {
         r+=ivl.width();
-- 
2.43.0


From e7f8977067ebd6edb3281d59904ef1326f13e1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:10 +0000
Subject: [PATCH 72/98] fix: Do not read past the last interval when combining
 unions with extended logical comparisons

---
 source/geometry/union_of_intervals.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/geometry/union_of_intervals.hpp b/source/geometry/union_of_intervals.hpp
index fd40d8f..959d07c 100644
--- a/source/geometry/union_of_intervals.hpp
+++ b/source/geometry/union_of_intervals.hpp
@@ -210,7 +210,7 @@ template<class U> Void UnionOfIntervals<U>::_combine() {
     while (next!=end()) {
         *curr=*next;
         ++next;
-        while (next!=end() && next->lower_bound()<=curr->upper_bound()) {
+        while (next!=end() && static_cast<bool>(next->lower_bound()<=curr->upper_bound())) {
             curr->set_upper_bound(max(curr->upper_bound(),next->upper_bound()));
             ++next;
         }
-- 
2.43.0


From f827f766e4f3c2b07482aa421f6607b8609b1c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:10 +0000
Subject: [PATCH 73/98] fix: Sort and combine unions of intervals constructed
 with a precision

---
 source/geometry/union_of_intervals.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/source/geometry/union_of_intervals.hpp b/source/geometry/union_of_intervals.hpp
index 959d07c..804e627 100644
--- a/source/geometry/union_of_intervals.hpp
+++ b/source/geometry/union_of_intervals.hpp
@@ -55,7 +55,7 @@ template<class U> class UnionOfIntervals {
             : _data(ivls._data) { }
     template<class UU, class... PRS> requires Constructible<U,UU,PRS...>
         UnionOfIntervals(List<Interval<UU>> ivls, PRS... prs)
-            : _data(Ariadne::apply([&](Interval<UU>const& ivl){return Interval<U>(ivl,prs...);},ivls)) { }
+            : _data(Ariadne::apply([&](Interval<UU>const& ivl){return Interval<U>(ivl,prs...);},ivls)) { this->_sort(); this->_combine(); }
 
     UnionOfIntervals(InitializerList<Interval<U>> ivls) : UnionOfIntervals(List<Interval<U>>(ivls)) { }
     template<class... PRS> requires Constructible<U,Dyadic,PRS...>
@@ -204,7 +204,6 @@ template<class U> Void UnionOfIntervals<U>::_sort() {
 }
 
 template<class U> Void UnionOfIntervals<U>::_combine() {
-    ConstIterator start=begin();
     Iterator curr=_data.begin();
     ConstIterator next=curr;
     while (next!=end()) {
@@ -217,7 +216,7 @@ template<class U> Void UnionOfIntervals<U>::_combine() {
         ++curr;
     }
 
-    _data.resize(static_cast<SizeType>(curr-start));
+    _data.erase(curr,_data.end());
 }
 
 } // namespace Ariadne
-- 
2.43.0


From 2dbdc03313b95156daaa1cf6f10abe22fbb5779f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:10 +0000
Subject: [PATCH 74/98] fix: Add the errors of intersected lower measurable
 sets

---
 source/geometry/measurable_set.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/geometry/measurable_set.hpp b/source/geometry/measurable_set.hpp
index 7304405..842690d 100644
--- a/source/geometry/measurable_set.hpp
+++ b/source/geometry/measurable_set.hpp
@@ -147,7 +147,7 @@ template<class S, class E> class LowerMeasurableSetModel {
     friend LowerMeasurableSetModel<S,E> intersection(LowerMeasurableSetModel<S,E> const& lms, BasicSetType const& bs) {
         return LowerMeasurableSetModel(intersection(lms._set,bs),lms._error); }
     friend LowerMeasurableSetModel<S,E> intersection(LowerMeasurableSetModel<S,E> const& lms1, LowerMeasurableSetModel<S,E> const& lms2) {
-        return LowerMeasurableSetModel(intersection(lms1._set,lms2._set),min(lms1._error,lms2._error)); }
+        return LowerMeasurableSetModel(intersection(lms1._set,lms2._set),lms1._error+lms2._error); }
     friend LowerMeasurableSetModel<S,E> join(LowerMeasurableSetModel<S,E> const& lms1, LowerMeasurableSetModel<S,E> const& lms2) {
         return LowerMeasurableSetModel(join(lms1._set,lms2._set),lms1._error+lms2._error); }
     friend OutputStream& operator<<(OutputStream& os, LowerMeasurableSetModel<S,E> const& lms) {
-- 
2.43.0


From 01694e4f66692b5ff4949be19a3706612cf54fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:10 +0000
Subject: [PATCH 75/98] fix: Release the old elements in Array move assignment

---
 source/utility/array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/utility/array.hpp b/source/utility/array.hpp
index c3e33ce..df53e87 100644
--- a/source/utility/array.hpp
+++ b/source/utility/array.hpp
@@ -132,7 +132,7 @@ class Array {
         return *this; }
     //! \brief Move assignment.
     Array<T>& operator=(Array<T>&& a) {
-        if(this!=&a) { this->_size=a._size; this->_ptr=a._ptr; a._size=0u; a._ptr=nullptr; } return *this; }
+        if(this!=&a) { this->_destroy_elements(); uninitialized_delete(_ptr); this->_size=a._size; this->_ptr=a._ptr; a._size=0u; a._ptr=nullptr; } return *this; }
 
     //! \brief True if the Array's size is 0.
     bool empty() const { return _size==0u; }
-- 
2.43.0


From c0d156c16f6d95dd9adfb5999a1f7c15a11889a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:10 +0000
Subject: [PATCH 76/98] fix: Release shared arrays when the last reference is
 destroyed

---
 source/utility/array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/utility/array.hpp b/source/utility/array.hpp
index df53e87..d918fc5 100644
--- a/source/utility/array.hpp
+++ b/source/utility/array.hpp
@@ -228,7 +228,7 @@ template<class T> class SharedArray {
     typedef ValueType const* ConstIterator;
     SizeType* _count; SizeType _size; T* _ptr;
   public:
-    ~SharedArray() { --_count; if(*_count==0) { delete[] _ptr; } }
+    ~SharedArray() { --*_count; if(*_count==0) { delete _count; delete[] _ptr; } }
     SharedArray(SizeType n) : _count(new SizeType(1u)), _size(n), _ptr(new T[n]) { }
     SharedArray(SizeType n, const T& x) : SharedArray(n) {
         for(SizeType i=0; i!=n; ++i) { _ptr[i]=x; } }
-- 
2.43.0


From 88a3a01f9ebcee82a12cb3de72633af322acf9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:10 +0000
Subject: [PATCH 77/98] fix: Make Set::restrict keep, rather than remove, the
 given elements

---
 source/utility/container.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/utility/container.hpp b/source/utility/container.hpp
index 6b3e6c2..ec2cbb3 100644
--- a/source/utility/container.hpp
+++ b/source/utility/container.hpp
@@ -185,7 +185,7 @@ template<class T, class CMP> class Set : public std::set<T,CMP> {
         return *this; }
     Set<T>& restrict(const std::set<T,CMP>& s) {
         auto iter=this->begin();
-        while(iter!=this->end()) { if(s.find(*iter)!=s.end()) { this->erase(iter++); } else { ++iter; } }
+        while(iter!=this->end()) { if(s.find(*iter)==s.end()) { this->erase(iter++); } else { ++iter; } }
         return *this; }
     template<class TT> Set<T>& remove(const std::vector<TT>& l) {
         for(auto iter=l.begin(); iter!=l.end(); ++iter) {
-- 
2.43.0


From 07f299d2f2be78ec01fa560dd64784ca9233d009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:10 +0000
Subject: [PATCH 78/98] fix: Return the element from UniformArray element
 assignment

---
 source/utility/uniform_array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/utility/uniform_array.hpp b/source/utility/uniform_array.hpp
index 17d44de..dbc5d7f 100644
--- a/source/utility/uniform_array.hpp
+++ b/source/utility/uniform_array.hpp
@@ -66,7 +66,7 @@ template<class T, class PR> struct Element<UniformArray<T,PR>> {
     UniformArray<T,PR>& _ary; SizeType _i;
   public:
     Element(UniformArray<T,PR>& ary, SizeType i) : _ary(ary), _i(i) { }
-    Element<UniformArray<T,PR>>& operator=(T const& t) { this->_ary.set(this->_i,t); }
+    Element<UniformArray<T,PR>>& operator=(T const& t) { this->_ary.set(this->_i,t); return *this; }
     operator T const& () const { return this->_ary.get(this->_i); }
 };
 
-- 
2.43.0


From 4a7c7d6466525a4dffa65ab97e7b99cc3f528c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:11 +0000
Subject: [PATCH 79/98] fix: Release the old elements in UniformArray move
 assignment

---
 source/utility/uniform_array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/utility/uniform_array.hpp b/source/utility/uniform_array.hpp
index dbc5d7f..00441ae 100644
--- a/source/utility/uniform_array.hpp
+++ b/source/utility/uniform_array.hpp
@@ -188,7 +188,7 @@ class UniformArray
         return *this; }
     //! \brief Move assignment.
     UniformArray<T>& operator=(UniformArray<T>&& a) {
-        if(this!=&a) { this->_set_configuration(a.configuration()); this->_size=a._size; this->_ptr=a._ptr; a._size=0u; a._ptr=nullptr; } return *this; }
+        if(this!=&a) { this->_destroy_elements(); uninitialized_delete(_ptr); this->_set_configuration(a.configuration()); this->_size=a._size; this->_ptr=a._ptr; a._size=0u; a._ptr=nullptr; } return *this; }
 
     //! \brief The common configuration of the array's elements.
     ConfigurationType configuration() const { return static_cast<PR const&>(*this); }
-- 
2.43.0


From 55a0301ded72f25aa3a14e3b159a6cc4a8e6a40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:11 +0000
Subject: [PATCH 80/98] fix: Swap the configurations of uniform arrays

---
 source/utility/uniform_array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/utility/uniform_array.hpp b/source/utility/uniform_array.hpp
index 00441ae..7f67685 100644
--- a/source/utility/uniform_array.hpp
+++ b/source/utility/uniform_array.hpp
@@ -216,7 +216,7 @@ class UniformArray
     void reallocate(SizeType n) { if(size()!=n) { this->_destroy_elements(); uninitialized_delete(_ptr);
         _size=n; _ptr=uninitialized_new(_size); for(SizeType i=0; i!=_size; ++i) { new (_ptr+i) T(_make_default()); } } }
     //! \brief Efficiently swap two arrays.
-    void swap(UniformArray<T>& a) { std::swap(_size,a._size); std::swap(_ptr,a._ptr); }
+    void swap(UniformArray<T>& a) { std::swap(static_cast<PR&>(*this),static_cast<PR&>(a)); std::swap(_size,a._size); std::swap(_ptr,a._ptr); }
 
 
     //! \brief Get the \a n th element (unchecked).
-- 
2.43.0


From d8084fc906c2533f68bd7ab2492a33b159721395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:11 +0000
Subject: [PATCH 81/98] fix: Avoid negating the least exponent when testing a
 Dyadic for infinity

---
 source/numeric/dyadic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/numeric/dyadic.cpp b/source/numeric/dyadic.cpp
index 199edd8..ba37846 100644
--- a/source/numeric/dyadic.cpp
+++ b/source/numeric/dyadic.cpp
@@ -54,7 +54,7 @@ template<> class ExtensionOperations<Dyadic> {
 
   public:
     static Bool is_nan(Dyadic const& x) { return x._mpf[0]._mp_size==0 and x._mpf[0]._mp_exp==nan_flag; }
-    static Bool is_inf(Dyadic const& x) { return x._mpf[0]._mp_size==0 and std::abs(x._mpf[0]._mp_exp)==1; }
+    static Bool is_inf(Dyadic const& x) { return x._mpf[0]._mp_size==0 and (x._mpf[0]._mp_exp==1 or x._mpf[0]._mp_exp==-1); }
     static Bool is_finite(Dyadic const& x) { return x._mpf[0]._mp_size!=0 || x._mpf[0]._mp_exp==0; }
     static Bool is_zero(Dyadic const& x) { return x._mpf[0]._mp_size==0 && x._mpf[0]._mp_exp==0; }
 
-- 
2.43.0


From 1c647a02e0ccedf6e1d735951bea3a30fb11ebdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:11 +0000
Subject: [PATCH 82/98] fix: Release temporaries when constructing a Dyadic
 from text

---
 source/numeric/dyadic.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/numeric/dyadic.cpp b/source/numeric/dyadic.cpp
index ba37846..0a603a9 100644
--- a/source/numeric/dyadic.cpp
+++ b/source/numeric/dyadic.cpp
@@ -153,16 +153,19 @@ Dyadic::Dyadic(TwoExp const& w) : Dyadic(1u) {
 }
 
 Dyadic::Dyadic(String const& str)
+    : Dyadic()
 {
     mpf_t _mpf_tmp;
     mp_bitcnt_t prec=std::ceil(3+str.size()*3.322265625);
     mpf_init2(_mpf_tmp,prec);
     int fail = mpf_set_str(_mpf_tmp,str.c_str(),10);
+    if (fail==0) {
+        mpf_set(_mpf,_mpf_tmp);
+    }
+    mpf_clear(_mpf_tmp);
     if (fail!=0) {
         ARIADNE_THROW(std::runtime_error,"Dyadic(string)","String \""<<str<<"\" does not have a valid dyadic number format.");
     }
-    mpf_init2(_mpf,maximum_precision);
-    mpf_set(_mpf,_mpf_tmp);
 
     if (Decimal(*this)!=Decimal(str)) {
         ARIADNE_THROW(std::runtime_error,"Dyadic(string)","String \""<<str<<"\" does not represent an exact dyadic number.");
-- 
2.43.0


From aad6a5eba252cdeb8027ed1cf6397f8e5ae84176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:27 +0000
Subject: [PATCH 83/98] fix: Release the old significand in
 FloatMP::set_precision

---
 source/numeric/floatmp.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/numeric/floatmp.cpp b/source/numeric/floatmp.cpp
index 1d505fc..90cb740 100644
--- a/source/numeric/floatmp.cpp
+++ b/source/numeric/floatmp.cpp
@@ -265,6 +265,7 @@ Void FloatMP::set_precision(MultiplePrecision pr) {
     mpfr_init2(tmp,pr);
     mpfr_set(tmp,_mpfr,get_rounding_mode());
     mpfr_swap(_mpfr,tmp);
+    mpfr_clear(tmp);
 }
 
 FloatMP::ExponentType FloatMP::exponent() const {
-- 
2.43.0


From c131eaaedcab61c3fd95668050e4277abdfaad72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:27 +0000
Subject: [PATCH 84/98] fix: Print a FloatMP of any length

---
 source/numeric/floatmp.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/source/numeric/floatmp.cpp b/source/numeric/floatmp.cpp
index 90cb740..579cd73 100644
--- a/source/numeric/floatmp.cpp
+++ b/source/numeric/floatmp.cpp
@@ -499,13 +499,12 @@ String print(const mpfr_t x, int fdgts, mpfr_rnd_t rnd) {
     std::strcpy(fmt,"%.");
     std::snprintf(fmt+2, 14, "%d", fdgts);
     std::strcat(fmt,"R*f");
-    static const uint buf_size=1024;
-    char cstr[buf_size];
-    // uint buf_size = zdgts+fdgts+8;
-    mpfr_snprintf(cstr,buf_size,fmt,rnd,x);
-    if(fdgts==0) { std::strcat(cstr,"."); }
-    cstr[1023]='\0';
-    return String(cstr);
+    const int length = mpfr_snprintf(nullptr,0,fmt,rnd,x);
+    std::vector<char> cstr(static_cast<std::size_t>(length)+1u);
+    mpfr_snprintf(cstr.data(),cstr.size(),fmt,rnd,x);
+    String str(cstr.data());
+    if(fdgts==0) { str+="."; }
+    return str;
 }
 
 String print(const mpfr_t x, int zdgts, int fdgts, mpfr_rnd_t rnd) {
-- 
2.43.0


From deeb7df8dd1f3e72f7bc50a69ec423db10815faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:27 +0000
Subject: [PATCH 85/98] fix: Take the error digits of a FloatMP ball from the
 error's own text

---
 source/numeric/float_ball.cpp | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/source/numeric/float_ball.cpp b/source/numeric/float_ball.cpp
index fb18cfa..3ab01b6 100644
--- a/source/numeric/float_ball.cpp
+++ b/source/numeric/float_ball.cpp
@@ -75,8 +75,10 @@ template<> OutputStream& Operations<FloatBall<MultiplePrecision>>::_write(Output
     // Find position of first significan digit of error
     auto vcstr=vstr.c_str(); auto ecstr=estr.c_str();
     size_t cpl=0;
+    size_t epl=0;
     if(edbl==0.0) {
         cpl=std::strlen(vcstr);
+        epl=std::strlen(ecstr);
     } else if(edbl<1.0) {
         const char* vptr = std::strchr(vcstr,'.');
         const char* eptr = std::strchr(ecstr,'.');
@@ -84,21 +86,12 @@ template<> OutputStream& Operations<FloatBall<MultiplePrecision>>::_write(Output
         while((*eptr)=='0') { ++eptr; ++vptr; }
 
         cpl = static_cast<size_t>(vptr-vcstr);
+        epl = static_cast<size_t>(eptr-ecstr);
     }
 
 
     // Chop and catenate strings
-    static const size_t buf_sz = 1024;
-    char ocstr[buf_sz];
-    ocstr[0]='\0';
-    std::strncat(ocstr,vcstr,cpl);
-    std::strcat(ocstr,"[");
-    std::strcat(ocstr,vcstr+cpl);
-    std::strcat(ocstr,pmstr);
-    std::strcat(ocstr,ecstr+cpl);
-    std::strcat(ocstr,hlfstr);
-    std::strcat(ocstr,"]");
-    return os << ocstr;
+    return os << String(vcstr,cpl) << "[" << vcstr+cpl << pmstr << ecstr+epl << hlfstr << "]";
 
     return os << x.value() << "\u00b1" << x.error();
 }
-- 
2.43.0


From a9099a42520215e97a9cc0779b280143a0968a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:27 +0000
Subject: [PATCH 86/98] fix: Stop comparing Chebyshev indices at the end of the
 expansion

---
 source/function/chebyshev_polynomial.tpl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/function/chebyshev_polynomial.tpl.hpp b/source/function/chebyshev_polynomial.tpl.hpp
index f4ac5a1..286587d 100644
--- a/source/function/chebyshev_polynomial.tpl.hpp
+++ b/source/function/chebyshev_polynomial.tpl.hpp
@@ -335,7 +335,7 @@ template<class X> class ChebyshevValues {
         for(SizeType j=_lst.size(); j<=i; ++j) { _lst.append(2*_lst[1]*_lst[j-1]-_lst[j-2]); } return _lst[i]; }
 };
 
-inline Boolean equal_up_to(MultiIndex const& a1, MultiIndex const& a2, SizeType k) {
+inline Bool equal_up_to(MultiIndex const& a1, MultiIndex const& a2, SizeType k) {
     for (SizeType i=0; i!=k; ++i) { if (a1[i]!=a2[i]) { return false; } } return true;
 }
 
-- 
2.43.0


From 2c35abf7aba116b0f3184da7f2b979f525675ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:27 +0000
Subject: [PATCH 87/98] fix: Release the logical value of compared generic
 numbers

---
 source/numeric/logical.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/numeric/logical.cpp b/source/numeric/logical.cpp
index 67f0006..866e33d 100644
--- a/source/numeric/logical.cpp
+++ b/source/numeric/logical.cpp
@@ -81,6 +81,7 @@ LogicalInterface* new_logical_pointer_from_value(LogicalValue v) {
 }
 
 LogicalValue logical_value_from_pointer(LogicalInterface* ptr) {
+    SharedPointer<LogicalInterface> owner(ptr);
     auto vlptr=dynamic_cast<LogicalWrapper<LogicalValue>*>(ptr);
     if (!vlptr) { throw std::runtime_error("logical_type_from_pointer: No conversion from abstract to concrete logical value"); }
     return *vlptr;
-- 
2.43.0


From 9bc49fdda4f88c5a7d9c0a227c868fb1fe369017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:27 +0000
Subject: [PATCH 88/98] fix: Keep the working path of paving approximations on
 the stack

---
 source/geometry/grid_paving.cpp | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/source/geometry/grid_paving.cpp b/source/geometry/grid_paving.cpp
index e659555..81d01d4 100644
--- a/source/geometry/grid_paving.cpp
+++ b/source/geometry/grid_paving.cpp
@@ -2434,11 +2434,10 @@ Void GridTreePaving::adjoin_outer_approximation( const EffectiveEuclideanCompact
         const Nat max_mince_tree_depth = zero_cell_subdivisions_to_tree_subdivisions( numSubdivInDim, outer_approx_primary_cell_extent, 0 );
 
         //Adjoin the outer approximation, computing it on the fly.
-        BinaryWord * pEmptyPath = new BinaryWord();
+        BinaryWord theEmptyPath;
         _adjoin_outer_approximation( GridTreeSubpaving::_theGridCell.grid(), pBinaryTreeNode, outer_approx_primary_cell_extent,
-                                     max_mince_tree_depth, theSet, pEmptyPath );
-
-        delete pEmptyPath;
+                                     max_mince_tree_depth, theSet, &theEmptyPath );
+
     }
 }
 
@@ -2466,11 +2465,10 @@ Void GridTreePaving::adjoin_outer_approximation( const ValidatedEuclideanCompact
         const Nat max_mince_tree_depth = zero_cell_subdivisions_to_tree_subdivisions( numSubdivInDim, outer_approx_primary_cell_extent, 0 );
 
         //Adjoin the outer approximation, computing it on the fly.
-        BinaryWord * pEmptyPath = new BinaryWord();
+        BinaryWord theEmptyPath;
         _adjoin_outer_approximation( GridTreeSubpaving::_theGridCell.grid(), pBinaryTreeNode, outer_approx_primary_cell_extent,
-                                     max_mince_tree_depth, theSet, pEmptyPath );
-
-        delete pEmptyPath;
+                                     max_mince_tree_depth, theSet, &theEmptyPath );
+
     }
 }
 
@@ -2498,17 +2496,16 @@ Void GridTreePaving::adjoin_lower_approximation( const EffectiveEuclideanOvertSe
         const Nat max_mince_tree_depth = zero_cell_subdivisions_to_tree_subdivisions( numSubdivInDim, heightInDim, 0 );
 
         //Adjoin the outer approximation, computing it on the fly.
-        BinaryWord * pEmptyPath = new BinaryWord();
+        BinaryWord theEmptyPath;
         //const EffectiveEuclideanRegularSetInterface* theRegularVersionOfSet = dynamic_cast<const EffectiveEuclideanRegularSetInterface*>(&theSet);
         const EffectiveEuclideanOpenSetInterface* theOpenVersionOfSet = dynamic_cast<const EffectiveEuclideanOpenSetInterface*>(&theSet);
         //const EffectiveEuclideanLocatedSetInterface* theLocatedVersionOfSet = dynamic_cast<const EffectiveEuclideanLocatedSetInterface*>(&theSet);
         const EffectiveEuclideanOvertSetInterface* theOvertVersionOfSet = dynamic_cast<const EffectiveEuclideanOvertSetInterface*>(&theSet);
         if( theOpenVersionOfSet ) {
-            _adjoin_lower_approximation( GridTreeSubpaving::_theGridCell.grid(), pBinaryTreeNode, heightInDim, max_mince_tree_depth, *theOpenVersionOfSet, pEmptyPath );
+            _adjoin_lower_approximation( GridTreeSubpaving::_theGridCell.grid(), pBinaryTreeNode, heightInDim, max_mince_tree_depth, *theOpenVersionOfSet, &theEmptyPath );
         } else {
-            _adjoin_lower_approximation( GridTreeSubpaving::_theGridCell.grid(), pBinaryTreeNode, heightInDim, max_mince_tree_depth, *theOvertVersionOfSet, pEmptyPath );
-        }
-        delete pEmptyPath;
+            _adjoin_lower_approximation( GridTreeSubpaving::_theGridCell.grid(), pBinaryTreeNode, heightInDim, max_mince_tree_depth, *theOvertVersionOfSet, &theEmptyPath );
+        }
     }
 }
 
@@ -2591,9 +2588,8 @@ Void GridTreePaving::adjoin_inner_approximation( const EffectiveEuclideanOpenSet
         const Nat max_mince_tree_depth = zero_cell_subdivisions_to_tree_subdivisions( numSubdivInDim, extent, 0 );
 
         //Adjoin the inner approximation, computing it on the fly.
-        BinaryWord * pEmptyPath = new BinaryWord();
-        _adjoin_inner_approximation( GridTreeSubpaving::_theGridCell.grid(), pBinaryTreeNode, extent, max_mince_tree_depth, theSet, pEmptyPath );
-        delete pEmptyPath;
+        BinaryWord theEmptyPath;
+        _adjoin_inner_approximation( GridTreeSubpaving::_theGridCell.grid(), pBinaryTreeNode, extent, max_mince_tree_depth, theSet, &theEmptyPath );
     }
 }
 
-- 
2.43.0


From 0efc2081f31ad84943c8bf898491495f3759f3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:43 +0000
Subject: [PATCH 89/98] fix: Scale the radius down when bounding the terms of
 an exponential

---
 source/algebra/algebra_operations.tpl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/algebra/algebra_operations.tpl.hpp b/source/algebra/algebra_operations.tpl.hpp
index eb4a953..561880e 100644
--- a/source/algebra/algebra_operations.tpl.hpp
+++ b/source/algebra/algebra_operations.tpl.hpp
@@ -324,7 +324,7 @@ template<class A> A NormedAlgebraOperations<A>::apply(Exp, const A& x)
     while(decide(Dyadic(pow(two,static_cast<int>(sfp)))<rad)) { ++sfp; }
     Dyadic sf=pow(two,static_cast<int>(sfp));
     A y = (x-avg)/sf;
-    auto yrad=rad*mag((avg-avg)+sf);
+    auto yrad=rad*mag(rec((avg-avg)+sf));
 
     // Find the required degree
     Nat deg = 0;
-- 
2.43.0


From ad77b819e3fe767e8e2b38fd8a1383e0e9c90fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:43 +0000
Subject: [PATCH 90/98] fix: Report solutions which cannot be verified as
 unknown

---
 source/solvers/solver.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/source/solvers/solver.cpp b/source/solvers/solver.cpp
index 8368e43..d837b81 100644
--- a/source/solvers/solver.cpp
+++ b/source/solvers/solver.cpp
@@ -143,7 +143,13 @@ auto SolverBase::solve(const ValidatedVectorMultivariateFunction& f,
     -> Vector<ValidatedNumericType>
 {
     Set< Vector<ValidatedNumericType> > r = this->solve_all(f,bx);
-    if(r.size()==0u) { ARIADNE_THROW(NoSolutionException,"SolverBase::solve","no solution in solve("<<f<<","<<bx<<")"); }
+    if(r.size()==0u) {
+        // The solutions returned by solve_all are only those which can be verified
+        if(inconsistent(f.evaluate(cast_singleton(bx)),Vector<ValidatedNumericType>(f.result_size(),dp))) {
+            ARIADNE_THROW(NoSolutionException,"SolverBase::solve","no solution in solve("<<f<<","<<bx<<")");
+        }
+        ARIADNE_THROW(UnknownSolutionException,"SolverBase::solve","no solution verified in solve("<<f<<","<<bx<<")");
+    }
     if(r.size()!=1u) { ARIADNE_THROW(SolverException,"SolverBase::solve","non-unique solution in solve("<<f<<","<<bx<<")"); }
     return *r.begin();
 }
@@ -367,7 +373,7 @@ auto SolverBase::implicit(const ValidatedVectorMultivariateFunction& f,
         }
     }
 
-    ARIADNE_THROW(NoSolutionException,"SolverBase::implicit","Could not prove existence of a solution in "<<ix<<".");
+    ARIADNE_THROW(UnknownSolutionException,"SolverBase::implicit","Could not prove existence of a solution in "<<ix<<".");
 }
 
 ValidatedScalarMultivariateFunctionPatch
-- 
2.43.0


From 19202c3e7c2af6435b55c9f894f70d08cfdf1d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:13 +0000
Subject: [PATCH 91/98] fix: back-propagation through nonlinear operations
 drops no solutions

---
 source/function/procedure.tpl.hpp | 71 +++++++++++++++++--------------
 1 file changed, 40 insertions(+), 31 deletions(-)

diff --git a/source/function/procedure.tpl.hpp b/source/function/procedure.tpl.hpp
index 1ae9da6..9c13804 100644
--- a/source/function/procedure.tpl.hpp
+++ b/source/function/procedure.tpl.hpp
@@ -241,42 +241,55 @@ template<class X, class Y> Void _execute(List<X>& v, const List<ProcedureInstruc
 }
 
 
+// In the backpropagation rules below, a restriction is only made if it removes no solution; in particular, a function which
+// is not injective is only inverted on a branch containing all the possible arguments.
+namespace {
+template<class X> Bool nonnegative(X const& a) { return a.lower_bound().raw()>=0; }
+template<class X> Bool nonpositive(X const& a) { return a.upper_bound().raw()<=0; }
+template<class X> Bool nonzero(X const& a) { return a.lower_bound().raw()>0 || a.upper_bound().raw()<0; }
+template<class X> Bool within(X const& a, double l, double u) { return a.lower_bound().raw().get_d()>=l && a.upper_bound().raw().get_d()<=u; }
+template<class X> X symmetric(X const& a) { return hull(-a,a); }
+template<class X> X down_closure(X const& a) { return X(-inf,a.upper_bound()); }
+template<class X> X up_closure(X const& a) { return X(a.lower_bound(),+inf); }
+template<class X> X root(X const& a, Int n) { return exp(log(a)/n); }
+constexpr double HALF_PI_LOWER=1.570796326794896;
+constexpr double PI_LOWER=3.141592653589793;
+} // namespace
+
 template<class X> Void backpropagate(X const& r, Add, X& a1, X& a2) { restrict(a1,r-a2); restrict(a2,r-a1); }
 template<class X> Void backpropagate(X const& r, Sub, X& a1, X& a2) { restrict(a1,a2+r); restrict(a2,a1-r); }
-template<class X> Void backpropagate(X const& r, Mul, X& a1, X& a2) { restrict(a1,r/a2); restrict(a2,r/a1); }
-template<class X> Void backpropagate(X const& r, Div, X& a1, X& a2) { restrict(a1,a2*r); restrict(a2,a1/r); }
-template<class X> Void backpropagate(X const& r, Max, X& a1, X& a2) { restrict(a1,max(r,a2)); restrict(a2,max(r,a1)); }
-template<class X> Void backpropagate(X const& r, Min, X& a1, X& a2) { restrict(a1,min(r,a2)); restrict(a2,min(r,a1)); }
-
-template<class X, class Y> Void backpropagate(X const& r, Add, Y const& c1, X& a2) { restrict(a2,r-c1); }
-template<class X, class Y> Void backpropagate(X const& r, Sub, Y const& c1, X& a2) { restrict(a2,c1-r); }
-template<class X, class Y> Void backpropagate(X const& r, Mul, Y const& c1, X& a2) { restrict(a2,r/c1); }
-template<class X, class Y> Void backpropagate(X const& r, Div, Y const& c1, X& a2) { restrict(a2,c1/r); }
-template<class X, class Y> Void backpropagate(X const& r, Max, Y const& c1, X& a2) { restrict(a2,max(r,c1)); }
-template<class X, class Y> Void backpropagate(X const& r, Min, Y const& c1, X& a2) { restrict(a2,min(r,c1)); }
-
-template<class X, class Y> Void backpropagate(X const& r, Add, X& a1, Y const& c2) { restrict(a1,r-c2); }
-template<class X, class Y> Void backpropagate(X const& r, Sub, X& a1, Y const& c2) { restrict(a1,c2+r); }
-template<class X, class Y> Void backpropagate(X const& r, Mul, X& a1, Y const& c2) { restrict(a1,r/c2); }
-template<class X, class Y> Void backpropagate(X const& r, Div, X& a1, Y const& c2) { restrict(a1,c2*r); }
-template<class X, class Y> Void backpropagate(X const& r, Max, X& a1, Y const& c2) { restrict(a1,max(r,c2)); }
-template<class X, class Y> Void backpropagate(X const& r, Min, X& a1, Y const& c2) { restrict(a1,min(r,c2)); }
-
+template<class X> Void backpropagate(X const& r, Mul, X& a1, X& a2) {
+    if(nonzero(a2)) { restrict(a1,r/a2); } if(nonzero(a1)) { restrict(a2,r/a1); } }
+template<class X> Void backpropagate(X const& r, Div, X& a1, X& a2) { restrict(a1,a2*r); if(nonzero(r)) { restrict(a2,a1/r); } }
+template<class X> Void backpropagate(X const& r, Max, X& a1, X& a2) {
+    restrict(a1,down_closure(r)); restrict(a2,down_closure(r));
+    if(a2.upper_bound().raw()<r.lower_bound().raw()) { restrict(a1,r); } if(a1.upper_bound().raw()<r.lower_bound().raw()) { restrict(a2,r); } }
+template<class X> Void backpropagate(X const& r, Min, X& a1, X& a2) {
+    restrict(a1,up_closure(r)); restrict(a2,up_closure(r));
+    if(a2.lower_bound().raw()>r.upper_bound().raw()) { restrict(a1,r); } if(a1.lower_bound().raw()>r.upper_bound().raw()) { restrict(a2,r); } }
+
+template<class X> Void backpropagate(X const& r, Nul, X& a) { }
 template<class X> Void backpropagate(X const& r, Pos, X& a) { restrict(a,r); }
 template<class X> Void backpropagate(X const& r, Neg, X& a) { restrict(a,neg(r)); }
-template<class X> Void backpropagate(X const& r, Rec, X& a) { restrict(a,rec(r)); }
+template<class X> Void backpropagate(X const& r, Hlf, X& a) { restrict(a,r+r); }
+template<class X> Void backpropagate(X const& r, Rec, X& a) { if(nonzero(r)) { restrict(a,rec(r)); } }
 template<class X> Void backpropagate(X const& r, Sqr, X& a) { restrict(a,sqrt(r)); }
-template<class X> Void backpropagate(X const& r, Pow, X& a, Int n) { restrict(a,exp(log(r)/n)); }
+template<class X> Void backpropagate(X const& r, Pow, X& a, Int n) {
+    if(n==0) { return; }
+    if(nonnegative(a)) { if(r.upper_bound().raw()>0) { restrict(a,root(r,n)); } }
+    else if(n%2==0) { if(r.upper_bound().raw()>0) { if(nonpositive(a)) { restrict(a,-root(r,n)); } else if(n>0) { restrict(a,symmetric(root(r,n))); } } }
+    else if(nonpositive(a)) { if(r.lower_bound().raw()<0) { restrict(a,-root(-r,n)); } } }
 template<class X> Void backpropagate(X const& r, Sqrt, X& a) { restrict(a,sqr(r)); }
 template<class X> Void backpropagate(X const& r, Exp, X& a) { restrict(a,log(r)); }
 template<class X> Void backpropagate(X const& r, Log, X& a) { restrict(a,exp(r)); }
-    // FIXME: restricting asin/acos of interval should not be dependent on any branch of asin/acos
-template<class X> Void backpropagate(X const& r, Sin, X& a) { restrict(a,asin(r)); }
-template<class X> Void backpropagate(X const& r, Cos, X& a) { restrict(a,acos(r)); }
-template<class X> Void backpropagate(X const& r, Tan, X& a) { restrict(a,atan(r)); }
+template<class X> Void backpropagate(X const& r, Sin, X& a) { if(within(r,-1,+1) && within(a,-HALF_PI_LOWER,+HALF_PI_LOWER)) { restrict(a,asin(r)); } }
+template<class X> Void backpropagate(X const& r, Cos, X& a) { if(within(r,-1,+1) && within(a,0,PI_LOWER)) { restrict(a,acos(r)); } }
+template<class X> Void backpropagate(X const& r, Tan, X& a) { if(within(a,-HALF_PI_LOWER,+HALF_PI_LOWER)) { restrict(a,atan(r)); } }
 template<class X> Void backpropagate(X const& r, Asin, X& a) { restrict(a,sin(r)); }
 template<class X> Void backpropagate(X const& r, Acos, X& a) { restrict(a,cos(r)); }
-template<class X> Void backpropagate(X const& r, Atan, X& a) { restrict(a,tan(r)); }
+template<class X> Void backpropagate(X const& r, Atan, X& a) { if(within(r,-HALF_PI_LOWER,+HALF_PI_LOWER)) { restrict(a,tan(r)); } }
+template<class X> Void backpropagate(X const& r, Abs, X& a) {
+    if(nonnegative(a)) { restrict(a,r); } else if(nonpositive(a)) { restrict(a,-r); } else { restrict(a,symmetric(r)); } }
 
 template<class X> Void backpropagate(X const& r, Equal, X& a1, X& a2) {
     restrict(a1,r); restrict(a2,r); }
@@ -289,10 +302,6 @@ template<class X> Void backpropagate(X const& r, BinaryElementaryOperator eop, X
     return eop.accept([&r,&a1,&a2](auto op){backpropagate(r,op,a1,a2);}); }
 template<class X> Void backpropagate(X const& r, GradedElementaryOperator eop, X& a1, Int n2) {
     return eop.accept([&r,&a1,n2](auto op){backpropagate(r,op,a1,n2);}); }
-template<class X, class Y> Void backpropagate(X const& r, BinaryElementaryOperator eop, Y const& c1, X& a2) {
-    return eop.accept([&r,&c1,&a2](auto op){backpropagate(r,op,c1,a2);}); }
-template<class X, class Y> Void backpropagate(X const& r, BinaryElementaryOperator eop, X& a1, Y const& c2) {
-    return eop.accept([&r,&a1,&c2](auto op){backpropagate(r,op,a1,c2);}); }
 
 template<class X, class Y> Void _backpropagate(SizeType r, Vector<X>& x, List<X>& v, ProcedureInstruction pri, List<Y> const& c) {
     struct Visitor {
@@ -302,7 +311,7 @@ template<class X, class Y> Void _backpropagate(SizeType r, Vector<X>& x, List<X>
         Void operator()(UnaryProcedureInstruction s) { backpropagate(v[r],s._op,v[s._arg]); }
         Void operator()(BinaryProcedureInstruction s) { backpropagate(v[r],s._op,v[s._arg1],v[s._arg2]); }
         Void operator()(GradedProcedureInstruction s) { backpropagate(v[r],s._op,v[s._arg],s._num); }
-        Void operator()(ScalarProcedureInstruction s) { backpropagate(v[r],s._op,c[s._arg1],v[s._arg2]); }
+        Void operator()(ScalarProcedureInstruction s) { X a1(c[s._arg1],v[r].upper_bound().precision()); backpropagate(v[r],s._op,a1,v[s._arg2]); }
     };
     pri.accept(Visitor{r,x,v,c});
 }
-- 
2.43.0


From 7569505272516f7b004370e113c7948f77d14bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:13 +0000
Subject: [PATCH 92/98] fix: monotone_reduce terminates when the derivative may
 vanish

---
 source/solvers/constraint_solver.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/solvers/constraint_solver.cpp b/source/solvers/constraint_solver.cpp
index daaaa25..321c8f9 100644
--- a/source/solvers/constraint_solver.cpp
+++ b/source/solvers/constraint_solver.cpp
@@ -357,6 +357,7 @@ Bool ConstraintSolver::monotone_reduce(UpperBoxType& domain, const ValidatedScal
     Box<UpperIntervalType> subdomain=domain;
 
     static const Int MAX_STEPS=3;
+    Int steps=0;
     const FloatDP threshold = div(near, lower.width().raw(), FloatDP(pow(two,MAX_STEPS),dp));
     do {
         FloatDPUpperBound ub(dp); FloatDPUpperInterval ivl(-ub,+ub); FloatDP val(dp); ub=val;
@@ -377,7 +378,9 @@ Bool ConstraintSolver::monotone_reduce(UpperBoxType& domain, const ValidatedScal
             else { upper=intersection(upper,new_upper); }
         }
         subdomain[variable]=UpperIntervalType(lower.lower_bound(),upper.upper_bound());
-    } while(lower.width().raw()>threshold && upper.width().raw()>threshold);
+        // The contractor need not reduce the width if the derivative may vanish
+        ++steps;
+    } while(steps<MAX_STEPS && lower.width().raw()>threshold && upper.width().raw()>threshold);
     domain=subdomain;
 
     return definitely(domain.is_empty());
-- 
2.43.0


From dee2e479649ae4e15207aa483b84061226f379b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:21 +0000
Subject: [PATCH 93/98] fix: validate that a solution of the equality
 constraints lies in the domain

---
 source/solvers/nonlinear_programming.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/solvers/nonlinear_programming.cpp b/source/solvers/nonlinear_programming.cpp
index 8e71b96..84d12dc 100644
--- a/source/solvers/nonlinear_programming.cpp
+++ b/source/solvers/nonlinear_programming.cpp
@@ -669,6 +669,12 @@ validate_feasibility(ExactBoxType D, ValidatedVectorMultivariateFunction g, Exac
 
     // Compute x value
     x=x0+AT*w;
+
+    // Check that the solution of the equality constraints lies in the domain
+    for(SizeType i=0; i!=n; ++i) {
+        if(!definitely(contains(D[i],x[i]))) { return false; }
+    }
+
     CONCLOG_PRINTLN("x="<<x);
     gx=g(x);
     CONCLOG_PRINTLN("g(x)="<<gx);
-- 
2.43.0


From 33ea560e5e9da3e712929e85afabcd1a49688825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:21 +0000
Subject: [PATCH 94/98] fix: an infeasible point does not show that a problem
 is infeasible

---
 source/solvers/nonlinear_programming.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/solvers/nonlinear_programming.cpp b/source/solvers/nonlinear_programming.cpp
index 84d12dc..c1bff8e 100644
--- a/source/solvers/nonlinear_programming.cpp
+++ b/source/solvers/nonlinear_programming.cpp
@@ -1941,7 +1941,9 @@ check_feasibility(ExactBoxType D, ValidatedVectorMultivariateFunction g, ExactBo
     List<SizeType> equalities;
     for(SizeType j=0; j!=C.size(); ++j) {
         if( definitely(gx[j].upper()<C[j].lower_bound() || gx[j].lower()>C[j].upper_bound()) ) {
-            return false;
+            // The point is not feasible, but there may be other points which are
+            result = indeterminate;
+            continue;
         }
         if(C[j].lower_bound()==C[j].upper_bound()) {
             equalities.append(j);
-- 
2.43.0


From a671da716b39f329911465b036e889bc4c3f723c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:29 +0000
Subject: [PATCH 95/98] fix: multiply out nonnegative powers of graded elements

---
 source/algebra/graded.hpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/source/algebra/graded.hpp b/source/algebra/graded.hpp
index 4a6e07a..cef7b50 100644
--- a/source/algebra/graded.hpp
+++ b/source/algebra/graded.hpp
@@ -334,12 +334,26 @@ template<class A> Void rec(Graded<A>& r, const Graded<A>& a) {
     r[d]=r[d]*r[0];
 }
 
-// Use formula d*a[0]*r[d] = sum_{i=0}^{d-1} ((d-i)*n-i)*a[d-i]*r[i] for d>0
+// For negative n, use formula d*a[0]*r[d] = sum_{i=0}^{d-1} ((d-i)*n-i)*a[d-i]*r[i] for d>0
 template<class A> Void pow(Graded<A>& r, const Graded<A>& a, Int n) {
     ARIADNE_ASSERT(r.size()+1u <= a.size());
     r.append(create(a[0]));
     DegreeType d = r.degree();
     if(d==0u) { r[d]=pow(a[0],n); return; }
+    if(n>=0) {
+        // Multiply out positive powers, since the recursive formula is undefined if a[0] may be zero
+        Array<A> p(d+1u,create(a[0]));
+        p[0]+=1;
+        for(Int k=0; k!=n; ++k) {
+            for(DegreeType i=d+1u; i!=0u; --i) {
+                A c=create(a[0]);
+                for(DegreeType j=0; j!=i; ++j) { c+=p[j]*a[cast_sign<DegreeType>(i-1u-j)]; }
+                p[i-1u]=c;
+            }
+        }
+        r[d]=p[d];
+        return;
+    }
     for(DegreeType i=0; i<d; ++i) {
         r[d] += ((d-i)*n-i)*a[cast_sign<DegreeType>(d-i)]*r[i];
     }
-- 
2.43.0


From c4153e120b68e78ef113466b72396e12b4e82a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:30 +0000
Subject: [PATCH 96/98] fix: do not hide undefined errors of vector function
 patches

---
 source/function/scaled_function_patch.tpl.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/function/scaled_function_patch.tpl.hpp b/source/function/scaled_function_patch.tpl.hpp
index 96e7676..7ba1b53 100644
--- a/source/function/scaled_function_patch.tpl.hpp
+++ b/source/function/scaled_function_patch.tpl.hpp
@@ -739,6 +739,8 @@ template<class M> auto VectorScaledFunctionPatch<M>::error() const -> ErrorType
 {
     FloatError<PR> e(0u,this->precision());
     for(SizeType i=0; i!=this->result_size(); ++i) {
+        // An undefined error must not be hidden by the other components
+        if(is_nan(this->models()[i].error().raw())) { return this->models()[i].error(); }
         e=max(e,this->models()[i].error());
     }
     return e;
-- 
2.43.0


From fdc0a197798cdf76f8fff09a2db7bf1f87d81449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:30 +0000
Subject: [PATCH 97/98] fix: refuse flow tubes whose error is not definitely
 small

---
 source/solvers/integrator.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/solvers/integrator.cpp b/source/solvers/integrator.cpp
index e2331d0..634c52f 100644
--- a/source/solvers/integrator.cpp
+++ b/source/solvers/integrator.cpp
@@ -288,7 +288,7 @@ TaylorPicardIntegrator::_flow_step(const ValidatedVectorMultivariateFunction& f,
     CONCLOG_PRINTLN_AT(1,"phi="<<phi);
     FlowStepModelType fphi=compose(f,join(phi0,ta));
     for(DegreeType k=0; k!=this->_maximum_temporal_order; ++k) {
-        Bool below_maximum_error=definitely(phi.error()<this->step_maximum_error());
+        Bool below_maximum_error=definitely(phi.error().get(dp)<this->step_maximum_error());
         try {
             fphi=compose(f,join(std::move(phi),ta));
             CONCLOG_PRINTLN_AT(2,"fphi="<<fphi);
@@ -302,7 +302,7 @@ TaylorPicardIntegrator::_flow_step(const ValidatedVectorMultivariateFunction& f,
         CONCLOG_PRINTLN_AT(2,"phi="<<phi);
         if(below_maximum_error && k>=this->_minimum_temporal_order) { break; }
     }
-    if (possibly(phi.error()>this->step_maximum_error())) {
+    if (not definitely(phi.error().get(dp)<this->step_maximum_error())) {
         ARIADNE_THROW(FlowTimeStepException,"TaylorPicardIntegrator::flow_step","Integration of "<<f<<" starting in "<<D<<" over time interval "<<T<<" of length "<<h<<" has error "<<phi.error()<<" after "<<this->_maximum_temporal_order<<" iterations, which exceeds step maximum error "<<this->step_maximum_error());
     }
 
@@ -416,7 +416,7 @@ GradedTaylorPicardIntegrator::_flow_step(const ValidatedVectorMultivariateFuncti
         CONCLOG_PRINTLN_VAR_AT(2,errors);
     }
 
-    if (possibly(phi.error()>this->step_maximum_error())) {
+    if (not definitely(phi.error().get(dp)<this->step_maximum_error())) {
         ARIADNE_THROW(FlowTimeStepException,"GradedTaylorPicardIntegrator::flow_step","Integration of "<<f<<" starting in "<<D<<" over time interval "<<T<<" of length "<<h<<" has error "<<phi.error()<<", which exceeds step maximum error "<<this->step_maximum_error());
     }
 
@@ -1057,7 +1057,7 @@ TaylorSeriesBounderIntegrator::flow_step(const ValidatedVectorMultivariateFuncti
         if (refines(xrng,bndbx)) {
             refined=true;
             bndbx=xrng;
-            if (definitely(phi.error()<max_err)) { accurate=true; return phi; }
+            if (definitely(phi.error().get(dp)<max_err)) { accurate=true; return phi; }
         } else {
             bndbx=cast_exact_box(xrng+(cast_singleton(domx)-domx.midpoint()));
             //bndbx=hull(bndbx,xrng);
@@ -1106,7 +1106,7 @@ GradedTaylorSeriesIntegrator::flow_step(const ValidatedVectorMultivariateFunctio
     FlowStepModelType tphi=Ariadne::graded_series_flow_step(p,domx,domt,doma,bndx,
         max_err,this->sweeper(), init_so,init_to,max_so,max_to);
 
-    if (possibly(tphi.error()>this->step_maximum_error())) {
+    if (not definitely(tphi.error().get(dp)<=this->step_maximum_error())) {
         ARIADNE_THROW(FlowTimeStepException,"GradedTaylorSeriesIntegrator::flow_step",
                       "Integration of "<<f<<" over "<<domx<<" for time interval "<<domt<<" has error "<<tphi.errors()<<
                       " using spacial order "<<max_so<<" and temporal order "<<max_to<<
-- 
2.43.0


From c1c2bb4788f4c495af655dbf55230a3f8e240804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:30 +0000
Subject: [PATCH 98/98] fix: end exp, sin and cos of Taylor models of infinite
 or very wide range

---
 source/algebra/algebra_operations.tpl.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/source/algebra/algebra_operations.tpl.hpp b/source/algebra/algebra_operations.tpl.hpp
index 561880e..68dea7c 100644
--- a/source/algebra/algebra_operations.tpl.hpp
+++ b/source/algebra/algebra_operations.tpl.hpp
@@ -319,6 +319,9 @@ template<class A> A NormedAlgebraOperations<A>::apply(Exp, const A& x)
     auto rad=x.radius();
     auto tol = cast_exact(x.tolerance());
 
+    // No bound is possible if the radius is infinite or undefined
+    if(not decide(rad<Dyadic(pow(two,1024)))) { return x.create_ball(rad); }
+
     // Scale to unit interval
     Nat sfp=0; // A number such that 2^sfp>rad(x.range())
     while(decide(Dyadic(pow(two,static_cast<int>(sfp)))<rad)) { ++sfp; }
@@ -360,6 +363,8 @@ template<class A> A NormedAlgebraOperations<A>::apply(Sin, const A& x)
 {
     auto tol = cast_exact(x.tolerance());
     auto avg=x.average();
+    // Over a wide range, use |sin(x)|<=1, since computing the power series would take very long, or forever
+    if(not decide(x.radius()<=Dyadic(64)) or not decide(mag(avg)<=Dyadic(1048576))) { return x.create_ball(pow(x.radius(),0u)); }
     Int n=integer_cast<Int>( round(avg/pi) );
 
     // Range reduce; use sin(x)=sin(x-2*n*pi)=sin((2*n+1)*pi-x)
@@ -398,6 +403,8 @@ template<class A> A NormedAlgebraOperations<A>::apply(Cos, const A& x)
 {
     auto tol = cast_exact(x.tolerance());
     auto avg=x.average();
+    // Over a wide range, use |cos(x)|<=1, since computing the power series would take very long, or forever
+    if(not decide(x.radius()<=Dyadic(64)) or not decide(mag(avg)<=Dyadic(1048576))) { return x.create_ball(pow(x.radius(),0u)); }
 
     // Range reduce; use cos(x)=cos(x-2*n*pi)=-cos(x-pi)
     Int n=integer_cast<Int>( round(avg/pi) );
-- 
2.43.0

