From 386758c256db2b719b0c0e1b1ba1f9c3bcd1d64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:14 +0000
Subject: [PATCH 01/11] fix: tan missed a pole when the width of the argument
 is close to pi

---
 ...mpfr_bin_ieee754_flavor_elem_func_impl.hpp | 24 ++++++++++++++-----
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_elem_func_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_elem_func_impl.hpp
index 14166f8..a94d5fd 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_elem_func_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_elem_func_impl.hpp
@@ -2613,12 +2613,18 @@ mpfr_bin_ieee754_flavor<T>::tan(mpfr_bin_ieee754_flavor<T>::representation const
     if (mpfr_cmp(w(), pi()) > 0)
         return entire();
 
-    xl.subnormalize(mpfr_tan(xl(), xl(), MPFR_RNDD), MPFR_RNDD);
-    xu.subnormalize(mpfr_tan(xu(), xu(), MPFR_RNDU), MPFR_RNDU);
+    // the width is less than pi, hence there is a pole between the bounds iff cos changes its sign
+    mpfr_var cl;
+    mpfr_var cu;
+    mpfr_cos(cl(), xl(), MPFR_RNDN);
+    mpfr_cos(cu(), xu(), MPFR_RNDN);
 
-    if (mpfr_cmp(xl(), xu()) > 0)
+    if (mpfr_sgn(cl()) != mpfr_sgn(cu()))
         return entire();
 
+    xl.subnormalize(mpfr_tan(xl(), xl(), MPFR_RNDD), MPFR_RNDD);
+    xu.subnormalize(mpfr_tan(xu(), xu(), MPFR_RNDU), MPFR_RNDU);
+
     return representation(xl.template get<T>(MPFR_RNDD), xu.template get<T>(MPFR_RNDU));
 }
 
@@ -2672,12 +2678,18 @@ mpfr_bin_ieee754_flavor<T>::tan(mpfr_bin_ieee754_flavor<T>::representation_dec c
     if (mpfr_cmp(w(), pi()) > 0)
         return representation_dec(entire(), p1788::decoration::decoration::trv);
 
-    xl.subnormalize(mpfr_tan(xl(), xl(), MPFR_RNDD), MPFR_RNDD);
-    xu.subnormalize(mpfr_tan(xu(), xu(), MPFR_RNDU), MPFR_RNDU);
+    // the width is less than pi, hence there is a pole between the bounds iff cos changes its sign
+    mpfr_var cl;
+    mpfr_var cu;
+    mpfr_cos(cl(), xl(), MPFR_RNDN);
+    mpfr_cos(cu(), xu(), MPFR_RNDN);
 
-    if (mpfr_cmp(xl(), xu()) > 0)
+    if (mpfr_sgn(cl()) != mpfr_sgn(cu()))
         return representation_dec(entire(), p1788::decoration::decoration::trv);
 
+    xl.subnormalize(mpfr_tan(xl(), xl(), MPFR_RNDD), MPFR_RNDD);
+    xu.subnormalize(mpfr_tan(xu(), xu(), MPFR_RNDU), MPFR_RNDU);
+
     representation bare(xl.template get<T>(MPFR_RNDD), xu.template get<T>(MPFR_RNDU));
     p1788::decoration::decoration dec  = std::min(x.second,
                                          is_common_interval(bare) ? p1788::decoration::decoration::com :
-- 
2.43.0


From 53d31a856e859a232c8ff9fe8880aa2593e7d9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:52 +0000
Subject: [PATCH 02/11] fix: cancel_minus and cancel_plus accepted an invalid
 second operand

---
 .../setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp    | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp
index c92b805..be18010 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp
@@ -44,6 +44,9 @@ typename mpfr_bin_ieee754_flavor<T>::representation
 mpfr_bin_ieee754_flavor<T>::cancel_plus(mpfr_bin_ieee754_flavor<T>::representation const& x,
                                         mpfr_bin_ieee754_flavor<T>::representation const& y)
 {
+    if (!is_valid(x) || !is_valid(y))
+        return empty();
+
     return cancel_minus(x, neg(y));
 }
 
@@ -86,7 +89,7 @@ typename mpfr_bin_ieee754_flavor<T>::representation
 mpfr_bin_ieee754_flavor<T>::cancel_minus(mpfr_bin_ieee754_flavor<T>::representation const& x,
         mpfr_bin_ieee754_flavor<T>::representation const& y)
 {
-    if (!is_valid(x) || !is_valid(x))
+    if (!is_valid(x) || !is_valid(y))
         return empty();
 
     if (x.first == -std::numeric_limits<T>::infinity()
-- 
2.43.0


From ab6e68bea0dd7cd237f3ff8115f1cf8707ce51ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:59 +0000
Subject: [PATCH 03/11] fix: mixed-type cancel_plus rounded the second operand
 to the result format

---
 .../setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp
index be18010..84d038c 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp
@@ -59,7 +59,7 @@ mpfr_bin_ieee754_flavor<T>::cancel_plus(mpfr_bin_ieee754_flavor<T>::representati
     static_assert(std::numeric_limits<T1>::is_iec559, "Only IEEE 754 binary compliant types are supported!");
     static_assert(std::numeric_limits<T2>::is_iec559, "Only IEEE 754 binary compliant types are supported!");
 
-    return cancel_minus(x, neg(y));
+    return cancel_minus(x, mpfr_bin_ieee754_flavor<T2>::neg(y));
 }
 
 template<typename T>
@@ -79,7 +79,7 @@ mpfr_bin_ieee754_flavor<T>::cancel_plus(mpfr_bin_ieee754_flavor<T>::representati
     static_assert(std::numeric_limits<T1>::is_iec559, "Only IEEE 754 binary compliant types are supported!");
     static_assert(std::numeric_limits<T2>::is_iec559, "Only IEEE 754 binary compliant types are supported!");
 
-    return cancel_minus(x, neg(y));
+    return cancel_minus(x, mpfr_bin_ieee754_flavor<T2>::neg(y));
 }
 
 
-- 
2.43.0


From 14299727b44574763554fc325f2599abd78013a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:53 +0000
Subject: [PATCH 04/11] fix: mixed-type mul_rev_to_pair computed with invalid
 operands and NaI

---
 .../mpfr_bin_ieee754_flavor_mul_rev_to_pair_func_impl.hpp     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_mul_rev_to_pair_func_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_mul_rev_to_pair_func_impl.hpp
index 0b42476..fb45a75 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_mul_rev_to_pair_func_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_mul_rev_to_pair_func_impl.hpp
@@ -267,7 +267,7 @@ mpfr_bin_ieee754_flavor<T>::mul_rev_to_pair(mpfr_bin_ieee754_flavor<T>::represen
     static_assert(std::numeric_limits<T2>::is_iec559, "Only IEEE 754 binary compliant types are supported!");
 
     if (!mpfr_bin_ieee754_flavor<T1>::is_valid(b) || !mpfr_bin_ieee754_flavor<T2>::is_valid(c))
-        std::pair<representation, representation>(empty(), empty());
+        return std::pair<representation, representation>(empty(), empty());
 
     // determine max. precision
     typedef typename p1788::util::max_precision_type<T,T1,T2>::type T_MAX;
@@ -318,7 +318,7 @@ mpfr_bin_ieee754_flavor<T>::mul_rev_to_pair(mpfr_bin_ieee754_flavor<T>::represen
 
     if (!mpfr_bin_ieee754_flavor<T1>::is_valid(b) || !mpfr_bin_ieee754_flavor<T2>::is_valid(c)
             || mpfr_bin_ieee754_flavor<T1>::is_nai(b) || mpfr_bin_ieee754_flavor<T2>::is_nai(c))
-        std::pair<representation_dec, representation_dec>(nai(), nai());
+        return std::pair<representation_dec, representation_dec>(nai(), nai());
 
     // determine max. precision
     typedef typename p1788::util::max_precision_type<T,T1,T2>::type T_MAX;
-- 
2.43.0


From 3f6c796b76affcc2f24ce5f306a79a089e6ea8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:05 +0000
Subject: [PATCH 05/11] fix: two_sum returned NaN as error term next to the
 largest number

---
 p1788/util/mpfr_util.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/p1788/util/mpfr_util.hpp b/p1788/util/mpfr_util.hpp
index 1efaf16..a71af91 100644
--- a/p1788/util/mpfr_util.hpp
+++ b/p1788/util/mpfr_util.hpp
@@ -57,6 +57,10 @@ inline std::pair<T,T> two_sum(T const& a, T const& b)
     mpfr_var b_delta;
 
     s.subnormalize(mpfr_add(s(), a_(), b_(), MPFR_RNDN), MPFR_RNDN);
+
+    // s - b_ may round to a number just beyond the largest one although s does not overflow
+    mpfr_set_emax(mpfr_get_emax() + 1);
+
     a_delta.subnormalize(mpfr_sub(a_delta(), s(), b_(), MPFR_RNDN), MPFR_RNDN);
     b_delta.subnormalize(mpfr_sub(b_delta(), s(), a_delta(), MPFR_RNDN), MPFR_RNDN);
 
@@ -65,6 +69,8 @@ inline std::pair<T,T> two_sum(T const& a, T const& b)
 
     a_delta.subnormalize(mpfr_add(a_delta(), a_delta(), b_delta(), MPFR_RNDN), MPFR_RNDN);
 
+    mpfr_var::setup();
+
     return std::pair<T,T>(s.template get<T>(MPFR_RNDN), a_delta.template get<T>(MPFR_RNDN));
 }
 
-- 
2.43.0


From da9988306fa547c93c859a4fbb5ef9f846d6d2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:47 +0000
Subject: [PATCH 06/11] fix: mixed-type cancel_plus returns empty for an
 invalid second operand

---
 .../setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp      | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp
index 84d038c..d028bb0 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp
@@ -59,6 +59,9 @@ mpfr_bin_ieee754_flavor<T>::cancel_plus(mpfr_bin_ieee754_flavor<T>::representati
     static_assert(std::numeric_limits<T1>::is_iec559, "Only IEEE 754 binary compliant types are supported!");
     static_assert(std::numeric_limits<T2>::is_iec559, "Only IEEE 754 binary compliant types are supported!");
 
+    if (!mpfr_bin_ieee754_flavor<T1>::is_valid(x) || !mpfr_bin_ieee754_flavor<T2>::is_valid(y))
+        return empty();
+
     return cancel_minus(x, mpfr_bin_ieee754_flavor<T2>::neg(y));
 }
 
-- 
2.43.0


From a2b3613c3392e6e1d8cd13720ac98b799f37d609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:14 +0000
Subject: [PATCH 07/11] fix: abs_rev compiles for float and long double

---
 .../infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
index a9289fb..3dd334c 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
@@ -207,7 +207,7 @@ mpfr_bin_ieee754_flavor<T>::abs_rev(mpfr_bin_ieee754_flavor<T>::representation c
     if (c.second < 0.0)
         return empty();
 
-    representation p(std::max(0.0, c.first), c.second);
+    representation p(std::max(T(0.0), c.first), c.second);
     representation n = neg(p);
 
     return convex_hull(intersection(p, x), intersection(n, x));
-- 
2.43.0


From cdfb75e81ef2936f404d8405f47eba6adeb591e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:03 +0000
Subject: [PATCH 08/11] fix: pown_rev for the smallest exponent, whose negation
 overflows

---
 .../infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
index 3dd334c..cc9e18d 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
@@ -324,7 +324,7 @@ int mpfr_bin_ieee754_flavor<T>::pown_rev_inf(mpfr_var const& c,
         int p)
 {
     int t1;
-    if (p != -p)
+    if (p != std::numeric_limits<int>::min())
     {
         t1 = -mpfr_root(x(), c(), -p, MPFR_RNDU);
     }
@@ -360,7 +360,7 @@ int mpfr_bin_ieee754_flavor<T>::pown_rev_sup(mpfr_var const& c,
         int p)
 {
     int t1;
-    if (p != -p)
+    if (p != std::numeric_limits<int>::min())
     {
         t1 = -mpfr_root(x(), c(), -p, MPFR_RNDD);
     }
-- 
2.43.0


From eafdf7173e489af7316d311539c4753082849dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:36 +0000
Subject: [PATCH 09/11] fix: exact reductions overflowed and underflowed in the
 squares and products

---
 p1788/reduction/reduction.hpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/p1788/reduction/reduction.hpp b/p1788/reduction/reduction.hpp
index a56a01e..3e33fa3 100644
--- a/p1788/reduction/reduction.hpp
+++ b/p1788/reduction/reduction.hpp
@@ -91,7 +91,9 @@ public:
     // perform op on one iterator
     reduction_sum_op(void (*op) (Iter, mpfr_ptr*), Iter begin, Iter end, rnd_mode rnd) : n_(end - begin)
     {
-        mpfr_var::setup();
+        // no over- and underflow of the elements
+        mpfr_set_emin(mpfr_get_emin_min());
+        mpfr_set_emax(mpfr_get_emax_max());
         tab_ = new mpfr_ptr[n_];    // array of elemets
 
         mpfr_ptr* p = tab_;
@@ -103,7 +105,11 @@ public:
         mpfr_var res;
 
         // accumulate
-        res.subnormalize(mpfr_sum(res(), tab_, n_, get_mpfr_rnd_mode(rnd)), get_mpfr_rnd_mode(rnd));
+        int t = mpfr_sum(res(), tab_, n_, get_mpfr_rnd_mode(rnd));
+
+        // round to the desired exponent range
+        mpfr_var::setup();
+        res.subnormalize(mpfr_check_range(res(), t, get_mpfr_rnd_mode(rnd)), get_mpfr_rnd_mode(rnd));
 
         // get result
         result_ = res.template get<typename std::iterator_traits<Iter>::value_type>(get_mpfr_rnd_mode(rnd));
@@ -115,7 +121,9 @@ public:
     // perform op on two interators
     reduction_sum_op(void (*op) (Iter, Iter, mpfr_ptr*), Iter begin_a, Iter end_a, Iter begin_b, rnd_mode rnd) : n_(end_a - begin_a)
     {
-        mpfr_var::setup();
+        // no over- and underflow of the elements
+        mpfr_set_emin(mpfr_get_emin_min());
+        mpfr_set_emax(mpfr_get_emax_max());
         tab_ = new mpfr_ptr[n_];    // array of elemets
 
         mpfr_ptr* p = tab_;
@@ -127,7 +135,11 @@ public:
         mpfr_var res;
 
         // accumulate
-        res.subnormalize(mpfr_sum(res(), tab_, n_, get_mpfr_rnd_mode(rnd)), get_mpfr_rnd_mode(rnd));
+        int t = mpfr_sum(res(), tab_, n_, get_mpfr_rnd_mode(rnd));
+
+        // round to the desired exponent range
+        mpfr_var::setup();
+        res.subnormalize(mpfr_check_range(res(), t, get_mpfr_rnd_mode(rnd)), get_mpfr_rnd_mode(rnd));
 
         // get result
         result_ = res.template get<typename std::iterator_traits<Iter>::value_type>(get_mpfr_rnd_mode(rnd));
-- 
2.43.0


From b630a136d5bf2f5dbbb37324a39cf1041719db17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:45 +0000
Subject: [PATCH 10/11] fix: reductions leaked their temporaries and did not
 compile with clang

---
 p1788/reduction/reduction.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/p1788/reduction/reduction.hpp b/p1788/reduction/reduction.hpp
index 3e33fa3..f5ab5af 100644
--- a/p1788/reduction/reduction.hpp
+++ b/p1788/reduction/reduction.hpp
@@ -152,7 +152,10 @@ public:
     ~reduction_sum_op()
     {
         for(mpfr_ptr* b = tab_; b != tab_ + n_; ++b)
+        {
             mpfr_clear(*b);
+            delete *b;
+        }
 
         delete[] tab_;
 
@@ -192,7 +195,7 @@ inline sum(Iter begin, Iter end, rnd_mode rnd)
     reduction_sum_op<Iter> op(
         [] (Iter i, mpfr_ptr* p)
     {
-        *p = new mpfr_t;
+        *p = new __mpfr_struct;
 
         mpfr_init2(*p, std::numeric_limits<typename std::iterator_traits<Iter>::value_type>::digits);
 
@@ -233,7 +236,7 @@ inline sum_abs(Iter begin, Iter end, rnd_mode rnd)
     reduction_sum_op<Iter> op(
         [] (Iter i, mpfr_ptr* p)
     {
-        *p = new mpfr_t;
+        *p = new __mpfr_struct;
 
         mpfr_init2(*p, std::numeric_limits<typename std::iterator_traits<Iter>::value_type>::digits);
 
@@ -275,7 +278,7 @@ inline sum_sqr(Iter begin, Iter end, rnd_mode rnd)
     reduction_sum_op<Iter> op(
         [] (Iter i, mpfr_ptr* p)
     {
-        *p = new mpfr_t;
+        *p = new __mpfr_struct;
 
         mpfr_init2(*p, std::numeric_limits<typename std::iterator_traits<Iter>::value_type>::digits * 2);
 
@@ -317,7 +320,7 @@ inline dot(Iter begin_a, Iter end_a, Iter begin_b, rnd_mode rnd)
     reduction_sum_op<Iter> op(
         [] (Iter a, Iter b, mpfr_ptr* p)
     {
-        *p = new mpfr_t;
+        *p = new __mpfr_struct;
 
         mpfr_init2(*p, std::numeric_limits<typename std::iterator_traits<Iter>::value_type>::digits * 2);
 
-- 
2.43.0


From 1bb11dddbe4285001e47d9fda123b8dfebbed49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:45 +0000
Subject: [PATCH 11/11] fix: exception flags and control word belong to the
 thread

---
 p1788/exception/exception.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/p1788/exception/exception.hpp b/p1788/exception/exception.hpp
index c63100b..83bae89 100644
--- a/p1788/exception/exception.hpp
+++ b/p1788/exception/exception.hpp
@@ -100,7 +100,7 @@ inline exception_bits& operator^= (exception_bits& x, exception_bits y)
 inline exception_bits& cwd()
 {
     // Thread local cwd
-    static exception_bits exception_cwd_ = none_bit;
+    static thread_local exception_bits exception_cwd_ = none_bit;
 
     return exception_cwd_;
 }
@@ -183,7 +183,7 @@ public:
 inline exception_bits& state()
 {
     // Thread local exception state
-    static exception_bits exception_state_ = none_bit;
+    static thread_local exception_bits exception_state_ = none_bit;
 
     return exception_state_;
 }
-- 
2.43.0

