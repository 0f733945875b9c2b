From 34b82d7c84efce77d7505c021b33993364d90c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:12 +0000
Subject: [PATCH 01/16] fix: FpDbl::neg zero test must look at limbs 0 and 4 of
 the operand

The JIT code or-ed the result pointer into the zero test instead of the
lowest loaded limb, so the test never saw zero and neg(0) returned p*N.
---
 src/zm2.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zm2.cpp b/src/zm2.cpp
index 0371043..6628703 100644
--- a/src/zm2.cpp
+++ b/src/zm2.cpp
@@ -1550,12 +1550,12 @@ L("@@");
 		mov(rdx, gt4);
 		or_(rdx, gt3);
 		or_(rdx, gt2);
-		or_(rdx, gp1);
+		or_(rdx, gt1);
 		load_rm(gt4, gt3, gt2, gt1, mx + 32);
 		or_(rdx, gt4);
 		or_(rdx, gt3);
 		or_(rdx, gt2);
-		or_(rdx, gp1);
+		or_(rdx, gt1);
 #ifdef DEBUG_COUNT
 		jnz(".neg", T_NEAR);
 #else
-- 
2.43.0


From e178d6e7d16cad8e608476c51ac00f076f8cedff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:12 +0000
Subject: [PATCH 02/16] fix: portable Fp2::squareC computed (a-b)*2a for the
 real part

---
 include/bn.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bn.h b/include/bn.h
index a0b6c22..27447b5 100644
--- a/include/bn.h
+++ b/include/bn.h
@@ -493,7 +493,7 @@ struct Fp2T : public mie::local::addsubmul<Fp2T<T>
 		Fp::addNC(t, x.b_, x.b_); // 2b
 		t *= x.a_; // 2ab
 		Fp::sub(tt, x.a_, x.b_); // a - b
-		Fp::addNC(z.a_, x.a_, x.a_); // a + b
+		Fp::addNC(z.a_, x.a_, x.b_); // a + b
 		z.a_ *= tt; // (a - b)(a + b)
 		z.b_ = t;
 #endif
-- 
2.43.0


From 0200d5c6f6d969d8cd4e1cef751e991333079da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:12 +0000
Subject: [PATCH 03/16] fix: portable Fp_subC subtracted the modulus instead of
 the operand

---
 src/zm2.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zm2.cpp b/src/zm2.cpp
index 6628703..8826946 100644
--- a/src/zm2.cpp
+++ b/src/zm2.cpp
@@ -92,7 +92,7 @@ static inline void Fp_subC(Fp& out, const Fp& x, const Fp& y)
 	if (a < b) {
 		a = a + p - b;
 	} else {
-		a -= p;
+		a -= b;
 	}
 	Fp::setDirect(out, a);
 }
-- 
2.43.0


From a4d174fda78c58e564fb18d25ab6ec0e518e3a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:44 +0000
Subject: [PATCH 04/16] fix: SNARK Fp6Dbl::mul must reduce the last sum,
 6(p-1)^2 can exceed p*2^256

With a 254-bit p, 6*(p-1)^2 > p*2^256, so the final addNC of Fp6Dbl::mul left the
range Fp2Dbl::mod requires and Fp6::mul returned values >= p.
---
 include/bn.h | 4 ++++
 src/zm2.cpp  | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/include/bn.h b/include/bn.h
index 27447b5..48be580 100644
--- a/include/bn.h
+++ b/include/bn.h
@@ -1323,7 +1323,11 @@ struct Fp6T : public mie::local::addsubmul<Fp6T<T>,
 			// # 21
 			FpDbl::subNC(z.c_.b_, z.c_.b_, T2.b_);
 			// # 23
+#ifdef BN_SUPPORT_SNARK
+			FpDbl::add(z.c_.b_, z.c_.b_, T1.b_); // 6(p-1)^2 may exceed pN
+#else
 			FpDbl::addNC(z.c_.b_, z.c_.b_, T1.b_);
+#endif
 		}
 		static void mod(Fp6T& z, const Dbl& x)
 		{
diff --git a/src/zm2.cpp b/src/zm2.cpp
index 8826946..2f2e9ca 100644
--- a/src/zm2.cpp
+++ b/src/zm2.cpp
@@ -2252,8 +2252,14 @@ L("@@");
 		// FpDbl::subNC(z.c_.b_, z.c_.b_, T2.b_);
 		in_FpDbl_subNC(z.c_.b_, z.c_.b_, T2.b_);
 
+#ifdef BN_SUPPORT_SNARK
+		// 6(p-1)^2 may exceed pN
+		// FpDbl::add(z.c_.b_, z.c_.b_, T1.b_);
+		in_FpDbl_add(z.c_.b_, z.c_.b_, T1.b_);
+#else
 		// FpDbl::addNC(z.c_.b_, z.c_.b_, T1.b_);
 		in_FpDbl_addNC(z.c_.b_, z.c_.b_, T1.b_);
+#endif
 #endif
 		add(rsp, SS);
 		ret();
-- 
2.43.0


From 55aa92f9839d4b6cb6b6189593c2f481cf9b5e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:19 +0000
Subject: [PATCH 05/16] fix: multiply points by negative scalars (int read as
 2^32+m, mpz_class read limbs out of bounds)

---
 include/bn.h | 5 ++++-
 include/zm.h | 4 ++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/bn.h b/include/bn.h
index 48be580..0f0194f 100644
--- a/include/bn.h
+++ b/include/bn.h
@@ -24,7 +24,7 @@ inline size_t M_bitLen(const mpz_class& x)
 }
 inline size_t M_blockSize(const mpz_class& x)
 {
-	return x.get_mpz_t()->_mp_size;
+	return mpz_size(x.get_mpz_t());
 }
 inline mp_limb_t M_block(const mpz_class& x, size_t i)
 {
@@ -2648,6 +2648,9 @@ inline void ScalarMult(FF* out, const FF* in, const INT& m)
 			}
 		}
 	}
+	if (m < 0) {
+		FF::neg(out[1], out[1]);
+	}
 }
 
 template<class Fp>
diff --git a/include/zm.h b/include/zm.h
index 3763b45..60b21f2 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -1357,10 +1357,10 @@ struct IntTag {
 
 template<>
 struct IntTag<int> {
-	typedef int value_type;
+	typedef unsigned int value_type;
 	static inline value_type getBlock(const int& x, size_t)
 	{
-		return x;
+		return x < 0 ? 0u - (value_type)x : (value_type)x;
 	}
 	static inline size_t getBlockSize(const int&)
 	{
-- 
2.43.0


From 7496a06834bf05fb8aa5db6dfeaf5d6a8c389aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:07 +0000
Subject: [PATCH 06/16] fix: VuintT::sub must refuse x - y when y has more
 words than x

The only guard was an assert, so a release build read words of x beyond its
size and could return a wrong non-negative value instead of stopping.
---
 include/zm.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/zm.h b/include/zm.h
index 60b21f2..98f8dab 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -596,8 +596,8 @@ struct VuintT : public local::dividable<VuintT<Buffer>,
 
 	static void sub(VuintT& out, const VuintT& x, const VuintT& y)
 	{
-		bool c = sub_in(out, x, y);
-		if (c) {
+		// sub_in() requires x.size() >= y.size()
+		if (x.size() < y.size() || sub_in(out, x, y)) {
 			local::errExit("can't sub");
 		}
 		out.trim();
-- 
2.43.0


From 2acdc64fd944a49c5de1c1a49ebf52ca834f16d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:07 +0000
Subject: [PATCH 07/16] fix: VuintT::bitLen is one too large when the top word
 rounds up

Converting a word such as 2^54-1 to double rounds to the next power of two.
---
 include/zm.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/zm.h b/include/zm.h
index 98f8dab..8039dbf 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -528,11 +528,10 @@ struct VuintT : public local::dividable<VuintT<Buffer>,
 		if (isZero()) return 0;
 
 		size_t size = this->size();
-		T v = (*this)[size - 1];
-		union di t;
-		t.f = (double)v;
-		size_t ret = 1 + (size_t(t.i >> 52) - (1 << 10) + 1) +
-			(size - 1) * sizeof(T) * 8;
+		size_t ret = (size - 1) * sizeof(T) * 8;
+		for (T v = (*this)[size - 1]; v; v >>= 1) {
+			ret++;
+		}
 		return ret;
 	}
 
-- 
2.43.0


From da955609c984a5e780c3108565c61810f4c1bf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:07 +0000
Subject: [PATCH 08/16] fix: VsintT(INT_MIN) has the wrong value

::abs(INT_MIN) is undefined and was sign extended to 64 bits.
---
 include/zm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/zm.h b/include/zm.h
index 8039dbf..1e9155f 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -965,7 +965,7 @@ class VsintT : public local::addsubmul<VsintT<V>,
 public:
 	typedef typename V::value_type value_type;
 	VsintT(int x = 0)
-		: v_(::abs(x))
+		: v_(x < 0 ? -(value_type)x : (value_type)x)
 		, isNeg_(x < 0)
 	{
 	}
-- 
2.43.0


From 1611e2d1710a6b3e3c12969afbd11fee4fd1661b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:07 +0000
Subject: [PATCH 09/16] fix: VsintT::set(value_type) keeps the old sign

Also avoid the undefined -INT64_MIN in set(int64_t).
---
 include/zm.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/zm.h b/include/zm.h
index 1e9155f..3893282 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -981,11 +981,12 @@ public:
 	void set(value_type x)
 	{
 		v_.set(x);
+		isNeg_ = false;
 	}
 	void set(int64_t x)
 	{
 		isNeg_ = x < 0;
-		v_.set(isNeg_ ? -x : x);
+		v_.set(isNeg_ ? -(value_type)x : (value_type)x);
 	}
 	void set(const V& x)
 	{
-- 
2.43.0


From fbf02e684cfae86af738f3711fcfd65dc02462c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:07 +0000
Subject: [PATCH 10/16] fix: VsintT::set(ptr, size) keeps the old sign

---
 include/zm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/zm.h b/include/zm.h
index 3893282..aff8f70 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -993,7 +993,7 @@ public:
 		v_ = x;
 		isNeg_ = false;
 	}
-	void set(const uint64_t *ptr, size_t size) { v_.set(ptr, size); }
+	void set(const uint64_t *ptr, size_t size) { v_.set(ptr, size); isNeg_ = false; }
 	const V& get() const { return v_; }
 	V& get() { return v_; }
 	void clear() { v_.set((value_type)0); isNeg_ = false; }
-- 
2.43.0


From acc35a0300b81beda56668b5d6365bb4e0ce9138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:07 +0000
Subject: [PATCH 11/16] fix: VsintT::toString prints -0 for zero

---
 include/zm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/zm.h b/include/zm.h
index aff8f70..52188b3 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -999,7 +999,7 @@ public:
 	void clear() { v_.set((value_type)0); isNeg_ = false; }
 	std::string toString(int base = 10) const
 	{
-		if (isNeg_) return "-" + v_.toString(base);
+		if (isNegative()) return "-" + v_.toString(base);
 		return v_.toString(base);
 	}
 	void set(const std::string& str, int base = 10)
-- 
2.43.0


From 7123220c1eaa20c011c2b3bafa40eae346353fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:08 +0000
Subject: [PATCH 12/16] fix: operator<< of VsintT prints -0 for zero

---
 include/zm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/zm.h b/include/zm.h
index 52188b3..3e12acf 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -1112,7 +1112,7 @@ public:
 	}
 	inline friend std::ostream& operator<<(std::ostream& os, const VsintT& x)
 	{
-		if (x.isNeg_) os << "-";
+		if (x.isNegative()) os << "-";
 		return os << x.v_;
 	}
 	inline friend std::istream& operator>>(std::istream& is, VsintT& x)
-- 
2.43.0


From 873a58a5801678506d0a5f434102a3e5f3fdeaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:31 +0000
Subject: [PATCH 13/16] fix: division by a number of full Vuint capacity ends
 the program

The scratch product of VuintT::div needs one word more than the divisor,
which a FixedBuffer of full capacity refuses.
---
 include/zm.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/zm.h b/include/zm.h
index 3e12acf..a38b27a 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -928,8 +928,8 @@ public:
 		if (q) {
 			std::fill(q, q + xn - yn + 1, 0);
 		}
-		Buffer t;
-		t.alloc(yn + 1);
+		// yn + 1 words, which may exceed the capacity of Buffer
+		T *t = (T*)MIE_ALLOCA_(sizeof(T) * (yn + 1));
 		double yt = GetApp(y, yn, true);
 		while (F::compare(x, xn, y, yn) >= 0) {
 			size_t len = yn;
-- 
2.43.0


From 71bdc3d3fd871dbccce716419609fcfc8b6b3124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:35 +0000
Subject: [PATCH 14/16] fix: Fp::set(int) for the smallest int

-x overflows for INT_MIN, and the sign-extended result is not 2^31.
---
 include/zm2.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/zm2.h b/include/zm2.h
index 90e9ec6..aede461 100644
--- a/include/zm2.h
+++ b/include/zm2.h
@@ -57,7 +57,7 @@ public:
 			std::fill(v_ + 1, v_ + N, 0);
 			mul(*this, *this, montgomeryR2_);
 		} else {
-			v_[0] = -x;
+			v_[0] = -Unit(x);
 			std::fill(v_ + 1, v_ + N, 0);
 			mul(*this, *this, montgomeryR2_);
 			neg(*this, *this);
-- 
2.43.0


From 2540790f1c9f55d561ab9f25d19d4984553f74c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:24 +0000
Subject: [PATCH 15/16] fix: SNARK pointDblLineEval after a second Param::init

The generated code selected the shortcut for b = 82 when it was generated, so
Param::init(CurveSNARK2) followed by Param::init(CurveSNARK1) evaluated lines
with the twist coefficient of the wrong curve.
---
 src/zm2.cpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/zm2.cpp b/src/zm2.cpp
index 2f2e9ca..0170672 100644
--- a/src/zm2.cpp
+++ b/src/zm2.cpp
@@ -3077,16 +3077,22 @@ L("@@");
 
 #ifdef BN_SUPPORT_SNARK
 		// (a + bu) * binv_xi
-		if (ParamT<Fp2>::b == 82) {
-			// (a + bu) * (9 - u) = (9a + b) + (9b - a)u
-			in_Fp_mul_xi_addsub(t2, t0, t0 + 32, true);
-			in_Fp_mul_xi_addsub(t2 + 32, t0 + 32, t0, false);
-		} else {
-			lea(gp1, ptr [t2]);
-			lea(gp2, ptr [t0]);
-			mov(gp3, (size_t)&ParamT<Fp2>::b_invxi);
-			call(p_Fp2_mul);
-		}
+		// b is tested when the code runs because Param::init may be called again
+		inLocalLabel();
+		mov(gt1, (size_t)&ParamT<Fp2>::b);
+		cmp(dword [gt1], 82);
+		jne(".general", T_NEAR);
+		// (a + bu) * (9 - u) = (9a + b) + (9b - a)u
+		in_Fp_mul_xi_addsub(t2, t0, t0 + 32, true);
+		in_Fp_mul_xi_addsub(t2 + 32, t0 + 32, t0, false);
+		jmp(".end", T_NEAR);
+	L(".general");
+		lea(gp1, ptr [t2]);
+		lea(gp2, ptr [t0]);
+		mov(gp3, (size_t)&ParamT<Fp2>::b_invxi);
+		call(p_Fp2_mul);
+	L(".end");
+		outLocalLabel();
 #else
 		// Fp::add(t2.a_, t0.a_, t0.b_);
 		in_Fp_add(t2.a_, t0.a_, t0.b_);
-- 
2.43.0


From 3de499dd872031ec9aaa4e0a1d92c8b1474b9dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:22 +0000
Subject: [PATCH 16/16] fix: VuintT::shl of zero must not exhaust the buffer

0 << n is 0 for every n, but shlUnit first allocated 1 + n / 64 words, so the
program stopped with an error for n >= 576.
---
 include/zm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/zm.h b/include/zm.h
index a38b27a..8031edb 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -811,7 +811,7 @@ struct VuintT : public local::dividable<VuintT<Buffer>,
 	}
 	static inline void shl(VuintT& out, const VuintT& x, size_t n)
 	{
-		if (n == 0) {
+		if (n == 0 || x.isZero()) {
 			out = x;
 		} else {
 			const size_t unitSize = sizeof(T) * 8;
-- 
2.43.0

