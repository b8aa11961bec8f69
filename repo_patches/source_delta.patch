From 06284927ed9447b345bdedd8830b21b887e90ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:17:53 +0000
Subject: [PATCH 01/84] fix: make the multivariate gcd compile without CoCoA

The gcd used when CoCoA is disabled called member functions that no longer
exist. It now uses the free functions that replaced them.
---
 src/carl/core/polynomialfunctions/GCD_multivariate.h   | 5 +++--
 src/carl/core/polynomialfunctions/PrimitiveEuclidean.h | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/carl/core/polynomialfunctions/GCD_multivariate.h b/src/carl/core/polynomialfunctions/GCD_multivariate.h
index 95a4a20..536cb3c 100644
--- a/src/carl/core/polynomialfunctions/GCD_multivariate.h
+++ b/src/carl/core/polynomialfunctions/GCD_multivariate.h
@@ -2,6 +2,7 @@
 
 #include "../config.h"
 #include "PrimitiveEuclidean.h"
+#include "to_univariate_polynomial.h"
 #include "../MultivariatePolynomial.h"
 #include "../../numbers/typetraits.h"
 
@@ -32,8 +33,8 @@ namespace gcd_detail {
 			return Polynomial(1);
 		}
 		CARL_LOG_INEFFICIENT();
-		auto A = a.toUnivariatePolynomial(x);
-		auto B = b.toUnivariatePolynomial(x);
+		auto A = carl::to_univariate_polynomial(a, x);
+		auto B = carl::to_univariate_polynomial(b, x);
 		Polynomial result(primitive_euclidean(A.normalized(), B.normalized()));
 		if (carl::isNegative(result.lcoeff()) && !(carl::isNegative(a.lcoeff()) && carl::isNegative(b.lcoeff()))) {
 			return -result;
diff --git a/src/carl/core/polynomialfunctions/PrimitiveEuclidean.h b/src/carl/core/polynomialfunctions/PrimitiveEuclidean.h
index c94cc57..f1a08eb 100644
--- a/src/carl/core/polynomialfunctions/PrimitiveEuclidean.h
+++ b/src/carl/core/polynomialfunctions/PrimitiveEuclidean.h
@@ -2,6 +2,7 @@
 
 #include "Content.h"
 #include "PrimitivePart.h"
+#include "Remainder.h"
 
 #include "../UnivariatePolynomial.h"
 
@@ -18,7 +19,7 @@ UnivariatePolynomial<Coeff> primitive_euclidean(const UnivariatePolynomial<Coeff
 	UnivariatePolynomial<Coeff> d = primitive_part(b.normalized());
 	
 	while (!isZero(d)) {
-		UnivariatePolynomial<Coeff> r = c.prem(d);
+		UnivariatePolynomial<Coeff> r = pseudo_remainder(c, d);
 		c = d;
 		d = primitive_part(r.normalized());
 	}
-- 
2.43.0


From 1845ec9a051fb5fa2a1d9f0e3417fdb074cdacad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:17:53 +0000
Subject: [PATCH 02/84] fix: make interval-based real algebraic numbers compile
 without CoCoA

Algebraic substitution referred to CoCoA types even when CoCoA was disabled.
Without CoCoA it now works on the defining polynomials directly. These may be
reducible, so a zero result is reported as failure instead of nullification.
---
 src/carl/ran/interval/AlgebraicSubstitution.h |  2 ++
 src/carl/ran/interval/internal.h              | 22 +++++++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/carl/ran/interval/AlgebraicSubstitution.h b/src/carl/ran/interval/AlgebraicSubstitution.h
index 93c703b..d81815f 100644
--- a/src/carl/ran/interval/AlgebraicSubstitution.h
+++ b/src/carl/ran/interval/AlgebraicSubstitution.h
@@ -36,6 +36,7 @@ std::optional<UnivariatePolynomial<Number>> algebraic_substitution_groebner(
 	const std::vector<MultivariatePolynomial<Number>>& polynomials,
 	const std::vector<Variable>& variables
 ) {
+#ifdef USE_COCOA
 	Variable target = variables.back();
 	try {
 		CoCoAAdaptor<MultivariatePolynomial<Number>> ca(variables, true);
@@ -51,6 +52,7 @@ std::optional<UnivariatePolynomial<Number>> algebraic_substitution_groebner(
 	} catch (const CoCoA::ErrorInfo& e) {
 		CARL_LOG_ERROR("carl.algsubs", "Computation of GBasis failed: " << e << " -> " << CoCoA::context(e));
 	}
+#endif
 	return std::nullopt;
 	// return UnivariatePolynomial<Number>(target);
 }
diff --git a/src/carl/ran/interval/internal.h b/src/carl/ran/interval/internal.h
index a1199ff..ca01149 100644
--- a/src/carl/ran/interval/internal.h
+++ b/src/carl/ran/interval/internal.h
@@ -13,6 +13,7 @@ namespace carl::ran::interval {
         std::vector<MultivariatePolynomial<Number>> polys;
         std::vector<Variable> varOrder;
 
+#ifdef USE_COCOA
         if (use_lazard) {
             CARL_LOG_TRACE("carl.ran", "Substituting using Lazard evaluation");
             auto le = LazardEvaluation<Number, MultivariatePolynomial<Number>>(MultivariatePolynomial<Number>(p));
@@ -46,8 +47,29 @@ namespace carl::ran::interval {
             varOrder.emplace_back(p.mainVar());
             CARL_LOG_TRACE("carl.ran", "main poly " << p << " in " << p.mainVar() << " is now " << polys.back());
         }
+#else
+        // Without CoCoA, the defining polynomials can not be reduced to minimal polynomials over the extension field.
+        CARL_LOG_TRACE("carl.ran", "Substituting using the defining polynomials");
+        for (const auto& vic: m) {
+            varOrder.emplace_back(vic.first);
+            if (vic.second.is_numeric()) {
+                polys.emplace_back(vic.first - MultivariatePolynomial<Number>(vic.second.value()));
+            } else {
+                polys.emplace_back(replace_main_variable(vic.second.polynomial(), vic.first));
+            }
+        }
+        polys.emplace_back(p);
+        varOrder.emplace_back(p.mainVar());
+#endif
 
         CARL_LOG_TRACE("carl.ran", "Perform algebraic substitution on " << polys << " wrt " << varOrder);
+#ifdef USE_COCOA
         return algebraic_substitution(polys, varOrder);
+#else
+        auto res = algebraic_substitution(polys, varOrder);
+        // As the polynomials may be non-minimal, a zero result does not imply that p is nullified.
+        if (res && carl::isZero(*res)) return std::nullopt;
+        return res;
+#endif
     }
 }
\ No newline at end of file
-- 
2.43.0


From 952717db43c064ddf2ac2ca9f738b8677c3d0b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:55 +0000
Subject: [PATCH 03/84] fix: reject rationals with a zero denominator when
 parsing

Parsing a text like 1/0 divided by zero and killed the process with SIGFPE.
The parser now reports a failure instead.
---
 src/carl/numbers/parser/parser.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/carl/numbers/parser/parser.h b/src/carl/numbers/parser/parser.h
index fc29c59..dbefa8d 100644
--- a/src/carl/numbers/parser/parser.h
+++ b/src/carl/numbers/parser/parser.h
@@ -111,13 +111,18 @@ namespace parser {
 	template<typename T, typename Iterator = std::string::const_iterator>
 	struct RationalParser: public qi::grammar<Iterator, T(), Skipper> {
 		RationalParser(): RationalParser::base_type(main, "rational") {
-			main = (number >> -(qi::lit('/') >> number))[qi::_val = px::bind(&RationalParser::makeRational, px::ref(*this), qi::_1, qi::_2)];
+			main = (number >> -(qi::lit('/') >> number))[qi::_pass = px::bind(&RationalParser::makeRational, px::ref(*this), qi::_val, qi::_1, qi::_2)];
 		}
 		DecimalParser<T> number;
 		qi::rule<Iterator, T(), Skipper> main;
-		T makeRational(const T& a, const boost::optional<T>& b) const {
-			if (!b) return a;
-			return a / *b;
+		bool makeRational(T& res, const T& a, const boost::optional<T>& b) const {
+			if (!b) {
+				res = a;
+				return true;
+			}
+			if (isZero(*b)) return false;
+			res = a / *b;
+			return true;
 		}
 	};
 	
-- 
2.43.0


From d6c6f41dc4ecc95cd6c8452c2141dfb1dde243b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:02 +0000
Subject: [PATCH 04/84] fix: keep finite field numbers reduced

The symmetric remainder was wrong for negative and for even moduli, the compound
operators left numbers unreduced so that zero was not recognised, and dividing in
place did nothing. The field size also overflowed for p^k above 32 bits.
---
 src/carl/numbers/GFNumber.h    |  2 +-
 src/carl/numbers/GFNumber.tpp  | 15 +++++++++++++--
 src/carl/numbers/GaloisField.h | 17 +++++++----------
 3 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/carl/numbers/GFNumber.h b/src/carl/numbers/GFNumber.h
index 39209de..75d6c73 100644
--- a/src/carl/numbers/GFNumber.h
+++ b/src/carl/numbers/GFNumber.h
@@ -51,7 +51,7 @@ class GFNumber
 	{
 		if(isZero() || isUnit()) return;
 		assert(mGf != nullptr);
-		mGf->modulo(mN);
+		mN = mGf->modulo(mN);
 	}
 	
 	bool isZero() const
diff --git a/src/carl/numbers/GFNumber.tpp b/src/carl/numbers/GFNumber.tpp
index c546ea6..8d77994 100644
--- a/src/carl/numbers/GFNumber.tpp
+++ b/src/carl/numbers/GFNumber.tpp
@@ -116,6 +116,7 @@ template<typename IntegerT>
 GFNumber<IntegerT>& GFNumber<IntegerT>::operator ++()
 {
 	mN++;
+	if (mGf != nullptr) normalize();
 	return *this;
 }
 
@@ -127,6 +128,7 @@ GFNumber<IntegerType>& GFNumber<IntegerType>::operator +=(const GFNumber& rhs)
 		mGf = rhs.mGf;
 	}
 	mN += rhs.mN;
+	if (mGf != nullptr) normalize();
 	return *this;
 }
 
@@ -134,6 +136,7 @@ template<typename IntegerType>
 GFNumber<IntegerType>& GFNumber<IntegerType>::operator +=(const IntegerType& rhs)
 {
 	mN += rhs;
+	if (mGf != nullptr) normalize();
 	return *this;
 }
 
@@ -159,6 +162,7 @@ template<typename IntegerT>
 GFNumber<IntegerT>& GFNumber<IntegerT>::operator --()
 {
 	mN--;
+	if (mGf != nullptr) normalize();
 	return *this;
 }
 
@@ -170,6 +174,7 @@ GFNumber<IntegerType>& GFNumber<IntegerType>::operator -=(const GFNumber& rhs)
 		mGf = rhs.mGf;
 	}
 	mN -= rhs.mN;
+	if (mGf != nullptr) normalize();
 	return *this;
 }
 
@@ -177,6 +182,7 @@ template<typename IntegerType>
 GFNumber<IntegerType>& GFNumber<IntegerType>::operator -=(const IntegerType& rhs)
 {
 	mN -= rhs;
+	if (mGf != nullptr) normalize();
 	return *this;
 }
 
@@ -201,8 +207,12 @@ GFNumber<IntegerT> operator*(const IntegerT& lhs, const GFNumber<IntegerT>& rhs)
 template<typename IntegerT>
 GFNumber<IntegerT>& GFNumber<IntegerT>::operator *=(const GFNumber& rhs)
 {
-	assert(rhs.mGf == nullptr || *mGf == *(rhs.mGf));
+	assert(mGf == nullptr || rhs.mGf == nullptr || *mGf == *(rhs.mGf));
+	if (mGf == nullptr) {
+		mGf = rhs.mGf;
+	}
 	mN *= rhs.mN;
+	if (mGf != nullptr) normalize();
 	return *this;
 }
 
@@ -210,6 +220,7 @@ template<typename IntegerType>
 GFNumber<IntegerType>& GFNumber<IntegerType>::operator *=(const IntegerType& rhs)
 {
 	mN *= rhs;
+	if (mGf != nullptr) normalize();
 	return *this;
 }
 
@@ -227,7 +238,7 @@ template<typename IntegerT>
 GFNumber<IntegerT>& GFNumber<IntegerT>::operator /=(const GFNumber<IntegerT>& rhs)
 {
 	assert(!rhs.isZero());
-	mN * rhs.inverse().mN;
+	*this *= rhs.inverse();
 	return *this;
 }
 
diff --git a/src/carl/numbers/GaloisField.h b/src/carl/numbers/GaloisField.h
index defe330..5432974 100644
--- a/src/carl/numbers/GaloisField.h
+++ b/src/carl/numbers/GaloisField.h
@@ -36,8 +36,7 @@ private:
 	const BaseIntType mP;
 	const BaseIntType mK;
 	const IntegerType mPK; // = mP ^ mK
-	const IntegerType mMaxValue; // = (mPK-1) / 2
-	const IntegerType mModulus; // = (mPK+1) / 2 = mMaxValue + 1
+	const IntegerType mMaxValue; // = floor(mPK / 2)
 	
 	public:
 	/**
@@ -48,9 +47,8 @@ private:
      */
 	explicit GaloisField(BaseIntType p, BaseIntType k = 1):
 		mP(p), mK(k),
-		mPK(pow(p,k)),
-		mMaxValue((mPK-1)/2),
-		mModulus(mMaxValue+1)
+		mPK(carl::pow(IntegerType(p),k)),
+		mMaxValue(mPK/2)
 	{ 
 	}
 	
@@ -79,11 +77,10 @@ private:
 	}
 	
 	IntegerType symmetricModulo(const IntegerType& n) const	{
-		if (n > mMaxValue) {
-			return carl::mod(IntegerType(n-mModulus), mPK) - mMaxValue;
-		} else {
-			return carl::mod(n, mPK);
-		}
+		IntegerType res = carl::mod(n, mPK);
+		if (res < 0) res += mPK;
+		if (res > mMaxValue) res -= mPK;
+		return res;
 	}
 	
 	friend bool operator==(const GaloisField& lhs, const GaloisField& rhs) {
-- 
2.43.0


From e59394fbd7a718501e75c379ac1ef83cb8ea5af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:52 +0000
Subject: [PATCH 05/84] fix: scale intervals by zero and negative numbers
 correctly

---
 src/carl/interval/operators.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/carl/interval/operators.h b/src/carl/interval/operators.h
index 19b6065..d5abe8d 100644
--- a/src/carl/interval/operators.h
+++ b/src/carl/interval/operators.h
@@ -395,7 +395,9 @@ inline Interval<Number> operator*(const Interval<Number>& lhs, const Interval<Nu
  */
 template<typename Number>
 inline Interval<Number> operator*(const Interval<Number>& lhs, const Number& rhs) {
-	if (rhs >= 0) {
+	if (carl::isZero(rhs)) {
+		return lhs.isEmpty() ? lhs : Interval<Number>::zeroInterval();
+	} else if (rhs >= 0) {
 		return Interval<Number>(lhs.rContent() * rhs, lhs.lowerBoundType(), lhs.upperBoundType());
 	} else {
 		return Interval<Number>(lhs.rContent() * rhs, lhs.upperBoundType(), lhs.lowerBoundType());
@@ -433,8 +435,7 @@ inline Interval<Number>& operator*=(Interval<Number>& lhs, const Interval<Number
  */
 template<typename Number>
 inline Interval<Number>& operator*=(Interval<Number>& lhs, const Number& rhs) {
-	lhs.rContent() *= rhs;
-	return lhs;
+	return lhs = lhs * rhs;
 }
 
 /**
-- 
2.43.0


From d527ec6fc5ebe270ff5ef8f221565aeac51c94f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:52 +0000
Subject: [PATCH 06/84] fix: keep attained end points when squaring symmetric
 intervals

---
 src/carl/interval/power.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/carl/interval/power.h b/src/carl/interval/power.h
index 81124d9..2e0933a 100644
--- a/src/carl/interval/power.h
+++ b/src/carl/interval/power.h
@@ -30,6 +30,8 @@ Interval<Number> pow(const Interval<Number>& i, Integer exp) {
 			BoundType lType = i.lowerBoundType();
 			if (carl::abs(i.lower()) > carl::abs(i.upper())) {
 				std::swap(lType, rType);
+			} else if (carl::abs(i.lower()) == carl::abs(i.upper())) {
+				rType = getWeakestBoundType(lType, rType);
 			}
 			if (i.contains(carl::constant_zero<Number>().get())) {
 				return Interval<Number>(boost::numeric::pow(i.rContent(), int(exp)), BoundType::WEAK, rType);
@@ -69,7 +71,7 @@ Interval<Number> sqrt(const Interval<Number>& i) {
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 void sqrt_assign(Interval<Number>& i) {
-	i = sqrt(i, exp);
+	i = sqrt(i);
 }
 
 }
\ No newline at end of file
-- 
2.43.0


From 14dbc9b161f14ef8be1e4dd2590cef4626986bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:52 +0000
Subject: [PATCH 07/84] fix: construct empty intervals consistently from
 interval contents

---
 src/carl/interval/Interval.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/interval/Interval.h b/src/carl/interval/Interval.h
index 885befb..25d5868 100644
--- a/src/carl/interval/Interval.h
+++ b/src/carl/interval/Interval.h
@@ -240,7 +240,7 @@ namespace carl
                     mLowerBoundType = BoundType::STRICT;
                     mUpperBoundType = BoundType::STRICT;
                 }
-                if (IS_UNBOUNDED(content.lower(), lowerBoundType, content.upper(), upperBoundType))
+                else if (IS_UNBOUNDED(content.lower(), lowerBoundType, content.upper(), upperBoundType))
                 {
                     mContent = BoostInterval(carl::constant_zero<Number>().get());
                     mLowerBoundType = BoundType::INFTY;
-- 
2.43.0


From 3fb3ee0a2a4d3a86face6de626856fd96574bdf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:52 +0000
Subject: [PATCH 08/84] fix: enclose all values in interval sums, products,
 quotients and absolute values

---
 src/carl/interval/Interval.tpp | 107 ++++++++++++++++++++-------------
 1 file changed, 66 insertions(+), 41 deletions(-)

diff --git a/src/carl/interval/Interval.tpp b/src/carl/interval/Interval.tpp
index 38cf2be..cb4ba23 100644
--- a/src/carl/interval/Interval.tpp
+++ b/src/carl/interval/Interval.tpp
@@ -378,7 +378,7 @@ Interval<Number> Interval<Number>::add(const Interval<Number>& rhs) const
 {
     assert(this->isConsistent());
     assert(rhs.isConsistent());
-	if (rhs.isEmpty()) return emptyInterval();
+	if (this->isEmpty() || rhs.isEmpty()) return emptyInterval();
     return Interval<Number>( mContent + rhs.content(),
                           getStrictestBoundType( mLowerBoundType, rhs.lowerBoundType() ),
                           getStrictestBoundType( mUpperBoundType, rhs.upperBoundType() ) );
@@ -439,6 +439,10 @@ Interval<Number> Interval<Number>::mul(const Interval<Number>& rhs) const
                         lowerA = lowerB;
                         lowerBoundType = getStrictestBoundType(xut, ylt);
                     }
+                    else if( lowerA == lowerB )
+                    {
+                        lowerBoundType = getWeakestBoundType(getStrictestBoundType(xut, ylt), getStrictestBoundType(xlt, yut));
+                    }
                     else
                     {
                         lowerBoundType = getStrictestBoundType(xlt, yut);
@@ -450,6 +454,10 @@ Interval<Number> Interval<Number>::mul(const Interval<Number>& rhs) const
                         upperA = upperB;
                         upperBoundType = getStrictestBoundType(xut, yut);
                     }
+                    else if( upperA == upperB )
+                    {
+                        upperBoundType = getWeakestBoundType(getStrictestBoundType(xut, yut), getStrictestBoundType(xlt, ylt));
+                    }
                     else
                     {
                         upperBoundType = getStrictestBoundType(xlt, ylt);
@@ -605,36 +613,40 @@ Interval<Number> Interval<Number>::div(const Interval<Number>& rhs) const
 		assert(this->isConsistent());
 		assert(rhs.isConsistent());
 		assert(!rhs.contains(carl::constant_zero<Number>().get()));
-		BoundType lowerBoundType = BoundType::WEAK;
-        BoundType upperBoundType = BoundType::WEAK;
-		///@todo Correctly determine if bounds are strict or weak.
-		if (this->isOpenInterval() || rhs.isOpenInterval()) {
-			// just a quick heuristic, by no means complete.
-            lowerBoundType = BoundType::STRICT;
-            upperBoundType = BoundType::STRICT;
+		if (this->isEmpty() || rhs.isEmpty()) return emptyInterval();
+		const Number zero = carl::constant_zero<Number>().get();
+		// The divisor lies on one side of zero. Mirror both operands if it is negative.
+		if (rhs.lowerBoundType() == BoundType::INFTY || rhs.lower() < zero) return this->inverse().div(rhs.inverse());
+		typename BoostIntervalPolicies::rounding rnd;
+		const Number& xl = mContent.lower();
+		const Number& xu = mContent.upper();
+		const Number& yl = rhs.lower();
+		const Number& yu = rhs.upper();
+		const BoundType ylt = rhs.lowerBoundType();
+		const BoundType yut = rhs.upperBoundType();
+		Number lower = zero;
+		BoundType lowerBoundType = mLowerBoundType;
+		if (mLowerBoundType != BoundType::INFTY && xl != zero) {
+			if (xl < zero) {
+				lowerBoundType = carl::isZero(yl) ? BoundType::INFTY : getStrictestBoundType(mLowerBoundType, ylt);
+				if (!carl::isZero(yl)) lower = rnd.div_down(xl, yl);
+			} else {
+				lowerBoundType = yut == BoundType::INFTY ? BoundType::STRICT : getStrictestBoundType(mLowerBoundType, yut);
+				if (yut != BoundType::INFTY) lower = rnd.div_down(xl, yu);
+			}
 		}
-        const Number& xl = mContent.lower();
-        const Number& yl = rhs.lower();
-        const Number& yu = rhs.upper();
-        const BoundType& xlt = mLowerBoundType;
-        const BoundType& xut = mUpperBoundType;
-        const BoundType& ylt = rhs.lowerBoundType();
-        const BoundType& yut = rhs.upperBoundType();
-        if( (xlt == BoundType::INFTY && (carl::isPositive(yu) || yut == BoundType::INFTY))
-		   || (xut == BoundType::INFTY && (carl::isNegative(yl) || ylt == BoundType::INFTY))
-		   || (ylt == BoundType::INFTY && (carl::isPositive(xl) || xut == BoundType::INFTY))
-		   || (yut == BoundType::INFTY && (carl::isNegative(xl) || (carl::isNegative(xl) || xlt == BoundType::INFTY))) )
-        {
-            lowerBoundType = BoundType::INFTY;
-        }
-        if( (xlt == BoundType::INFTY && (carl::isNegative(yu) || (carl::isNegative(yl) || ylt == BoundType::INFTY)))
-		   || (xut == BoundType::INFTY && (carl::isPositive(yl) || (carl::isPositive(yu) || yut == BoundType::INFTY)))
-		   || (ylt == BoundType::INFTY && (carl::isNegative(xl) || (carl::isNegative(xl) || xlt == BoundType::INFTY)))
-		   || (yut == BoundType::INFTY && (carl::isPositive(xl) || (carl::isPositive(xl) || xut == BoundType::INFTY))) )
-        {
-            upperBoundType = BoundType::INFTY;
-        }
-        return Interval<Number>(BoostInterval( mContent/rhs.content() ), lowerBoundType, upperBoundType );
+		Number upper = zero;
+		BoundType upperBoundType = mUpperBoundType;
+		if (mUpperBoundType != BoundType::INFTY && xu != zero) {
+			if (xu > zero) {
+				upperBoundType = carl::isZero(yl) ? BoundType::INFTY : getStrictestBoundType(mUpperBoundType, ylt);
+				if (!carl::isZero(yl)) upper = rnd.div_up(xu, yl);
+			} else {
+				upperBoundType = yut == BoundType::INFTY ? BoundType::STRICT : getStrictestBoundType(mUpperBoundType, yut);
+				if (yut != BoundType::INFTY) upper = rnd.div_up(xu, yu);
+			}
+		}
+		return Interval<Number>(lower, lowerBoundType, upper, upperBoundType);
 	}
 
 template<typename Number>
@@ -721,18 +733,31 @@ void Interval<Number>::inverse_assign()
         template<typename Number>
         Interval<Number> Interval<Number>::abs() const
         {
-            if(this->contains(carl::constant_zero<Number>().get()))
+            const Number zero = carl::constant_zero<Number>().get();
+            if( this->isEmpty() || (mLowerBoundType != BoundType::INFTY && mContent.lower() >= zero) )
+            {
+                // interval is already fully positive
+                return *this;
+            }
+            if( mUpperBoundType != BoundType::INFTY && mContent.upper() <= zero )
+            {
+                // interval is fully negative
+                return this->inverse();
+            }
+            if( this->isUnbounded() )
+            {
+                return Interval<Number>( zero, BoundType::WEAK, zero, BoundType::INFTY );
+            }
+            const Number negated = -mContent.lower();
+            if( negated == mContent.upper() )
             {
-                Number max = mContent.upper() > mContent.lower() ? mContent.upper() : mContent.lower();
-                BoundType bt = mContent.upper() > mContent.lower() ? mUpperBoundType : mLowerBoundType;
-                return Interval<Number>( carl::constant_zero<Number>().get(), BoundType::WEAK, max, bt );
+                return Interval<Number>( zero, BoundType::WEAK, negated, getWeakestBoundType(mLowerBoundType, mUpperBoundType) );
             }
-            else if( mContent.upper() < carl::constant_zero<Number>().get()) // interval is fully negative
+            if( negated > mContent.upper() )
             {
-                return Interval<Number>(-mContent.upper(), mUpperBoundType, -mContent.lower(), mLowerBoundType);
+                return Interval<Number>( zero, BoundType::WEAK, negated, mLowerBoundType );
             }
-            // otherwise inteval is already fully positive
-            return *this;
+            return Interval<Number>( zero, BoundType::WEAK, mContent.upper(), mUpperBoundType );
         }
 
         template<typename Number>
@@ -745,7 +770,7 @@ template<typename Number>
 bool Interval<Number>::reciprocal(Interval<Number>& a, Interval<Number>& b) const {
         if( this->isInfinite() )
         {
-            a = emptyInterval();
+            a = unboundedInterval();
             return false;
         }
         else if( this->contains( carl::constant_zero<Number>().get() ) && mContent.lower() != carl::constant_zero<Number>().get() && mContent.upper() != carl::constant_zero<Number>().get() )
@@ -786,7 +811,7 @@ bool Interval<Number>::reciprocal(Interval<Number>& a, Interval<Number>& b) cons
         {
             if( mLowerBoundType == BoundType::INFTY && mContent.upper() != carl::constant_zero<Number>().get() )
             {
-                a = Interval<Number>(  carl::constant_one<Number>().get() / mContent.upper() , mUpperBoundType,carl::constant_zero<Number>().get(),  BoundType::WEAK );
+                a = Interval<Number>( (BoostInterval( carl::constant_one<Number>().get() ) / BoostInterval( mContent.upper() )).lower(), mUpperBoundType,carl::constant_zero<Number>().get(),  BoundType::WEAK );
             }
             else if( mLowerBoundType == BoundType::INFTY && mContent.upper() == carl::constant_zero<Number>().get() )
             {
@@ -794,7 +819,7 @@ bool Interval<Number>::reciprocal(Interval<Number>& a, Interval<Number>& b) cons
             }
             else if( mUpperBoundType == BoundType::INFTY && mContent.lower() != carl::constant_zero<Number>().get() )
             {
-                a = Interval<Number>(  carl::constant_zero<Number>().get() , BoundType::WEAK, carl::constant_one<Number>().get()  /  mContent.lower(), mLowerBoundType );
+                a = Interval<Number>(  carl::constant_zero<Number>().get() , BoundType::WEAK, (BoostInterval( carl::constant_one<Number>().get() ) / BoostInterval( mContent.lower() )).upper(), mLowerBoundType );
             }
             else if( mUpperBoundType == BoundType::INFTY && mContent.lower() == carl::constant_zero<Number>().get() )
             {
-- 
2.43.0


From 1076cf2a3ad14d49e697cb1154b766c998685bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:37 +0000
Subject: [PATCH 09/84] fix: compute set operations on empty and equally
 bounded intervals correctly

---
 src/carl/interval/set_theory.h | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/carl/interval/set_theory.h b/src/carl/interval/set_theory.h
index 4531a3b..b6f6a3d 100644
--- a/src/carl/interval/set_theory.h
+++ b/src/carl/interval/set_theory.h
@@ -22,18 +22,18 @@ bool set_complement(const Interval<Number>& interval, Interval<Number>& resA, In
 			resB = Interval<Number>::emptyInterval();
 			return false;
 		} else {
-			resA = Interval<Number>(interval.upper(), getOtherBoundType(interval.upperBoundType()), 0, BoundType::INFTY);
+			resA = Interval<Number>(interval.upper(), getOtherBoundType(interval.upperBoundType()), carl::constant_zero<Number>().get(), BoundType::INFTY);
 			resB = Interval<Number>::emptyInterval();
 			return false;
 		}
 	} else {
 		if (interval.upperBoundType() == BoundType::INFTY) {
-			resA = Interval<Number>(0, BoundType::INFTY, interval.lower(), getOtherBoundType(interval.lowerBoundType()));
+			resA = Interval<Number>(carl::constant_zero<Number>().get(), BoundType::INFTY, interval.lower(), getOtherBoundType(interval.lowerBoundType()));
 			resB = Interval<Number>::emptyInterval();
 			return false;
 		} else {
-			resA = Interval<Number>(0, BoundType::INFTY, interval.lower(), getOtherBoundType(interval.lowerBoundType()));
-			resB = Interval<Number>(interval.upper(), getOtherBoundType(interval.upperBoundType()), 0, BoundType::INFTY);
+			resA = Interval<Number>(carl::constant_zero<Number>().get(), BoundType::INFTY, interval.lower(), getOtherBoundType(interval.lowerBoundType()));
+			resB = Interval<Number>(interval.upper(), getOtherBoundType(interval.upperBoundType()), carl::constant_zero<Number>().get(), BoundType::INFTY);
 			return true;
 		}
 	}
@@ -52,7 +52,7 @@ template<typename Number>
 bool set_difference(const Interval<Number>& lhs, const Interval<Number>& rhs, Interval<Number>& resA, Interval<Number>& resB) {
 	assert(lhs.isConsistent() && rhs.isConsistent());
 
-	if (rhs.isEmpty()) {
+	if (lhs.isEmpty() || rhs.isEmpty()) {
 		resA = lhs;
 		resB = Interval<Number>::emptyInterval();
 		return false;
@@ -68,8 +68,9 @@ bool set_difference(const Interval<Number>& lhs, const Interval<Number>& rhs, In
 		return false;
 	}
 	if (lhs.lowerBound() < rhs.lowerBound()) {
-		if (lhs.upperBound() < rhs.upperBound()) {
+		if (lhs.upperBound() <= rhs.upperBound()) {
 			resA = Interval<Number>(lhs.lowerBound(), rhs.lowerBound());
+			resB = Interval<Number>::emptyInterval();
 			return false;
 		} else {
 			resA = Interval<Number>(lhs.lowerBound(), rhs.lowerBound());
@@ -77,7 +78,7 @@ bool set_difference(const Interval<Number>& lhs, const Interval<Number>& rhs, In
 			return !resB.isEmpty();
 		}
 	} else {
-		if (lhs.upperBound() < rhs.upperBound()) {
+		if (lhs.upperBound() <= rhs.upperBound()) {
 			resA = Interval<Number>::emptyInterval();
 			resB = Interval<Number>::emptyInterval();
 			return false;
@@ -116,6 +117,7 @@ Interval<Number> set_intersection(const Interval<Number>& lhs, const Interval<Nu
 
 template<typename Number>
 bool set_have_intersection(const Interval<Number>& lhs, const Interval<Number>& rhs) {
+	if (lhs.isEmpty() || rhs.isEmpty()) return false;
 	if (lhs.lowerBound() <= rhs.lowerBound() && rhs.lowerBound() <= lhs.upperBound()) return true;
 	if (rhs.lowerBound() <= lhs.lowerBound() && lhs.lowerBound() <= rhs.upperBound()) return true;
 	return false;
@@ -169,7 +171,8 @@ bool set_symmetric_difference(const Interval<Number>& lhs, const Interval<Number
 		return true;
 	} else {
 		Interval<Number> tmp;
-		bool res = set_union(lhs, rhs, tmp, tmp);
+		Interval<Number> empty;
+		bool res = set_union(lhs, rhs, tmp, empty);
 		assert(!res);
 		return set_difference(tmp, intersection, resA, resB);
 	}
@@ -187,6 +190,11 @@ template<typename Number>
 bool set_union(const Interval<Number>& lhs, const Interval<Number>& rhs, Interval<Number>& resA, Interval<Number>& resB) {
 	assert(lhs.isConsistent() && rhs.isConsistent());
 
+	if (lhs.isEmpty() || rhs.isEmpty()) {
+		resA = lhs.isEmpty() ? rhs : lhs;
+		resB = Interval<Number>::emptyInterval();
+		return false;
+	}
 	if (carl::bounds_connect(lhs.upperBound(), rhs.lowerBound())) {
 		resA = Interval<Number>(lhs.lowerBound(), rhs.upperBound());
 		resB = Interval<Number>::emptyInterval();
-- 
2.43.0


From 658cabf8e5629fb573cd57ca69ca47a01a92fc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:38 +0000
Subject: [PATCH 10/84] fix: sample inside the interval when using the
 Stern-Brocot tree

---
 src/carl/interval/sampling.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/carl/interval/sampling.h b/src/carl/interval/sampling.h
index 50014a6..dd9d8df 100644
--- a/src/carl/interval/sampling.h
+++ b/src/carl/interval/sampling.h
@@ -55,21 +55,26 @@ Number sample_stern_brocot(const Interval<Number>& i, bool includingBounds = tru
 	Int rightnum = carl::constant_one<Int>::get();
 	Int rightden = carl::constant_zero<Int>::get();
 	Number cur = Number(leftnum) / Number(leftden);
-	if (i.contains(cur)) {
+	auto isValid = [&](const Number& n) {
+		if (!i.contains(n)) return false;
+		if (includingBounds) return true;
+		return (i.lowerBoundType() == BoundType::INFTY || i.lower() < n) && (i.upperBoundType() == BoundType::INFTY || n < i.upper());
+	};
+	if (isValid(cur)) {
 		return cur;
 	}
 	while (true) {
 		Int curnum = leftnum + rightnum;
 		Int curden = leftden + rightden;
 		cur = Number(curnum) / Number(curden);
-		if ((cur < i.lower()) || (!includingBounds && cur == i.lower())) {
+		if (isValid(cur)) {
+			return cur;
+		} else if (cur <= i.lower()) {
 			leftnum = curnum;
 			leftden = curden;
-		} else if ((cur > i.upper()) || (!includingBounds && cur == i.upper())) {
+		} else {
 			rightnum = curnum;
 			rightden = curden;
-		} else {
-			return cur;
 		}
 	}
 }
-- 
2.43.0


From 69c67da57bca05d3001f0ade6039c1deec84d31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:38 +0000
Subject: [PATCH 11/84] fix: normalize intervals that become unbounded on both
 sides

---
 src/carl/interval/Interval.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/carl/interval/Interval.h b/src/carl/interval/Interval.h
index 25d5868..59af4f9 100644
--- a/src/carl/interval/Interval.h
+++ b/src/carl/interval/Interval.h
@@ -929,8 +929,7 @@ namespace carl
         {
 			/// TODO: Fix this.
         	if(b == BoundType::INFTY) {
-				this->set(mContent.upper(), mContent.upper());
-        		mLowerBoundType = b;
+				setLowerBoundType(b);
         	} else {
         		if(mUpperBoundType == BoundType::INFTY){
         			this->set(n, n);
@@ -951,8 +950,7 @@ namespace carl
         {
 			/// TODO: Fix this.
             if(b == BoundType::INFTY) {
-				this->set(mContent.lower(), mContent.lower());
-        		mUpperBoundType = b;
+				setUpperBoundType(b);
         	} else {
         		if(mLowerBoundType == BoundType::INFTY){
         			this->set(n, n);
@@ -974,7 +972,8 @@ namespace carl
 			mLowerBoundType = b;
             if (b == BoundType::INFTY) {
 				//setLower(carl::constant_zero<Number>().get());
-				setLower(upper());
+				if (mUpperBoundType == BoundType::INFTY) set(carl::constant_zero<Number>().get(), carl::constant_zero<Number>().get());
+				else setLower(upper());
             }
         }
 
@@ -987,7 +986,8 @@ namespace carl
 			mUpperBoundType = b;
             if (b == BoundType::INFTY) {
 				//setUpper(carl::constant_zero<Number>().get());
-				setUpper(lower());
+				if (mLowerBoundType == BoundType::INFTY) set(carl::constant_zero<Number>().get(), carl::constant_zero<Number>().get());
+				else setUpper(lower());
             }
         }
 
-- 
2.43.0


From 5e256ad8f4f7eef2a2d17010114bc6e89250825d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:38 +0000
Subject: [PATCH 12/84] fix: keep the extreme end points in convex hulls of
 intervals

---
 src/carl/interval/Interval.tpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/carl/interval/Interval.tpp b/src/carl/interval/Interval.tpp
index cb4ba23..971e1d3 100644
--- a/src/carl/interval/Interval.tpp
+++ b/src/carl/interval/Interval.tpp
@@ -361,12 +361,9 @@ Interval<Number> Interval<Number>::convexHull(const Interval<Number>& interval)
 	if(interval.isEmpty())
 		return *this;
 
-	BoundType newLowerBound = getStrictestBoundType(this->lowerBoundType(), interval.lowerBoundType());
-	BoundType newUpperBound = getStrictestBoundType(this->upperBoundType(), interval.upperBoundType());
-	Number newLower = interval.lower() < this->lower() ? interval.lower() : this->lower();
-	Number newUpper = interval.upper() > this->upper() ? interval.upper() : this->upper();
-
-    return Interval(newLower, newLowerBound, newUpper, newUpperBound);
+	const Interval<Number>& lowest = interval.lowerBound() < this->lowerBound() ? interval : *this;
+	const Interval<Number>& highest = this->upperBound() < interval.upperBound() ? interval : *this;
+	return Interval(lowest.lowerBound(), highest.upperBound());
 }
 
 /*******************************************************************************
-- 
2.43.0


From 637fcc4b317979c8929073f46371238480415ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:51:54 +0000
Subject: [PATCH 13/84] fix: enclose all values of trigonometric functions over
 open and unbounded intervals

---
 src/carl/interval/trigonometric.h | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/carl/interval/trigonometric.h b/src/carl/interval/trigonometric.h
index 17c1072..aa55c33 100644
--- a/src/carl/interval/trigonometric.h
+++ b/src/carl/interval/trigonometric.h
@@ -9,37 +9,44 @@ namespace carl {
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 Interval<Number> sin(const Interval<Number>& i) {
 	assert(i.isConsistent());
-	return Interval<Number>(boost::numeric::sin(i.rContent()), i.lowerBoundType(), i.upperBoundType());
+	if (i.isEmpty()) return i;
+	if (i.isUnbounded()) return Interval<Number>(Number(-1), BoundType::WEAK, Number(1), BoundType::WEAK);
+	// The extreme values may be attained in the interior.
+	return Interval<Number>(boost::numeric::sin(i.rContent()), BoundType::WEAK, BoundType::WEAK);
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 void sin_assign(Interval<Number>& i) {
 	assert(i.isConsistent());
-	i.set(boost::numeric::sin(i.rContent()));
+	i = sin(i);
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 Interval<Number> cos(const Interval<Number>& i) {
 	assert(i.isConsistent());
-	return Interval<Number>(boost::numeric::cos(i.rContent()), i.lowerBoundType(), i.upperBoundType());
+	if (i.isEmpty()) return i;
+	if (i.isUnbounded()) return Interval<Number>(Number(-1), BoundType::WEAK, Number(1), BoundType::WEAK);
+	// The extreme values may be attained in the interior.
+	return Interval<Number>(boost::numeric::cos(i.rContent()), BoundType::WEAK, BoundType::WEAK);
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 void cos_assign(Interval<Number>& i) {
 	assert(i.isConsistent());
-	i.set(boost::numeric::cos(i.rContent()));
+	i = cos(i);
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 Interval<Number> tan(const Interval<Number>& i) {
 	assert(i.isConsistent());
+	if (i.isUnbounded()) return Interval<Number>::unboundedInterval();
 	return Interval<Number>(boost::numeric::tan(i.rContent()), i.lowerBoundType(), i.upperBoundType());
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 void tan_assign(Interval<Number>& i) {
 	assert(i.isConsistent());
-	i.set(boost::numeric::tan(i.rContent()));
+	i = tan(i);
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
@@ -57,13 +64,13 @@ void asin_assign(Interval<Number>& i) {
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 Interval<Number> acos(const Interval<Number>& i) {
 	assert(i.isConsistent());
-	return Interval<Number>(boost::numeric::acos(i.rContent()), i.lowerBoundType(), i.upperBoundType());
+	return Interval<Number>(boost::numeric::acos(i.rContent()), i.upperBoundType(), i.lowerBoundType());
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 void acos_assign(Interval<Number>& i) {
 	assert(i.isConsistent());
-	i.set(boost::numeric::acos(i.rContent()));
+	i = acos(i);
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
@@ -93,13 +100,16 @@ void sinh_assign(Interval<Number>& i) {
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 Interval<Number> cosh(const Interval<Number>& i) {
 	assert(i.isConsistent());
-	return Interval<Number>(boost::numeric::cosh(i.rContent()), i.lowerBoundType(), i.upperBoundType());
+	if (i.isEmpty()) return i;
+	if (i.isUnbounded()) return Interval<Number>(Number(1), BoundType::WEAK, Number(1), BoundType::INFTY);
+	// The minimum may be attained in the interior.
+	return Interval<Number>(boost::numeric::cosh(i.rContent()), BoundType::WEAK, BoundType::WEAK);
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 void cosh_assign(Interval<Number>& i) {
 	assert(i.isConsistent());
-	i.set(boost::numeric::cosh(i.rContent()));
+	i = cosh(i);
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
-- 
2.43.0


From 03a80591bf04d45b1c4d6c28862dbefd374f3a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:52:04 +0000
Subject: [PATCH 14/84] fix: evaluate univariate polynomials over intervals
 completely

---
 src/carl/interval/IntervalEvaluation.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/carl/interval/IntervalEvaluation.h b/src/carl/interval/IntervalEvaluation.h
index 11f36e5..d4456ec 100644
--- a/src/carl/interval/IntervalEvaluation.h
+++ b/src/carl/interval/IntervalEvaluation.h
@@ -108,14 +108,14 @@ template<typename Numeric, typename Coeff, EnableIf<std::is_same<Numeric, Coeff>
 inline Interval<Numeric> IntervalEvaluation::evaluate(const UnivariatePolynomial<Coeff>& p, const std::map<Variable, Interval<Numeric>>& map) {
 	CARL_LOG_FUNC("carl.core.monomial", p << ", " << map);
 	assert(map.count(p.mainVar()) > 0);
-	Interval<Numeric> res = Interval<Numeric>::emptyInterval();
-	const Interval<Numeric> varValue = map.at(p.mainVar());
+	Interval<Numeric> res = Interval<Numeric>(carl::constant_zero<Numeric>().get());
+	const Interval<Numeric>& varValue = map.at(p.mainVar());
 	Interval<Numeric> exp(1);
-	for (unsigned i = 0; i < p.degree(); i++) {
+	for (uint i = 0; i < p.coefficients().size(); i++) {
 		res += p.coefficients()[i] * exp;
         if( res.isInfinite() )
             return res;
-		exp = varValue.pow(i+1);
+		exp = carl::pow(varValue, i+1);
 	}
 	return res;
 }
@@ -127,7 +127,7 @@ inline Interval<Numeric> IntervalEvaluation::evaluate(const UnivariatePolynomial
 	Interval<Numeric> res = Interval<Numeric>(carl::constant_zero<Numeric>().get());
 	const Interval<Numeric>& varValue = map.at(p.mainVar());
 	Interval<Numeric> exp(1);
-	for (uint i = 0; i <= p.degree(); i++) {
+	for (uint i = 0; i < p.coefficients().size(); i++) {
 		res += IntervalEvaluation::evaluate(p.coefficients()[i], map) * exp;
         if( res.isInfinite() )
             return res;
-- 
2.43.0


From 62b9d0060fe3b1177f2ece5700b9d9ca0220efad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:03:23 +0000
Subject: [PATCH 15/84] fix: order monomials by std::less irreflexively for the
 constant monomial

---
 src/carl/core/Monomial.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/carl/core/Monomial.h b/src/carl/core/Monomial.h
index a37e48a..fc7da4b 100644
--- a/src/carl/core/Monomial.h
+++ b/src/carl/core/Monomial.h
@@ -692,8 +692,7 @@ namespace std
 	template<>
 	struct less<carl::Monomial::Arg> {
 		bool operator()(const carl::Monomial::Arg& lhs, const carl::Monomial::Arg& rhs) const {
-			if (lhs && rhs) return lhs < rhs;
-			return !lhs;
+			return lhs < rhs;
 		}
 	};
 	
-- 
2.43.0


From 6a470765ff1698bf56116e7ec8ee3a090e439ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:03:23 +0000
Subject: [PATCH 16/84] fix: a constant term is not divisible by a nonconstant
 monomial

---
 src/carl/core/Term.tpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/carl/core/Term.tpp b/src/carl/core/Term.tpp
index 6403d06..7deec99 100644
--- a/src/carl/core/Term.tpp
+++ b/src/carl/core/Term.tpp
@@ -99,6 +99,7 @@ bool Term<Coefficient>::divide(const Monomial::Arg& m, Term& res) const
 		}
 		return false;
 	}
+	if (m) return false;
 	res = *this;
 	return true;
 }
-- 
2.43.0


From 58bcc300cd005546956614d4be2bb59ab19be94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:03:23 +0000
Subject: [PATCH 17/84] fix: compare the zero polynomial consistently with
 terms, numbers and constants

---
 src/carl/core/MultivariatePolynomial_operators.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/carl/core/MultivariatePolynomial_operators.h b/src/carl/core/MultivariatePolynomial_operators.h
index d4e1365..471b9c5 100644
--- a/src/carl/core/MultivariatePolynomial_operators.h
+++ b/src/carl/core/MultivariatePolynomial_operators.h
@@ -39,7 +39,7 @@ inline bool operator==(const MultivariatePolynomial<C,O,P>& lhs, const Multivari
 }
 template<typename C, typename O, typename P>
 inline bool operator==(const MultivariatePolynomial<C,O,P>& lhs, const Term<C>& rhs) {
-	if (isZero(lhs) && isZero(rhs)) return true;
+	if (isZero(lhs)) return isZero(rhs);
 	if (lhs.nrTerms() > 1) return false;
 	return lhs.lterm() == rhs;
 }
@@ -173,7 +173,7 @@ inline bool operator!=(const MultivariatePolynomial<C,O,P>& lhs, const Univariat
  */
 template<typename C, typename O, typename P>
 inline bool operator<(const MultivariatePolynomial<C,O,P>& lhs, const MultivariatePolynomial<C,O,P>& rhs) {
-	if (isZero(lhs) && isZero(rhs)) return false;
+	if (lhs.isConstant() && rhs.isConstant()) return lhs.constantPart() < rhs.constantPart();
 	if (isZero(lhs)) return true;
 	if (isZero(rhs)) return false;
 	if (lhs.totalDegree() != rhs.totalDegree()) return lhs.totalDegree() < rhs.totalDegree();
@@ -209,7 +209,7 @@ inline bool operator<(const MultivariatePolynomial<C,O,P>& lhs, Variable rhs) {
 }
 template<typename C, typename O, typename P>
 inline bool operator<(const MultivariatePolynomial<C,O,P>& lhs, const C& rhs) {
-	if (isZero(lhs)) return true;
+	if (isZero(lhs)) return carl::constant_zero<C>().get() < rhs;
 	return lhs.lterm() < rhs;
 }
 template<typename C, typename O, typename P>
-- 
2.43.0


From 95ba20b926e051bd6559325a0b68afd107f739e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:03:23 +0000
Subject: [PATCH 18/84] fix: adding and subtracting constant terms, multiplying
 by a zero term, adding terms in place

---
 src/carl/core/MultivariatePolynomial.tpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/carl/core/MultivariatePolynomial.tpp b/src/carl/core/MultivariatePolynomial.tpp
index 7a3f3ea..decd6ff 100644
--- a/src/carl/core/MultivariatePolynomial.tpp
+++ b/src/carl/core/MultivariatePolynomial.tpp
@@ -153,7 +153,7 @@ MultivariatePolynomial<Coeff,Ordering,Policies>::MultivariatePolynomial(const Un
 	mOrdered(true)
 {
 	exponent exp = 0;
-	mTerms.reserve(p.degree());
+	mTerms.reserve(p.coefficients().size());
 	for (const auto& c: p.coefficients()) {
 		if (!carl::isZero(c)) {
 			if (exp == 0) mTerms.emplace_back(c);
@@ -383,6 +383,7 @@ void MultivariatePolynomial<Coeff,Ordering,Policies>::subtractProduct(const Term
 	if (carl::isZero(*this)) {
 		*this = - factor * p;
         assert(this->isConsistent());
+		return;
 	}
 	if (carl::isZero(factor.coeff())) return;
 	if (p.nrTerms() == 1) {
@@ -420,12 +421,19 @@ void MultivariatePolynomial<Coeff,Ordering,Policies>::addTerm(const Term<Coeff>&
 		} else mTerms.insert(mTerms.begin(), term);
 		return;
 	}
+	if (mTerms.empty()) {
+		mTerms.push_back(term);
+		return;
+	}
 	if (mOrdered) {
 		auto it = mTerms.begin();
 		for (; it != mTerms.end(); it++) {
 			CompareResult res = Ordering::compare(term, *it);
 			switch (res) {
-			case CompareResult::LESS: break;
+			case CompareResult::LESS: {
+				mTerms.insert(it, term);
+				return;
+			}
 			case CompareResult::EQUAL: {
 				it->coeff() += term.coeff();
 				if (carl::isZero(it->coeff())) {
@@ -461,9 +469,8 @@ void MultivariatePolynomial<Coeff,Ordering,Policies>::addTerm(const Term<Coeff>&
 					return;
 				}
 			}
-			auto lt = mTerms.back();
 			mTerms.push_back(term);
-			std::swap(lt, mTerms.back());
+			std::swap(mTerms[mTerms.size()-2], mTerms[mTerms.size()-1]);
 		}
 		}
 	}
@@ -761,6 +768,9 @@ MultivariatePolynomial<Coeff, Ordering, Policies>& MultivariatePolynomial<Coeff,
 template<typename Coeff, typename Ordering, typename Policies>
 MultivariatePolynomial<Coeff, Ordering, Policies>& MultivariatePolynomial<Coeff, Ordering, Policies>::operator+=(const Monomial::Arg& rhs)
 {
+	if (!rhs) {
+		return *this += constant_one<Coeff>::get();
+	}
 	if (mTerms.empty()) {
 		// Empty -> just insert.
 		mTerms.emplace_back(constant_one<Coeff>::get(), rhs);
@@ -899,6 +909,7 @@ MultivariatePolynomial<Coeff, Ordering, Policies>& MultivariatePolynomial<Coeff,
 {
 	///@todo Check if this works with ordering.
 	if (carl::isZero(rhs.coeff())) return *this;
+	if (rhs.isConstant()) return *this -= rhs.coeff();
 	CARL_LOG_TRACE("carl.core", *this << " -= " << rhs);
 	if (Policies::searchLinear)
 	{
@@ -1054,6 +1065,11 @@ template<typename Coeff, typename Ordering, typename Policies>
 MultivariatePolynomial<Coeff,Ordering,Policies>& MultivariatePolynomial<Coeff,Ordering,Policies>::operator*=(const Term<Coeff>& rhs)
 {
 	assert(this->isConsistent());
+	if (carl::isZero(rhs)) {
+		mTerms.clear();
+		mOrdered = true;
+		return *this;
+	}
 	///@todo more efficient.
 	TermsType newTerms;
 	newTerms.reserve(mTerms.size());
-- 
2.43.0


From edb1459bba71bb9c34d3c031389dfd9e116d45dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:23:38 +0000
Subject: [PATCH 19/84] fix: Make replace_main_variable compile for polynomial
 coefficients

---
 src/carl/core/polynomialfunctions/Representation.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/carl/core/polynomialfunctions/Representation.h b/src/carl/core/polynomialfunctions/Representation.h
index 1a7178c..b61d88f 100644
--- a/src/carl/core/polynomialfunctions/Representation.h
+++ b/src/carl/core/polynomialfunctions/Representation.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include "Substitution.h"
 #include "to_univariate_polynomial.h"
 
 #include "../MultivariatePolynomial.h"
@@ -33,7 +34,7 @@ UnivariatePolynomial<Coeff> replace_main_variable(const UnivariatePolynomial<Coe
 		return UnivariatePolynomial<Coeff>(newVar, p.coefficients());
 	} else {
 		using MP = MultivariatePolynomial<typename UnderlyingNumberType<Coeff>::type>;
-		return to_univariate_polynomial(MP(p).substitute(p.mainVar(), MP(newVar)), newVar);
+		return to_univariate_polynomial(substitute(MP(p), p.mainVar(), MP(newVar)), newVar);
 	}
 }
 
-- 
2.43.0


From bc3d167f807f3824a65423d44bec8998404f8493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:23:38 +0000
Subject: [PATCH 20/84] fix: Substitution of the main variable and of terms
 that become zero

Substituting the main variable of a polynomial with polynomial coefficients
ignored the powers of the variable. Substituting into a term asserted when
the result was zero.
---
 src/carl/core/polynomialfunctions/Substitution.h | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/carl/core/polynomialfunctions/Substitution.h b/src/carl/core/polynomialfunctions/Substitution.h
index 26be063..e0b3f18 100644
--- a/src/carl/core/polynomialfunctions/Substitution.h
+++ b/src/carl/core/polynomialfunctions/Substitution.h
@@ -215,7 +215,10 @@ MultivariatePolynomial<C,O,P> substitute(const MultivariatePolynomial<C,O,P>& p,
 	auto& tam = MultivariatePolynomial<C,O,P>::mTermAdditionManager;
 	auto id = tam.getId(p.nrTerms());
 	for (const auto& term: p) {
-		tam.template addTerm<false>(id, substitute(term, substitutions));
+		Term<C> resultTerm = substitute(term, substitutions);
+		if (!carl::isZero(resultTerm)) {
+			tam.template addTerm<false>(id, resultTerm);
+		}
 	}
 	tam.readTerms(id, result.getTerms());
 	result.reset_ordered();
@@ -376,12 +379,7 @@ UnivariatePolynomial<Coeff> substitute(const UnivariatePolynomial<Coeff>& p, Var
 		return p;
 	} else {
 		if (var == p.mainVar()) {
-			UnivariatePolynomial<Coeff> res(p.mainVar());
-			for (const auto& c: p.coefficients()) {
-				res += substitute(c, var, value);
-			}
-			CARL_LOG_TRACE("carl.core.uvpolynomial", p << " [ " << var << " -> " << value << " ] = " << res);
-			return res;
+			return UnivariatePolynomial<Coeff>(p.mainVar(), carl::evaluate(p, value));
 		} else {
 			if (value.has(var)) {
 				// Fall back to multivariate substitution.
-- 
2.43.0


From 9b5282a08d5bfe4783e53347078a7425b78e2130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:23:38 +0000
Subject: [PATCH 21/84] fix: Derivative of the constant monomial

---
 src/carl/core/polynomialfunctions/Derivative.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/carl/core/polynomialfunctions/Derivative.h b/src/carl/core/polynomialfunctions/Derivative.h
index 7b112a1..9374bbf 100644
--- a/src/carl/core/polynomialfunctions/Derivative.h
+++ b/src/carl/core/polynomialfunctions/Derivative.h
@@ -34,6 +34,7 @@ const T& derivative(const T& t, Variable, std::size_t n = 1) {
  */
 inline std::pair<std::size_t,Monomial::Arg> derivative(const Monomial::Arg& m, Variable v, std::size_t n = 1) {
 	if (n == 0) return std::make_pair(1, m);
+	if (!m) return std::make_pair(0, nullptr);
 	auto it = std::find_if(m->begin(), m->end(),
 		[v](const auto& e){ return e.first == v; }
 	);
-- 
2.43.0


From b6903354f2fa685e7457477920a0d3f93015871f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:23:38 +0000
Subject: [PATCH 22/84] fix: Arithmetic, construction and comparison of
 univariate polynomials

- Subtracting a polynomial from a constant had the wrong sign.
- The constructor from a map placed coefficients at wrong degrees.
- Multiplying zero by a variable produced a leading zero.
- Comparison by degree was not antisymmetric for different main variables.
- Conversion of finite field polynomials to integers always asserted.
- A null pointer compared less than a null pointer.
---
 src/carl/core/UnivariatePolynomial.h   |  2 +-
 src/carl/core/UnivariatePolynomial.tpp | 10 ++++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/carl/core/UnivariatePolynomial.h b/src/carl/core/UnivariatePolynomial.h
index 841720e..674b876 100644
--- a/src/carl/core/UnivariatePolynomial.h
+++ b/src/carl/core/UnivariatePolynomial.h
@@ -904,7 +904,7 @@ struct less<carl::UnivariatePolynomial<Coefficient>> {
 	 */
 	bool operator()(const carl::UnivariatePolynomial<Coefficient>* lhs, const carl::UnivariatePolynomial<Coefficient>* rhs) const {
 		if (lhs == nullptr) return rhs != nullptr;
-		if (rhs == nullptr) return true;
+		if (rhs == nullptr) return false;
 		return lhs->less(*rhs, order);
 	}
 	/**
diff --git a/src/carl/core/UnivariatePolynomial.tpp b/src/carl/core/UnivariatePolynomial.tpp
index 162d281..b19bb41 100644
--- a/src/carl/core/UnivariatePolynomial.tpp
+++ b/src/carl/core/UnivariatePolynomial.tpp
@@ -120,7 +120,7 @@ UnivariatePolynomial<Coeff>::UnivariatePolynomial(Variable mainVar, const std::m
 	mCoefficients.reserve(coefficients.rbegin()->first);
 	for (const auto& expAndCoeff : coefficients)
 	{
-		if(expAndCoeff.first != mCoefficients.size() + 1)
+		if(expAndCoeff.first != mCoefficients.size())
 		{
 			mCoefficients.resize(expAndCoeff.first, Coeff(0));
 		}
@@ -360,7 +360,6 @@ UnivariatePolynomial<typename IntegralType<Coeff>::type> UnivariatePolynomial<Co
 	res.mCoefficients.reserve(mCoefficients.size());
 	for(const Coeff& c : mCoefficients)
 	{
-		assert(carl::isInteger(c));
 		res.mCoefficients.push_back(c.representingInteger());
 	}
 	res.stripLeadingZeroes();
@@ -592,12 +591,13 @@ UnivariatePolynomial<C> operator-(const UnivariatePolynomial<C>& lhs, const C& r
 template<typename C>
 UnivariatePolynomial<C> operator-(const C& lhs, const UnivariatePolynomial<C>& rhs)
 {
-	return rhs - lhs;
+	return -(rhs - lhs);
 }
 
 template<typename Coefficient>
 template<typename C, EnableIf<is_number<C>>>
 UnivariatePolynomial<Coefficient>& UnivariatePolynomial<Coefficient>::operator*=(Variable rhs) {
+	if (carl::isZero(*this)) return *this;
 	if (rhs == this->mMainVar) {
 		this->mCoefficients.insert(this->mCoefficients.begin(), Coefficient(0));
 		return *this;
@@ -608,6 +608,7 @@ UnivariatePolynomial<Coefficient>& UnivariatePolynomial<Coefficient>::operator*=
 template<typename Coefficient>
 template<typename C, DisableIf<is_number<C>>>
 UnivariatePolynomial<Coefficient>& UnivariatePolynomial<Coefficient>::operator*=(Variable rhs) {
+	if (carl::isZero(*this)) return *this;
 	if (rhs == this->mMainVar) {
 		this->mCoefficients.insert(this->mCoefficients.begin(), Coefficient(0));
 		return *this;
@@ -835,7 +836,8 @@ bool UnivariatePolynomial<C>::less(const UnivariatePolynomial<C>& rhs, const Pol
 		}*/
 		case PolynomialComparisonOrder::LowDegree:
 			if (carl::isZero(rhs)) return false;
-			if (carl::isZero(*this) || this->degree() < rhs.degree()) return true;
+			if (carl::isZero(*this)) return true;
+			if (this->degree() != rhs.degree()) return this->degree() < rhs.degree();
 			return *this < rhs;
 		case PolynomialComparisonOrder::Memory:
 			return this < &rhs;
-- 
2.43.0


From d9367a047de26db1330d4c770093a311530bb0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:23:38 +0000
Subject: [PATCH 23/84] fix: Division of polynomials that did not compile or
 read out of bounds

- Dividing a univariate polynomial by a number did not compile.
- Dividing multivariate polynomials did not compile.
- Integer division read beyond the remainder when its degree dropped.
---
 src/carl/core/polynomialfunctions/Division.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/carl/core/polynomialfunctions/Division.h b/src/carl/core/polynomialfunctions/Division.h
index 81d9333..d1688f7 100644
--- a/src/carl/core/polynomialfunctions/Division.h
+++ b/src/carl/core/polynomialfunctions/Division.h
@@ -125,7 +125,7 @@ DivisionResult<MultivariatePolynomial<Coeff,Ordering,Policies>> divide(const Mul
 	MultivariatePolynomial<Coeff,Ordering,Policies> p = dividend;
 	while(!is_zero(p)) {
 		Term<Coeff> factor;
-		if (try_divide(p.lterm(), divisor.lterm(), factor)) {
+		if (p.lterm().divide(divisor.lterm(), factor)) {
 			q += factor;
 			p.subtractProduct(factor, divisor);
 			//p -= factor * divisor;
@@ -157,13 +157,12 @@ bool try_divide(const UnivariatePolynomial<Coeff>& dividend, const Coeff& diviso
 template<typename Coeff>
 DivisionResult<UnivariatePolynomial<Coeff>> divide(const UnivariatePolynomial<Coeff>& p, const Coeff& divisor) {
 	assert(p.isConsistent());
-	assert(divisor.isConsistent());
 	if constexpr(is_field<Coeff>::value) {
 		UnivariatePolynomial<Coeff> res(p);
 		for (auto& c: res.coefficients()) {
 			c = c / divisor;
 		}
-		return DivisionResult<UnivariatePolynomial<Coeff>> {res, UnivariatePolynomial(p.mainVar()) };
+		return DivisionResult<UnivariatePolynomial<Coeff>> {res, UnivariatePolynomial<Coeff>(p.mainVar()) };
 	} else {
 		CARL_LOG_ERROR("carl.core", "Called divide() with non-field number divisor " << divisor);
 		return p;
@@ -198,10 +197,13 @@ DivisionResult<UnivariatePolynomial<Coeff>> divide(const UnivariatePolynomial<Co
 		if(carl::isZero(dividend)) return result;
 		assert(dividend == divisor * result.quotient + result.remainder);
 
+		if (divisor.degree() > dividend.degree()) return result;
+
 		std::vector<Coeff> coeffs(1+dividend.coefficients().size()-divisor.coefficients().size(), Coeff(0));
 
 		uint degdiff = dividend.degree() - divisor.degree();
 		for (std::size_t offset = 0; offset <= degdiff; offset++) {
+			if (dividend.degree() - offset >= result.remainder.coefficients().size()) continue;
 			Coeff factor = carl::quotient(result.remainder.coefficients()[dividend.degree()-offset], divisor.lcoeff());
 			result.remainder -= UnivariatePolynomial<Coeff>(dividend.mainVar(), factor, degdiff - offset) * divisor;
 			coeffs[degdiff-offset] += factor;
-- 
2.43.0


From 851379f29ae5953a53ad9b3d6bd5a5eed47750dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:23:38 +0000
Subject: [PATCH 24/84] fix: Make signed_pseudo_remainder compile

---
 src/carl/core/polynomialfunctions/Remainder.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/core/polynomialfunctions/Remainder.h b/src/carl/core/polynomialfunctions/Remainder.h
index 4e1d413..b5153a7 100644
--- a/src/carl/core/polynomialfunctions/Remainder.h
+++ b/src/carl/core/polynomialfunctions/Remainder.h
@@ -166,7 +166,7 @@ UnivariatePolynomial<Coeff> signed_pseudo_remainder(const UnivariatePolynomial<C
 	uint d = dividend.degree() - divisor.degree() + 1;
 	if (d % 2 == 1) ++d;
 	Coeff prefactor = pow(b,d);
-	return remainder(dividend, divisor, &prefactor);
+	return remainder(dividend, divisor, prefactor);
 }
 
 template<typename C, typename O, typename P>
-- 
2.43.0


From 0ed92460b553770b8240cd566a2dda4fd039b8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:23:38 +0000
Subject: [PATCH 25/84] fix: Denominator of an integer is one

---
 src/carl/numbers/adaption_gmpxx/operations.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/carl/numbers/adaption_gmpxx/operations.h b/src/carl/numbers/adaption_gmpxx/operations.h
index 4cbfc99..68db3a7 100644
--- a/src/carl/numbers/adaption_gmpxx/operations.h
+++ b/src/carl/numbers/adaption_gmpxx/operations.h
@@ -92,8 +92,8 @@ inline mpz_class getDenom(const mpq_class& n) {
 	return n.get_den();
 }
 
-inline mpz_class getDenom(const mpz_class& n) {
-	return n;
+inline mpz_class getDenom(const mpz_class&) {
+	return mpz_class(1);
 }
 
 inline bool isInteger(const mpq_class& n) {
-- 
2.43.0


From 9d764af29cffe7b4baf62a497730d3c80de8fab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:23:38 +0000
Subject: [PATCH 26/84] fix: Keep the common numeric factor in greatest common
 divisors over the integers

---
 .../core/polynomialfunctions/GCD_multivariate.h | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/carl/core/polynomialfunctions/GCD_multivariate.h b/src/carl/core/polynomialfunctions/GCD_multivariate.h
index 536cb3c..8cc8ddc 100644
--- a/src/carl/core/polynomialfunctions/GCD_multivariate.h
+++ b/src/carl/core/polynomialfunctions/GCD_multivariate.h
@@ -26,11 +26,24 @@ namespace gcd_detail {
 		}
 	}
 
+	/// Computes the gcd if it is known to be constant: a unit for fields, otherwise the gcd of all coefficients.
+	template<typename C, typename O, typename P>
+	MultivariatePolynomial<C,O,P> gcd_constant(const MultivariatePolynomial<C,O,P>& a, const MultivariatePolynomial<C,O,P>& b) {
+		if constexpr (is_field<C>::value) {
+			return MultivariatePolynomial<C,O,P>(1);
+		} else {
+			C res = a.lcoeff();
+			for (const auto& t: a) res = carl::gcd(res, t.coeff());
+			for (const auto& t: b) res = carl::gcd(res, t.coeff());
+			return MultivariatePolynomial<C,O,P>(res);
+		}
+	}
+
 	template<typename Polynomial>
 	Polynomial gcd_calculate(const Polynomial& a, const Polynomial& b) {
 		Variable x = select_variable(a, b);
 		if (x == Variable::NO_VARIABLE) {
-			return Polynomial(1);
+			return gcd_constant(a, b);
 		}
 		CARL_LOG_INEFFICIENT();
 		auto A = carl::to_univariate_polynomial(a, x);
@@ -57,7 +70,7 @@ MultivariatePolynomial<C,O,P> gcd(const MultivariatePolynomial<C,O,P>& a, const
 		return MultivariatePolynomial<C,O,P>(carl::gcd(a.constantPart(), b.constantPart()));
 	}
 	if (a.isConstant() || b.isConstant()) {
-		return MultivariatePolynomial<C,O,P>(1);
+		return gcd_detail::gcd_constant(a, b);
 	}
 
 	auto s = overloaded {
-- 
2.43.0


From cb669f6c9fa28daed7576e1acab1e7b56b5d70ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:23:38 +0000
Subject: [PATCH 27/84] fix: Keep the sign in univariate factorization

---
 src/carl/core/polynomialfunctions/Factorization_univariate.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/carl/core/polynomialfunctions/Factorization_univariate.h b/src/carl/core/polynomialfunctions/Factorization_univariate.h
index c746554..7ca8457 100644
--- a/src/carl/core/polynomialfunctions/Factorization_univariate.h
+++ b/src/carl/core/polynomialfunctions/Factorization_univariate.h
@@ -331,9 +331,10 @@ FactorMap<Coeff> factorization(const UnivariatePolynomial<Coeff>& p) {
 		result.emplace(p, 1);
 		return result;
 	}
-	// Make the polynomial's coefficients coprime (integral and with gcd 1).
+	// Make the polynomial's coefficients coprime (integral and with gcd 1) and the leading coefficient positive.
 	UnivariatePolynomial<Coeff> remainingPoly(p.mainVar());
 	Coeff factor = p.coprimeFactor();
+	if(p.lcoeff() < Coeff(0)) factor = -factor;
 	if(factor == 1)
 	{
 		remainingPoly = p;
-- 
2.43.0


From 96cc9e4a2e410249840423e6f9df28980ff41f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:09:12 +0000
Subject: [PATCH 28/84] fix: Compute subresultants with the Ducos strategy
 within bounds and up to the right factor

---
 src/carl/core/polynomialfunctions/Resultant.h | 38 ++++++++++---------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/carl/core/polynomialfunctions/Resultant.h b/src/carl/core/polynomialfunctions/Resultant.h
index 24d966b..e240d22 100644
--- a/src/carl/core/polynomialfunctions/Resultant.h
+++ b/src/carl/core/polynomialfunctions/Resultant.h
@@ -227,33 +227,37 @@ std::list<UnivariatePolynomial<Coeff>> subresultants(
 				// Ducos' optimization
 				Coeff lcoeffQ = q.lcoeff();
 				Coeff lcoeffC = c.lcoeff();
-				std::vector<Coeff> h(pDeg);
+				std::vector<UnivariatePolynomial<Coeff>> h;
 
 				for (uint d = 0; d < qDeg; d++) {
-					h[d] = lcoeffC * carl::pow(Coeff(variable), d);
-				}
-				if (pDeg != qDeg) { // => aDeg > bDeg
-					h[qDeg] = Coeff(lcoeffC * carl::pow(Coeff(variable), qDeg) - c); // H_e
+					h.emplace_back(variable, lcoeffC, d);
 				}
+				h.emplace_back(UnivariatePolynomial<Coeff>(variable, lcoeffC, qDeg) - c); // H_e
+				// The coefficient of degree e of the given polynomial, times q.
+				auto leadingMultiple = [&](const UnivariatePolynomial<Coeff>& t) {
+					if (t.coefficients().size() <= qDeg) return UnivariatePolynomial<Coeff>(variable);
+					return q * t.coefficients()[qDeg];
+				};
 				for (uint d = qDeg + 1; d < pDeg; d++) {
-					Coeff t = h[d-1] * variable;
-					UnivariatePolynomial<Coeff> reducedNewB = carl::to_univariate_polynomial(t, variable).coefficients()[qDeg] * q;
-					bool res = carl::try_divide(reducedNewB, lcoeffQ, reducedNewB);
-					assert(res || is_constant(reducedNewB));
-					h[d] = Coeff(t - reducedNewB);
+					UnivariatePolynomial<Coeff> t = h.back() * variable;
+					UnivariatePolynomial<Coeff> reducedNewB(variable);
+					bool res = carl::try_divide(leadingMultiple(t), lcoeffQ, reducedNewB);
+					assert(res);
+					h.emplace_back(t - reducedNewB);
 				}
 
-				UnivariatePolynomial<Coeff> sum(p.mainVar(), h.front() * p.coefficients()[0]);
-				for (uint d = 1; d < pDeg; d++) {
+				UnivariatePolynomial<Coeff> sum(variable);
+				for (uint d = 0; d < pDeg; d++) {
 					sum += h[d] * p.coefficients()[d];
 				}
-				UnivariatePolynomial<Coeff> normalizedSum(p.mainVar());
+				UnivariatePolynomial<Coeff> normalizedSum(variable);
 				bool res = carl::try_divide(sum, p.lcoeff(), normalizedSum);
-				assert(res || is_constant(sum));
+				assert(res);
 
-				UnivariatePolynomial<Coeff> t(variable, {0, h.back()});
-				UnivariatePolynomial<Coeff> reducedNewB = ((t + normalizedSum) * lcoeffQ - carl::to_univariate_polynomial(t.coefficients()[qDeg], variable));
-				carl::try_divide(reducedNewB, p.lcoeff(), reducedNewB);
+				UnivariatePolynomial<Coeff> t = h.back() * variable;
+				UnivariatePolynomial<Coeff> reducedNewB(variable);
+				res = carl::try_divide((t + normalizedSum) * lcoeffQ - leadingMultiple(t), subresLcoeff, reducedNewB);
+				assert(res);
 				if (delta % 2 == 0) {
 					q = -reducedNewB;
 				} else {
-- 
2.43.0


From 47b9efafd3b2f200a4a568957010b6f8158e933a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:09:12 +0000
Subject: [PATCH 29/84] fix: Count no sign variations for sequences without a
 nonzero value

---
 src/carl/core/Sign.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/carl/core/Sign.h b/src/carl/core/Sign.h
index 9ec9a2f..6265505 100644
--- a/src/carl/core/Sign.h
+++ b/src/carl/core/Sign.h
@@ -67,8 +67,9 @@ Sign sgn(const Number& n) {
  */
 template<typename InputIterator>
 std::size_t sign_variations(InputIterator begin, InputIterator end) {
-	while ((*begin == Sign::ZERO) && (begin != end))
+	while ((begin != end) && (*begin == Sign::ZERO))
 		++begin;
+	if (begin == end) return 0;
 
 	std::size_t changes = 0;
 	for (Sign last = *begin; begin != end; ++begin) {
-- 
2.43.0


From e633ed43f11a46aa9ee6450a2c8f183c5350e905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:09:12 +0000
Subject: [PATCH 30/84] fix: Compare algebraic numbers with disjoint intervals
 by any relation and allow polynomial signs at rational numbers

---
 src/carl/ran/interval/ran_interval.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/carl/ran/interval/ran_interval.h b/src/carl/ran/interval/ran_interval.h
index 0da32d2..e4b61de 100644
--- a/src/carl/ran/interval/ran_interval.h
+++ b/src/carl/ran/interval/ran_interval.h
@@ -278,6 +278,7 @@ public:
 	}
 
 	Sign sgn(const Polynomial& p) const {
+		if (is_numeric()) return carl::sgn(carl::evaluate(p, value()));
 		Polynomial tmp = replaceVariable(p);
 		if (polynomial_int() == tmp) return Sign::ZERO;
 		auto seq = carl::sturm_sequence(polynomial_int(), derivative(polynomial_int()) * tmp);
@@ -428,10 +429,10 @@ bool compare(const real_algebraic_number_interval<Number>& lhs, const real_algeb
 	CARL_LOG_TRACE("carl.ran", "Intervals " << lhs.interval_int() << " and " << rhs.interval_int() << " are disjoint");
 	assert(!carl::set_have_intersection(lhs.interval_int(), rhs.interval_int()));
 	if (lhs.interval_int().upper() <= rhs.interval_int().lower()) {
-		return relation == Relation::LESS || relation == Relation::LEQ;
+		return evaluate(Sign::NEGATIVE, relation);
 	}
 	if (lhs.interval_int().lower() >= rhs.interval_int().upper()) {
-		return relation == Relation::GREATER || relation == Relation::GEQ;
+		return evaluate(Sign::POSITIVE, relation);
 	}
 
 	assert(false);
-- 
2.43.0


From 4358f9dfee91aa959bfc3585cce0ee64e8a6e797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:09:12 +0000
Subject: [PATCH 31/84] fix: Return only the roots within the given interval
 from root isolation

---
 src/carl/ran/interval/RealRootIsolation.h | 27 +++++++++++++++++------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/carl/ran/interval/RealRootIsolation.h b/src/carl/ran/interval/RealRootIsolation.h
index 6a100b9..5a79f13 100644
--- a/src/carl/ran/interval/RealRootIsolation.h
+++ b/src/carl/ran/interval/RealRootIsolation.h
@@ -114,12 +114,17 @@ class RealRootIsolation {
 	void add_trivial_root(const Number& n) {
 		CARL_LOG_TRACE("carl.ran.realroots", "Add trivial root " << n);
 		assert(carl::is_root_of(mPolynomial, n));
-		mRoots.emplace_back(n);
+		if (mInterval.contains(n)) {
+			mRoots.emplace_back(n);
+		}
 	}
 
 	void add_trivial_root(const Interval<Number>& i) {
 		CARL_LOG_TRACE("carl.ran.realroots", "Add trivial root " << i);
-		mRoots.emplace_back(mPolynomial, i);
+		real_algebraic_number_interval<Number> root(mPolynomial, i);
+		if (root.contained_in(mInterval)) {
+			mRoots.emplace_back(root);
+		}
 	}
 
 	/// Use root bounds to shrink mInterval.
@@ -143,18 +148,26 @@ class RealRootIsolation {
 		mRoots.emplace_back(mPolynomial, i);
 	}
 
-	/// Check whether the interval bounds are roots.
+	/// Check whether the interval bounds are roots. Roots at strict bounds are removed from the polynomial, but not added.
 	bool check_interval_bounds() {
 		bool found_root = false;
-		if (mInterval.lowerBoundType() == BoundType::WEAK) {
+		if (mInterval.lowerBoundType() != BoundType::INFTY) {
 			if (carl::is_root_of(mPolynomial, mInterval.lower())) {
-				add_root(mInterval.lower());
+				if (mInterval.lowerBoundType() == BoundType::WEAK) {
+					add_root(mInterval.lower());
+				} else {
+					eliminate_root(mPolynomial, mInterval.lower());
+				}
 				found_root = true;
 			}
 		}
-		if (mInterval.upperBoundType() == BoundType::WEAK) {
+		if (mInterval.upperBoundType() != BoundType::INFTY) {
 			if (carl::is_root_of(mPolynomial, mInterval.upper())) {
-				add_root(mInterval.upper());
+				if (mInterval.upperBoundType() == BoundType::WEAK) {
+					add_root(mInterval.upper());
+				} else {
+					eliminate_root(mPolynomial, mInterval.upper());
+				}
 				found_root = true;
 			}
 		}
-- 
2.43.0


From ff139bd21ced73606783e3ad09d63120448586a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:23:06 +0000
Subject: [PATCH 32/84] fix: Keep Groebner basis computations consistent over
 zero, non-monic and repeated input

The zero polynomial was treated as a nonzero constant, polynomials with leading coefficient other than one violated the assertion of the S-polynomial, adding to the unit ideal dereferenced a null monomial, pairs left over after stopping early referred to generators that do not exist any more, and the divisor lookup of an ideal kept the old indices after removing generators.
---
 src/carl/core/MultivariatePolynomial.h         | 2 ++
 src/carl/groebner/Ideal.h                      | 2 +-
 src/carl/groebner/gb-buchberger/Buchberger.tpp | 8 +++++++-
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/carl/core/MultivariatePolynomial.h b/src/carl/core/MultivariatePolynomial.h
index 2889a55..4a8ed4b 100644
--- a/src/carl/core/MultivariatePolynomial.h
+++ b/src/carl/core/MultivariatePolynomial.h
@@ -573,6 +573,8 @@ public:
 
 	static bool compareByLeadingTerm(const MultivariatePolynomial& p1, const MultivariatePolynomial& p2)
 	{
+		// The zero polynomial has no leading term and comes first.
+		if (p1.mTerms.empty() || p2.mTerms.empty()) return p1.mTerms.size() < p2.mTerms.size();
 		return Ordering::less(p1.lterm(), p2.lterm());
 	}
 
diff --git a/src/carl/groebner/Ideal.h b/src/carl/groebner/Ideal.h
index 1ead321..8d96bad 100644
--- a/src/carl/groebner/Ideal.h
+++ b/src/carl/groebner/Ideal.h
@@ -139,7 +139,7 @@ public:
         }
         tempGen.swap(mGenerators);
         mEliminated.clear();
-
+        mDivisorLookup.reset();
     }
 	
 	void clear()
diff --git a/src/carl/groebner/gb-buchberger/Buchberger.tpp b/src/carl/groebner/gb-buchberger/Buchberger.tpp
index b7daad0..0e63cc4 100644
--- a/src/carl/groebner/gb-buchberger/Buchberger.tpp
+++ b/src/carl/groebner/gb-buchberger/Buchberger.tpp
@@ -40,6 +40,8 @@ template<class Polynomial, template<typename> class AddingPolicy>
 void Buchberger<Polynomial, AddingPolicy>::calculate(const std::list<Polynomial>& scheduledForAdding)
 {
 	CARL_LOG_INFO("carl.gb.buchberger", "Calculate gb");
+	// The unit ideal does not change any more.
+	if(pGb->isConstant()) return;
 	for(unsigned i = 0; i < pGb->getGenerators().size(); ++i)
 	{
 		mGbElementsIndices.push_back(i);
@@ -48,7 +50,9 @@ void Buchberger<Polynomial, AddingPolicy>::calculate(const std::list<Polynomial>
 	bool foundGB = false;
 	for(const Polynomial& newPol : scheduledForAdding)
 	{
-		if(addToGb(newPol))
+		// The zero polynomial is in every ideal.
+		if(isZero(newPol)) continue;
+		if(addToGb(newPol.normalize()))
 		{
 			CARL_LOG_INFO("carl.gb.buchberger", "Added a constant polynomial.");
 			foundGB = true;
@@ -99,6 +103,8 @@ void Buchberger<Polynomial, AddingPolicy>::calculate(const std::list<Polynomial>
 		}
 	}
 	mGbElementsIndices.clear();
+	// Pairs left over when stopping early refer to generators which do not exist any more.
+	pCritPairs.reset(new CritPairs());
 }
 
 
-- 
2.43.0


From 1d3a0e3143d1be80fcc0802350b07ba95fb8ae65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:23:06 +0000
Subject: [PATCH 33/84] fix: Record the least degree of a variable also for the
 information on a single variable

---
 src/carl/core/VariableInformation.h | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/carl/core/VariableInformation.h b/src/carl/core/VariableInformation.h
index 74fb553..c25109d 100644
--- a/src/carl/core/VariableInformation.h
+++ b/src/carl/core/VariableInformation.h
@@ -76,12 +76,12 @@ public:
 	}
 
 	/**
-		 * If degree is smaller than minDegree, we set the minDegree to degree.
+		 * If degree is smaller than minDegree (or no degree was set yet), we set the minDegree to degree.
          * @param degree
 		 * @return true if degree was smaller.
          */
 	bool lowerMinDegree(std::size_t degree) {
-		if (mMinDegree > degree) {
+		if (mMinDegree == 0 || mMinDegree > degree) {
 			mMinDegree = degree;
 			return true;
 		}
@@ -104,10 +104,8 @@ public:
 			// One more term in which the variable occurs.
 			increaseOccurence();
 			// Update minimal/maximal degree.
-			if (!raiseMaxDegree(e)) {
-				// Only if raising failed, lowering can be successful.
-				lowerMinDegree(e);
-			}
+			raiseMaxDegree(e);
+			lowerMinDegree(e);
 		}
 	}
 };
@@ -179,10 +177,8 @@ public:
 			// One more term in which the variable occurs.
 			this->increaseOccurence();
 			// Update minimal/maximal degree.
-			if (!this->raiseMaxDegree(e)) {
-				// Only if raising failed, lowering can be successful.
-				this->lowerMinDegree(e);
-			}
+			this->raiseMaxDegree(e);
+			this->lowerMinDegree(e);
 		}
 	}
 };
-- 
2.43.0


From ebb7375e978a6f3b7712bb6d3283e8409af0ede4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:38:48 +0000
Subject: [PATCH 34/84] fix: Keep the meaning of equivalences with constant
 operands and the conclusion of implications with true premises

---
 src/carl/formula/FormulaPool.tpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/carl/formula/FormulaPool.tpp b/src/carl/formula/FormulaPool.tpp
index 7dd3451..210ee7a 100644
--- a/src/carl/formula/FormulaPool.tpp
+++ b/src/carl/formula/FormulaPool.tpp
@@ -126,6 +126,8 @@ namespace carl
         }
         #endif
         if (_subformulas.empty()) {
+            // Keep the conclusion alive until the caller has registered it.
+            _subformulas.push_back(conclusion);
             return conclusion.mpContent;
         }
         Formula<Pol> premise(AND, std::move(_subformulas));
@@ -192,7 +194,6 @@ namespace carl
                 case FormulaType::IFF:
                     if( _subformulas[0].isTrue() )
                         return falseFormula();
-                    negateResult = true;
                     break;
                 case FormulaType::AND:
                     return falseFormula();
@@ -201,6 +202,14 @@ namespace carl
             }
             ++pos;   
         }
+        if( _type == FormulaType::IFF && pos > 0 )
+        {
+            // (= true a1 .. an) -> (and a1 .. an), (= false a1 .. an) -> (and (not a1) .. (not an))
+            Formulas<Pol> conjuncts;
+            for( ; pos < _subformulas.size(); ++pos )
+                conjuncts.push_back( _subformulas[0].isTrue() ? _subformulas[pos] : _subformulas[pos].negated() );
+            return createNAry( FormulaType::AND, std::move( conjuncts ) );
+        }
         for( ; pos < _subformulas.size(); )
         {
             if( pos < _subformulas.size() - 1 )
-- 
2.43.0


From aaa6fc4ce9e74481af96e3153c1a034f607cd49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:38:48 +0000
Subject: [PATCH 35/84] fix: Terminate the conversion to clauses when
 equivalences are not used for auxiliary variables

---
 src/carl/formula/helpers/to_cnf.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/carl/formula/helpers/to_cnf.h b/src/carl/formula/helpers/to_cnf.h
index 00eb4cb..96a8f9b 100644
--- a/src/carl/formula/helpers/to_cnf.h
+++ b/src/carl/formula/helpers/to_cnf.h
@@ -127,7 +127,10 @@ Formula<Poly> to_cnf_or(const Formula<Poly>& f, bool keep_constraints, bool simp
 				if (tseitin_equivalence) {
 					tseitin.emplace_back(Formula<Poly>(FormulaType::IFF, { tseitinVar, current }));
 				} else {
-					tseitin.emplace_back(Formula<Poly>(FormulaType::IMPLIES, { tseitinVar, current }));
+					// Split into one implication per subformula, as (=> t (and ..)) would be replaced by t again.
+					for (const auto& sub: current.subformulas()) {
+						tseitin.emplace_back(Formula<Poly>(FormulaType::OR, { !tseitinVar, sub }));
+					}
 				}
 				subformulas.emplace_back(tseitinVar);
 				break;
-- 
2.43.0


From 0daaeaf7f9706d747a622f136ee7f849b33c3e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:38:48 +0000
Subject: [PATCH 36/84] fix: Keep the meaning when merging bounds in
 disjunctions and negating quantified formulas

---
 src/carl/formula/Formula.tpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/carl/formula/Formula.tpp b/src/carl/formula/Formula.tpp
index 05d038d..7c6739f 100644
--- a/src/carl/formula/Formula.tpp
+++ b/src/carl/formula/Formula.tpp
@@ -441,11 +441,9 @@ namespace carl
                 newType = FormulaType::AND;
                 break;
             case FormulaType::EXISTS: // (not (exists (vars) phi)) -> (forall (vars) (not phi))
-                newType = FormulaType::FORALL;
-                break;
+                return Formula<Pol>( FormulaType::FORALL, subformula().quantifiedVariables(), Formula<Pol>( NOT, subformula().quantifiedFormula() ) );
             case FormulaType::FORALL: // (not (forall (vars) phi)) -> (exists (vars) (not phi))
-                newType = FormulaType::EXISTS;
-                break;
+                return Formula<Pol>( FormulaType::EXISTS, subformula().quantifiedVariables(), Formula<Pol>( NOT, subformula().quantifiedFormula() ) );
             default:
                 assert( false );
                 std::cerr << "Unexpected type of formula!" << std::endl;
@@ -694,7 +692,7 @@ namespace carl
                         case Relation::GREATER:
                             resB.first->second.first = Relation::GEQ;
                             resB.first->second.second = _constraint;
-                            return Formula( FormulaType::FALSE );
+                            return resB.first->second.second;
                         default:
                             assert( resB.first->second.first == Relation::NEQ );
                             return Formula( FormulaType::FALSE );
@@ -824,9 +822,13 @@ namespace carl
                         case Relation::GEQ:
                             return Formula( FormulaType::FALSE );
                         case Relation::LESS:
+                            resB.first->second.first = Relation::NEQ;
+                            resB.first->second.second = _constraint;
                             return resB.first->second.second;
                         default:
                             assert( resB.first->second.first == Relation::GREATER );
+                            resB.first->second.first = Relation::NEQ;
+                            resB.first->second.second = _constraint;
                             return resB.first->second.second;
                     }
                 }
-- 
2.43.0


From 75167592daf99f42459ffd3d954c57e04cfe6018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:38:48 +0000
Subject: [PATCH 37/84] fix: Allow iterating over the operands of implications
 and if-then-else

---
 src/carl/formula/Formula.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/carl/formula/Formula.h b/src/carl/formula/Formula.h
index d34b035..63cd89d 100644
--- a/src/carl/formula/Formula.h
+++ b/src/carl/formula/Formula.h
@@ -513,8 +513,7 @@ namespace carl
              */
             const_iterator end() const
             {
-                assert( mpContent->mType == FormulaType::AND || mpContent->mType == FormulaType::OR
-                        || mpContent->mType == FormulaType::IFF || mpContent->mType == FormulaType::XOR );
+                assert( isNary() );
                 return std::get<Formulas<Pol>>(mpContent->mContent).end();
             }
 
-- 
2.43.0


From da388fbb1d6179dd2aa755b216835afc010eb110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:38:48 +0000
Subject: [PATCH 38/84] fix: Let combinations inherit that a weak inequality is
 contained

---
 src/carl/formula/Condition.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/formula/Condition.h b/src/carl/formula/Condition.h
index 6388226..46cbf77 100644
--- a/src/carl/formula/Condition.h
+++ b/src/carl/formula/Condition.h
@@ -77,7 +77,7 @@ namespace carl {
     static constexpr Condition PROP_VARIABLE_DEGREE_GREATER_THAN_FOUR = Condition( 30 );
     static constexpr Condition PROP_CONTAINS_WEAK_INEQUALITY       = Condition( 31 );
     static const Condition WEAK_CONDITIONS                       = PROP_CONTAINS_EQUATION | PROP_CONTAINS_INEQUALITY | PROP_CONTAINS_STRICT_INEQUALITY
-                                             | PROP_CONTAINS_LINEAR_POLYNOMIAL | PROP_CONTAINS_LINEAR_POLYNOMIAL | PROP_CONTAINS_NONLINEAR_POLYNOMIAL
+                                             | PROP_CONTAINS_WEAK_INEQUALITY | PROP_CONTAINS_LINEAR_POLYNOMIAL | PROP_CONTAINS_NONLINEAR_POLYNOMIAL
                                              | PROP_CONTAINS_MULTIVARIATE_POLYNOMIAL | PROP_CONTAINS_INEQUALITY | PROP_CONTAINS_BOOLEAN
                                              | PROP_CONTAINS_REAL_VALUED_VARS | PROP_CONTAINS_INTEGER_VALUED_VARS
                                              | PROP_CONTAINS_UNINTERPRETED_EQUATIONS | PROP_CONTAINS_BITVECTOR | PROP_CONTAINS_PSEUDOBOOLEAN
-- 
2.43.0


From 931cad74dee40a46589705c7060bf24874cd4e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:56:25 +0000
Subject: [PATCH 39/84] fix: Follow SMT-LIB for signed remainder, modulus and
 division by zero of bit-vectors

The remainder of two negative values and the modulus of a positive value by
a negative one were wrong. Division of zero or a positive constant by zero
now gives -1.
---
 src/carl/formula/bitvector/BVTermPool.cpp | 9 +++------
 src/carl/formula/bitvector/BVValue.cpp    | 4 ++--
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/carl/formula/bitvector/BVTermPool.cpp b/src/carl/formula/bitvector/BVTermPool.cpp
index 3f52409..a7dbdf5 100644
--- a/src/carl/formula/bitvector/BVTermPool.cpp
+++ b/src/carl/formula/bitvector/BVTermPool.cpp
@@ -70,15 +70,12 @@ namespace carl
 					return create(BVTermType::CONSTANT, ~BVValue(_first.width(), 0));
 				case BVTermType::DIV_S:
 					if (_first.isConstant()) {
-						if (_first.value().isZero()) {
-							// Zero -> 1
-							return create(BVTermType::CONSTANT, BVValue(_first.width(), 1));
-						} else if (_first.value()[_first.width()-1]) {
+						if (_first.value()[_first.width()-1]) {
 							// Negative -> 1
 							return create(BVTermType::CONSTANT, BVValue(_first.width(), 1));
 						} else {
-							// Positive -> _first
-							return _first.mpContent;
+							// Zero or positive -> -1
+							return create(BVTermType::CONSTANT, ~BVValue(_first.width(), 0));
 						}
 					}
 					break;
diff --git a/src/carl/formula/bitvector/BVValue.cpp b/src/carl/formula/bitvector/BVValue.cpp
index 4218f1e..48873cd 100644
--- a/src/carl/formula/bitvector/BVValue.cpp
+++ b/src/carl/formula/bitvector/BVValue.cpp
@@ -83,7 +83,7 @@ BVValue BVValue::remSigned(const BVValue& _other) const {
 	} else if (!firstNegative && secondNegative) {
 		return (*this) % -_other;
 	} else {
-		return -((*this) % -_other);
+		return -(-(*this) % -_other);
 	}
 }
 
@@ -105,7 +105,7 @@ BVValue BVValue::modSigned(const BVValue& _other) const {
 	} else if (firstNegative && !secondNegative) {
 		return -u + _other;
 	} else if (!firstNegative && secondNegative) {
-		return (*this) + _other;
+		return u + _other;
 	} else {
 		return -u;
 	}
-- 
2.43.0


From 30044aa87a7e8175404917b5548789c971fc532d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:56:25 +0000
Subject: [PATCH 40/84] fix: Do not move out of variables a model value is made
 from

A model value made from a non-const variable moved the contents out of it.
---
 src/carl-model/ModelValue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl-model/ModelValue.h b/src/carl-model/ModelValue.h
index 34106b6..b459b8d 100644
--- a/src/carl-model/ModelValue.h
+++ b/src/carl-model/ModelValue.h
@@ -96,7 +96,7 @@ namespace carl
 		ModelValue(const T& _t): mData(_t) {}
 
 		template<typename T, typename T2 = typename std::enable_if<convertible_to_variant<T, Super>::value, T>::type>
-		ModelValue(T&& _t): mData(std::move(_t)) {}
+		ModelValue(T&& _t): mData(std::forward<T>(_t)) {}
 		
 		template<typename ...Args>
 		ModelValue(const std::variant<Args...>& variant): mData(clone(variant)) {}
-- 
2.43.0


From 63477ff0b5c424fefb521396b449d0a1c82844b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:56:25 +0000
Subject: [PATCH 41/84] fix: Forget cached values when a model is assigned,
 updated or erased

Substitutions kept the value they had before the change.
---
 src/carl-model/Model.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/carl-model/Model.h b/src/carl-model/Model.h
index fc5f130..e2e0ae9 100644
--- a/src/carl-model/Model.h
+++ b/src/carl-model/Model.h
@@ -87,6 +87,7 @@ namespace carl
 		}
 		typename Map::iterator erase(const typename Map::const_iterator& it) {
 			if (it == mData.end()) return mData.end();
+			resetCaches();
 			return mData.erase(it);
 		}
         void clean() {
@@ -122,11 +123,13 @@ namespace carl
 		}
 		template<typename T>
 		void assign(const typename Map::key_type& key, const T& t) {
+			resetCaches();
 			auto it = mData.find(key);
 			if (it == mData.end()) mData.emplace(key, t);
 			else it->second = t;
 		}
 		void update(const Model& model, bool disjoint = true) {
+			resetCaches();
 			for (const auto& m: model) {
 				auto res = mData.insert(m);
 				if (disjoint) {
-- 
2.43.0


From e25fdcba493fea2214a325828020621129781218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:56:25 +0000
Subject: [PATCH 42/84] fix: Correct isPartOf, default models of constants and
 rational assignments

isPartOf advanced the wrong iterator. The default model of true or false
failed an assertion. The rational assignments were reported as complete
although an irrational value had been left out.
---
 src/carl-model/Assignment.tpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/carl-model/Assignment.tpp b/src/carl-model/Assignment.tpp
index 44f219c..ab73232 100644
--- a/src/carl-model/Assignment.tpp
+++ b/src/carl-model/Assignment.tpp
@@ -41,6 +41,10 @@ namespace carl
                     assert( ass->first.isVariable() );
                     _rationalAssigns.insert( _rationalAssigns.end(), std::make_pair(ass->first.asVariable(), ass->second.asRAN().value()) );
                 }
+                else
+                {
+                    result = false;
+                }
             }
         }
         return result;
@@ -73,7 +77,7 @@ namespace carl
         {
             if( modIter->first < assIter->first )
             {
-                ++assIter;
+                ++modIter;
             }
             else if( assIter->first < modIter->first )
             {
@@ -375,6 +379,7 @@ namespace carl
         {
             case carl::FormulaType::TRUE:
             case carl::FormulaType::FALSE:
+                return;
             case carl::FormulaType::BOOL:
             {
                 auto ass = _defaultModel.find( _formula.boolean() );
-- 
2.43.0


From e7f251c96c809c93c88e7a51997a84b44150d0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:56:25 +0000
Subject: [PATCH 43/84] fix: Evaluate variable assignments under equal rational
 values

An assignment of an algebraic number was false under the equal rational
value. A comparison was read after it had been overwritten. Variables whose
value is not resolved are left as they are.
---
 .../evaluation/ModelEvaluation_Formula.h          | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/carl-model/evaluation/ModelEvaluation_Formula.h b/src/carl-model/evaluation/ModelEvaluation_Formula.h
index 3b52edf..9fa11f0 100644
--- a/src/carl-model/evaluation/ModelEvaluation_Formula.h
+++ b/src/carl-model/evaluation/ModelEvaluation_Formula.h
@@ -27,7 +27,7 @@ namespace model {
 	void evaluateVarCompare(Formula<Poly>& f, const Model<Rational,Poly>& m) {
 		CARL_LOG_DEBUG("carl.model.evaluation", "Evaluating " << f << " on " << m);
 		assert(f.getType() == FormulaType::VARCOMPARE);
-		const auto& vc = f.variableComparison();
+		const auto vc = f.variableComparison(); // f is overwritten below
 		
 		ModelValue<Rational,Poly> cmp = vc.value();
 		if (cmp.isSubstitution()) {
@@ -58,7 +58,7 @@ namespace model {
 			return;
 		}
 		const auto& value = m.evaluated(vc.var());
-		assert(value.isRational() || value.isRAN());
+		if (!value.isRational() && !value.isRAN()) return;
 		RealAlgebraicNumber<Rational> reference = value.isRational() ? RealAlgebraicNumber<Rational>(value.asRational()) : value.asRAN();
 		CARL_LOG_DEBUG("carl.model.evaluation", "Reference value: " << vc.var() << " == " << reference);
 		
@@ -97,13 +97,10 @@ namespace model {
 		auto it = m.find(va.var());
 		if (it == m.end()) return;
 		const auto& value = m.evaluated(va.var());
-		const ModelValue<Rational,Poly>& vavalue = va.value();
-		if (value == vavalue) {
-			f = Formula<Poly>(FormulaType::TRUE);
-		} else {
-			f = Formula<Poly>(FormulaType::FALSE);
-		}
-		if (va.negated()) f = f.negated();
+		if (!value.isRational() && !value.isRAN()) return;
+		RealAlgebraicNumber<Rational> reference = value.isRational() ? RealAlgebraicNumber<Rational>(value.asRational()) : value.asRAN();
+		bool satisfied = (reference == va.value()) != va.negated();
+		f = Formula<Poly>(satisfied ? FormulaType::TRUE : FormulaType::FALSE);
 	}
 	
 	/**
-- 
2.43.0


From 254a56dd69001b5a942d2724a87d29a36c13ce86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:22:56 +0000
Subject: [PATCH 44/84] fix: Compute the values of square root expressions
 correctly

Sums, differences and products lost the root of the second operand, and
quotients divided by zero. The root of a square was replaced by its base even
where that is negative. Rational values ignored the denominator. Evaluation
rounded in the wrong direction for negative denominators and failed an
assertion if the factor of the root vanishes.
---
 src/carl/vs/SqrtEx.h   |  4 +---
 src/carl/vs/SqrtEx.tpp | 26 +++++++++++++++++++-------
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/carl/vs/SqrtEx.h b/src/carl/vs/SqrtEx.h
index 335c45e..fa7b951 100644
--- a/src/carl/vs/SqrtEx.h
+++ b/src/carl/vs/SqrtEx.h
@@ -159,10 +159,8 @@ namespace carl
              */
             Rational asRational() const
             {
-                if( isConstant() )
-                    return asConstant();
                 assert( isRational() );
-                return mConstantPart.constantPart()/mFactor.constantPart();
+                return mConstantPart.constantPart()/mDenominator.constantPart();
             }
             
         private:
diff --git a/src/carl/vs/SqrtEx.tpp b/src/carl/vs/SqrtEx.tpp
index 8900383..9b7b5c9 100644
--- a/src/carl/vs/SqrtEx.tpp
+++ b/src/carl/vs/SqrtEx.tpp
@@ -52,7 +52,8 @@ namespace carl
         else 
         {
             Poly sqrtOfRadicand;
-            if( mRadicand.sqrt( sqrtOfRadicand ) )
+            // The root of a square is its absolute value, hence it can only be extracted if it cannot be negative.
+            if( mRadicand.sqrt( sqrtOfRadicand ) && carl::definiteness( sqrtOfRadicand ) >= carl::Definiteness::POSITIVE_SEMI )
             {
                 mConstantPart += mFactor * sqrtOfRadicand;
                 mFactor = constant_zero<Poly>::get();
@@ -89,7 +90,11 @@ namespace carl
                 }
             }
         }
-        if( isZero(gcdA) ) return;
+        if( isZero(gcdA) )
+        {
+            mDenominator = constant_one<Poly>::get();
+            return; // Sqrt expression corresponds to 0.
+        }
         Rational ccGcdA = gcdA.coprimeFactor();
         Poly cpGcdA = gcdA * ccGcdA;
         Rational ccDenominator = mDenominator.coprimeFactor();
@@ -192,7 +197,7 @@ namespace carl
         assert( !hasSqrt() ||!rhs.hasSqrt() || radicand() == rhs.radicand() );
         SqrtEx<Poly> result = SqrtEx<Poly>( rhs.denominator() * constantPart() + rhs.constantPart() * denominator(),
                          rhs.denominator() * factor() + rhs.factor() * denominator(),
-                         denominator() * rhs.denominator(), radicand() );
+                         denominator() * rhs.denominator(), hasSqrt() ? radicand() : rhs.radicand() );
         return result;
     }
 
@@ -202,7 +207,7 @@ namespace carl
         assert( !hasSqrt() || !rhs.hasSqrt() || radicand() == rhs.radicand() );
         SqrtEx<Poly> result = SqrtEx<Poly>( rhs.denominator() * constantPart() - rhs.constantPart() * denominator(),
                          rhs.denominator() * factor() - rhs.factor() * denominator(),
-                         denominator() * rhs.denominator(), radicand() );
+                         denominator() * rhs.denominator(), hasSqrt() ? radicand() : rhs.radicand() );
         return result;
     }
 
@@ -212,7 +217,7 @@ namespace carl
         assert( !hasSqrt() || !rhs.hasSqrt() || radicand() == rhs.radicand() );
         SqrtEx<Poly> result = SqrtEx<Poly>( rhs.constantPart() * constantPart() + rhs.factor() * factor() * radicand(),
                          rhs.constantPart() * factor() + rhs.factor() * constantPart(),
-                         denominator() * rhs.denominator(), radicand() );
+                         denominator() * rhs.denominator(), hasSqrt() ? radicand() : rhs.radicand() );
         return result;
     }
 
@@ -221,7 +226,7 @@ namespace carl
     {
         assert( !rhs.hasSqrt() );
         SqrtEx<Poly> result = SqrtEx<Poly>( constantPart() * rhs.denominator(), factor() * rhs.denominator(),
-                         denominator() * rhs.factor(), radicand() );
+                         denominator() * rhs.constantPart(), radicand() );
         return result;
     }
     
@@ -306,10 +311,17 @@ namespace carl
         assert( denomEvaluated.isConstant() );
         Rational denomValue = denomEvaluated.constantPart();
         assert( !carl::isZero( denomValue ) );
+        if( denomValue < 0 )
+        {
+            // The direction of the rounding below relies on a positive denominator.
+            constantPartValue = -constantPartValue;
+            factorValue = -factorValue;
+            denomValue = -denomValue;
+        }
         // Check whether the resulting assignment is integer.
         bool rounded = true;
         Rational sqrtExValue;
-        if( !carl::sqrt_exact( radicandValue, sqrtExValue ) )
+        if( !carl::isZero( factorValue ) && !carl::sqrt_exact( radicandValue, sqrtExValue ) )
         {
             assert( _rounding != 0 );
             rounded = false;
-- 
2.43.0


From af67b92fab6edf24e7fc5289fab67b24b054ab74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:22:56 +0000
Subject: [PATCH 45/84] fix: Pick the right root of a quadratic polynomial with
 negative leading coefficient

The zero of a comparison with an algebraic number was its conjugate.
---
 src/carl/vs/zeros.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/carl/vs/zeros.h b/src/carl/vs/zeros.h
index 452a2da..0e884cf 100644
--- a/src/carl/vs/zeros.h
+++ b/src/carl/vs/zeros.h
@@ -195,12 +195,13 @@ bool gather_zeros(const VariableComparison<Poly>& varcomp, const Variable& elimi
 					assert(Constraint<Poly>(radicand, carl::Relation::GEQ) == Constraint<Poly>(true));
 					assert(Constraint<Poly>(coeffs.rbegin()->second, carl::Relation::NEQ) == Constraint<Poly>(true));
 
-					if (idx == 0) {
+					// the smaller root is the one with the negative square root only if the leading coefficient is positive
+					if ((idx == 0) == (coeffs.rbegin()->second.lcoeff() > 0)) {
 						// Create[x -> (-b-sqrt(b^2-4ac))/2a]
 						SqrtEx<Poly> sqExA(-linearCoeff, Poly(-1), Rational(2) * coeffs.rbegin()->second, radicand);
 						results.push_back({std::move(sqExA), {}});
 					} else {
-						assert(idx == 1);
+						assert(idx <= 1);
 						// Create [x -> (-b+sqrt(b^2-4ac))/2a]
 						SqrtEx<Poly> sqExB(-linearCoeff, Poly(1), Rational(2) * coeffs.rbegin()->second, radicand);
 						results.push_back({std::move(sqExB), {}});
-- 
2.43.0


From 48b8043e0f78235c8628b3b5a8db850275b7dc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:22:56 +0000
Subject: [PATCH 46/84] fix: Substitute plus infinity and compact disequalities
 correctly

For plus infinity the sign of even powers was turned around. The compact form
of a disequality combined its two cases with and.
---
 src/carl/vs/substitute.tpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/carl/vs/substitute.tpp b/src/carl/vs/substitute.tpp
index 8aa64eb..8bbbb75 100644
--- a/src/carl/vs/substitute.tpp
+++ b/src/carl/vs/substitute.tpp
@@ -835,9 +835,11 @@ namespace carl::vs::detail
         if( _accordingPaper )
         {
             Poly qr = _q * _r;
-            // Add conjunction (q*r>0 and q^2-r^2*radicand!=0) to the substitution result.
+            // Add conjunction (q*r>0) to the substitution result.
             _result.emplace_back();
             _result.back().push_back( Constraint<Poly>( qr, Relation::GREATER ) );
+            // Add conjunction (q^2-r^2*radicand!=0) to the substitution result.
+            _result.emplace_back();
             _result.back().push_back( Constraint<Poly>( lhs, Relation::NEQ ) );
         }
         else
@@ -1142,10 +1144,9 @@ namespace carl::vs::detail
         {
             assert( _subs.term().is_plus_infty() );
             if( _cons.relation() == Relation::LESS || _cons.relation() == Relation::LEQ )
-            {
                 oddRelationType  = Relation::LESS;
+            else
                 evenRelationType = Relation::GREATER;
-            }
         }
         // Check all cases according to the substitution rules.
         carl::uint varDegree = _cons.maxDegree( _subs.variable() );
-- 
2.43.0


From 0c4d21baffdcac831b50551bc0f728b675396bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:41:24 +0000
Subject: [PATCH 47/84] fix: Respect the default value in bit set operations

---
 src/carl/util/Bitset.h | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/carl/util/Bitset.h b/src/carl/util/Bitset.h
index 8ea0fac..80362d9 100644
--- a/src/carl/util/Bitset.h
+++ b/src/carl/util/Bitset.h
@@ -92,7 +92,7 @@ namespace carl {
 		/// Resize mData to hold at least pos bits.
 		void ensureSize(std::size_t pos) {
 			if (pos >= mData.size()) {
-				mData.resize(pos+1);
+				mData.resize(pos+1, mDefault);
 			}
 		}
 	public:
@@ -121,18 +121,21 @@ namespace carl {
 			assert(mDefault == rhs.mDefault);
 			alignSize(*this, rhs);
 			mData -= rhs.mData;
+			mDefault = mDefault && !rhs.mDefault;
 			return *this;
 		}
 		/// Computes the bitwise and with rhs.
 		Bitset& operator&=(const Bitset& rhs) {
 			alignSize(*this, rhs);
 			mData &= rhs.mData;
+			mDefault = mDefault && rhs.mDefault;
 			return *this;
 		}
 		/// Computes the bitwise or with rhs.
 		Bitset& operator|=(const Bitset& rhs) {
 			alignSize(*this, rhs);
 			mData |= rhs.mData;
+			mDefault = mDefault || rhs.mDefault;
 			return *this;
 		}
 		
@@ -229,12 +232,10 @@ namespace carl {
 		}
 		/// Compares lhs and rhs according to some order.
 		friend bool operator<(const Bitset& lhs, const Bitset& rhs) {
-			if (lhs.size() < rhs.size()) {
-				return true;
-			}
-			if (lhs.size() > rhs.size()) {
-				return false;
+			if (lhs.mDefault != rhs.mDefault) {
+				return rhs.mDefault;
 			}
+			alignSize(lhs, rhs);
 			return lhs.mData < rhs.mData;
 		}
 		
@@ -265,7 +266,12 @@ namespace std {
 template<>
 struct hash<carl::Bitset> {
 	std::size_t operator()(const carl::Bitset& bs) const {
-		return std::hash<carl::Bitset::BaseType>()(bs.mData);
+		// Trailing bits that have the default value do not matter for equality.
+		auto data = bs.mData;
+		while (!data.empty() && data.test(data.size() - 1) == bs.mDefault) {
+			data.pop_back();
+		}
+		return std::hash<carl::Bitset::BaseType>()(data);
 	}
 };
 
-- 
2.43.0


From af2e8a98094ad5eb422419ab3fc6c31cb029c85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:41:24 +0000
Subject: [PATCH 48/84] fix: Terminate the subset test of bit vectors

---
 src/carl/util/BitVector.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/carl/util/BitVector.cpp b/src/carl/util/BitVector.cpp
index 4c1e8cf..038107c 100644
--- a/src/carl/util/BitVector.cpp
+++ b/src/carl/util/BitVector.cpp
@@ -71,6 +71,7 @@ bool BitVector::subsetOf( const BitVector& superset)
     while( sub != mBits.end())
     {
         if( *sub != 0) return false;
+        ++sub;
     }
     return true;
 }
-- 
2.43.0


From a9a5383e9077a629e2ab35619474527a605a4da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:41:24 +0000
Subject: [PATCH 49/84] fix: Keep all sets added for one element of a covering

---
 src/carl/util/Covering.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/util/Covering.h b/src/carl/util/Covering.h
index 4c41e23..c4923da 100644
--- a/src/carl/util/Covering.h
+++ b/src/carl/util/Covering.h
@@ -14,7 +14,7 @@ public:
 		mOkay.resize(intervals, true);
 	}
 	void add(const T& t, const carl::Bitset& b) {
-		mData.emplace(t, b);
+		mData[t] |= b;
 		mOkay -= b;
 	}
 	bool conflicts() const {
-- 
2.43.0


From 9b8e1154631320877d466bc59c9fa16a7d5231d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:41:24 +0000
Subject: [PATCH 50/84] fix: Allow the trivial cover of no sets

---
 src/carl-covering/heuristics/trivial.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/carl-covering/heuristics/trivial.cpp b/src/carl-covering/heuristics/trivial.cpp
index daa27cd..fd91cfc 100644
--- a/src/carl-covering/heuristics/trivial.cpp
+++ b/src/carl-covering/heuristics/trivial.cpp
@@ -7,7 +7,9 @@ namespace carl::covering::heuristic {
 /// Trivial heuristic: select all sets.
 Bitset trivial(SetCover& sc) {
 	Bitset result;
-	result.set_interval(0, sc.set_count() - 1);
+	if (sc.set_count() > 0) {
+		result.set_interval(0, sc.set_count() - 1);
+	}
 	return result;
 }
 
-- 
2.43.0


From 8bac81d659c312bc9fc1c72072e5d4e2dcaa307e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:41:24 +0000
Subject: [PATCH 51/84] fix: Iterate and erase correctly in trees

---
 src/carl/util/carlTree.h | 46 +++++++++++++++++++++++++++++-----------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/src/carl/util/carlTree.h b/src/carl/util/carlTree.h
index dd16e4b..26607dd 100644
--- a/src/carl/util/carlTree.h
+++ b/src/carl/util/carlTree.h
@@ -131,11 +131,15 @@ typename std::enable_if<reverse,I>::type& operator++(BaseIterator<T,I,reverse>&
 }
 template<typename T, typename I, bool reverse>
 typename std::enable_if<!reverse,I>::type operator++(BaseIterator<T,I,reverse>& it, int) {
-	return static_cast<I*>(&it)->next();
+	I res(static_cast<I&>(it));
+	static_cast<I&>(it).next();
+	return res;
 }
 template<typename T, typename I, bool reverse>
 typename std::enable_if<reverse,I>::type operator++(BaseIterator<T,I,reverse>& it, int) {
-	return static_cast<I*>(&it)->previous();
+	I res(static_cast<I&>(it));
+	static_cast<I&>(it).previous();
+	return res;
 }
 template<typename T, typename I, bool reverse>
 typename std::enable_if<!reverse,I>::type& operator--(BaseIterator<T,I,reverse>& it) {
@@ -147,11 +151,15 @@ typename std::enable_if<reverse,I>::type& operator--(BaseIterator<T,I,reverse>&
 }
 template<typename T, typename I, bool reverse>
 typename std::enable_if<!reverse,I>::type operator--(BaseIterator<T,I,reverse>& it, int) {
-	return static_cast<I*>(&it)->previous();
+	I res(static_cast<I&>(it));
+	static_cast<I&>(it).previous();
+	return res;
 }
 template<typename T, typename I, bool reverse>
 typename std::enable_if<reverse,I>::type operator--(BaseIterator<T,I,reverse>& it, int) {
-	return static_cast<I*>(&it)->next();
+	I res(static_cast<I&>(it));
+	static_cast<I&>(it).next();
+	return res;
 }
 
 
@@ -393,7 +401,7 @@ struct DepthIterator:
 				this->current = this->curnode().parent;
 				if (this->current == MAXINT) return *this;
 			}
-			PreorderIterator<T,reverse> it(this->mTree, this->curnode().nextSibling);
+			PreorderIterator<T,false> it(this->mTree, this->curnode().nextSibling);
 			for (; it.current != MAXINT; ++it) {
 				if (it.depth() == target) break;
 			}
@@ -412,7 +420,7 @@ struct DepthIterator:
 				this->current = this->curnode().parent;
 				if (this->current == MAXINT) return *this;
 			}
-			PostorderIterator<T,reverse> it(this->mTree, this->curnode().previousSibling);
+			PostorderIterator<T,true> it(this->mTree, this->curnode().previousSibling);
 			for (; it.current != MAXINT; ++it) {
 				if (it.depth() == target) break;
 			}
@@ -599,20 +607,21 @@ public:
 	iterator end() const {
 		return end_preorder();
 	}
-	iterator rbegin() const {
+	PreorderIterator<true> rbegin() const {
 		return rbegin_preorder();
 	}
-	iterator rend() const {
+	PreorderIterator<true> rend() const {
 		return rend_preorder();
 	}
 
 	PreorderIterator<false> begin_preorder() const {
-		return PreorderIterator<false>(this, 0);
+		return PreorderIterator<false>(this, nodes.empty() ? MAXINT : 0);
 	}
 	PreorderIterator<false> end_preorder() const {
 		return PreorderIterator<false>(this);
 	}
 	PreorderIterator<true> rbegin_preorder() const {
+		if (nodes.empty()) return rend_preorder();
 		std::size_t cur = 0;
 		while (nodes[cur].lastChild != MAXINT) cur = nodes[cur].lastChild;
 		return PreorderIterator<true>(this, cur);
@@ -621,6 +630,7 @@ public:
 		return PreorderIterator<true>(this);
 	}
 	PostorderIterator<false> begin_postorder() const {
+		if (nodes.empty()) return end_postorder();
 		std::size_t cur = 0;
 		while (nodes[cur].firstChild != MAXINT) cur = nodes[cur].firstChild;
 		return PostorderIterator<false>(this, cur);
@@ -629,12 +639,13 @@ public:
 		return PostorderIterator<false>(this);
 	}
 	PostorderIterator<true> rbegin_postorder() const {
-		return PostorderIterator<true>(this, 0);
+		return PostorderIterator<true>(this, nodes.empty() ? MAXINT : 0);
 	}
 	PostorderIterator<true> rend_postorder() const {
 		return PostorderIterator<true>(this);
 	}
 	LeafIterator<false> begin_leaf() const {
+		if (nodes.empty()) return end_leaf();
 		std::size_t cur = 0;
 		while (nodes[cur].firstChild != MAXINT) cur = nodes[cur].firstChild;
 		return LeafIterator<false>(this, cur);
@@ -643,6 +654,7 @@ public:
 		return LeafIterator<false>(this);
 	}
 	LeafIterator<true> rbegin_leaf() const {
+		if (nodes.empty()) return rend_leaf();
 		std::size_t cur = 0;
 		while (nodes[cur].lastChild != MAXINT) cur = nodes[cur].lastChild;
 		return LeafIterator<true>(this, cur);
@@ -874,10 +886,12 @@ public:
 		std::size_t id = position.current;
 		if (id == 0) {
 			clear();
-			++position;
+			position.current = MAXINT;
 			return position;
 		}
-		++position;
+		do {
+			++position;
+		} while (isBelow(position.current, id));
 		if (nodes[id].nextSibling != MAXINT) {
 			nodes[nodes[id].nextSibling].previousSibling = nodes[id].previousSibling;
 		} else {
@@ -901,6 +915,14 @@ public:
 		eraseChildren(position.current);
 	}
 private:
+	/// Checks whether the given node is a (transitive) child of the given ancestor.
+	bool isBelow(std::size_t id, std::size_t ancestor) const {
+		while (id != MAXINT) {
+			id = nodes[id].parent;
+			if (id == ancestor) return true;
+		}
+		return false;
+	}
 	std::size_t newNode(T&& data, std::size_t parent, std::size_t depth) {
 		std::size_t newID = 0;
 		if (emptyNodes == MAXINT) {
-- 
2.43.0


From f8bf1bb573788d0d670d24d918cbab076d1dcb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:41:24 +0000
Subject: [PATCH 52/84] fix: Do not duplicate references when updating a cached
 element

---
 src/carl/util/Cache.tpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/carl/util/Cache.tpp b/src/carl/util/Cache.tpp
index 939c03f..e5f0f5d 100644
--- a/src/carl/util/Cache.tpp
+++ b/src/carl/util/Cache.tpp
@@ -73,7 +73,6 @@ namespace carl
                 Info& info = (*retB.first)->second;
                 assert( info.refStoragePositions.size() > 0);
                 assert( info.refStoragePositions.front() > 0 );
-                info.refStoragePositions.insert( info.refStoragePositions.end(), element->second.refStoragePositions.begin(), element->second.refStoragePositions.end() );
                 return std::make_pair( info.refStoragePositions.front(), false );
             }
             else
-- 
2.43.0


From 8f79df0dd2cbbbcaf5484c830ef45d27b8fc1cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:58:59 +0000
Subject: [PATCH 53/84] fix: Rational functions: sign of constant minus
 polynomial, operations with itself

---
 src/carl-extpolys/RationalFunction.tpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/carl-extpolys/RationalFunction.tpp b/src/carl-extpolys/RationalFunction.tpp
index 1a407d5..911aa68 100644
--- a/src/carl-extpolys/RationalFunction.tpp
+++ b/src/carl-extpolys/RationalFunction.tpp
@@ -74,6 +74,9 @@ void RationalFunction<Pol, AS>::eliminateCommonFactor(bool _justNormalize) {
 template<typename Pol, bool AS>
 template<bool byInverse>
 RationalFunction<Pol, AS>& RationalFunction<Pol, AS>::add(const RationalFunction<Pol, AS>& rhs) {
+	if (this == &rhs) {
+		return this->template add<byInverse>(RationalFunction<Pol, AS>(rhs));
+	}
 	if (this->isConstant() && rhs.isConstant()) {
 		if (byInverse)
 			this->mNumberQuotient -= rhs.mNumberQuotient;
@@ -137,7 +140,7 @@ template<bool byInverse>
 RationalFunction<Pol, AS>& RationalFunction<Pol, AS>::add(const Pol& rhs) {
 	if (this->isConstant()) {
 		CoeffType c = this->mNumberQuotient;
-		Pol resultNum(std::move(byInverse ? (rhs * CoeffType(getDenom(c)) - CoeffType(getNum(c))) : (rhs * CoeffType(getDenom(c)) + CoeffType(getNum(c)))));
+		Pol resultNum(std::move(byInverse ? (rhs * CoeffType(-getDenom(c)) + CoeffType(getNum(c))) : (rhs * CoeffType(getDenom(c)) + CoeffType(getNum(c)))));
 		*this = std::move(RationalFunction<Pol, AS>(std::move(resultNum), std::move(Pol(CoeffType(getDenom(c))))));
 		return *this;
 	}
@@ -158,9 +161,8 @@ RationalFunction<Pol, AS>& RationalFunction<Pol, AS>::add(Variable rhs) {
 		Pol resultNum(rhs);
 		resultNum *= CoeffType(getDenom(c));
 		if (byInverse)
-			resultNum -= CoeffType(getNum(c));
-		else
-			resultNum += CoeffType(getNum(c));
+			resultNum *= CoeffType(-1);
+		resultNum += CoeffType(getNum(c));
 		*this = std::move(RationalFunction<Pol, AS>(std::move(resultNum), std::move(Pol(CoeffType(getDenom(c))))));
 		return *this;
 	}
@@ -262,6 +264,9 @@ RationalFunction<Pol, AS>& RationalFunction<Pol, AS>::operator*=(carl::sint rhs)
 
 template<typename Pol, bool AS>
 RationalFunction<Pol, AS>& RationalFunction<Pol, AS>::operator/=(const RationalFunction<Pol, AS>& rhs) {
+	if (this == &rhs) {
+		return *this /= RationalFunction<Pol, AS>(rhs);
+	}
 	if (this->isConstant() && rhs.isConstant()) {
 		this->mNumberQuotient /= rhs.mNumberQuotient;
 		return *this;
-- 
2.43.0


From ead012884a9a7c9862f2d87caaa61e092656109a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:58:59 +0000
Subject: [PATCH 54/84] fix: Factorized polynomials: compare coefficients,
 divide when factors are not known

---
 src/carl-extpolys/FactorizedPolynomial.tpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/carl-extpolys/FactorizedPolynomial.tpp b/src/carl-extpolys/FactorizedPolynomial.tpp
index cb1b4b0..6199959 100644
--- a/src/carl-extpolys/FactorizedPolynomial.tpp
+++ b/src/carl-extpolys/FactorizedPolynomial.tpp
@@ -719,7 +719,7 @@ namespace carl
         }
         else if( _lhs.pCache() != nullptr && _rhs.pCache() != nullptr )
         {
-            return !(_lhs.content() == _rhs.content());
+            return _lhs.coefficient() != _rhs.coefficient() || !(_lhs.content() == _rhs.content());
         }
         return true;
     }
@@ -1040,7 +1040,13 @@ namespace carl
             assert( carl::quotient(computePolynomial( *this ), computePolynomial( _fdivisor ) ) == computePolynomial( result ) );
             return result;
         }
-        FactorizedPolynomial<P> result = lazyDiv( *this, _fdivisor ).first;
+        auto reduced = lazyDiv( *this, _fdivisor );
+        FactorizedPolynomial<P> result = reduced.first;
+        if( !reduced.second.isOne() )
+        {
+            // The known factors do not suffice to cancel the divisor
+            result = FactorizedPolynomial<P>( carl::quotient( computePolynomial( reduced.first ), computePolynomial( reduced.second ) ), mpCache );
+        }
         assert( carl::quotient(computePolynomial( *this ), computePolynomial( _fdivisor ) ) == computePolynomial( result ) );
         return result;
     }
-- 
2.43.0


From f0eb949251b227711765dfdca1ee19f8bbfd21f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:58:59 +0000
Subject: [PATCH 55/84] fix: Gcd and refinement of factorizations keep
 exponents and remaining factors

---
 .../PolynomialFactorizationPair.h             |  3 +-
 .../PolynomialFactorizationPair.tpp           | 33 +++++++++++++------
 2 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/carl-extpolys/PolynomialFactorizationPair.h b/src/carl-extpolys/PolynomialFactorizationPair.h
index 4a96ddf..2aeb82f 100644
--- a/src/carl-extpolys/PolynomialFactorizationPair.h
+++ b/src/carl-extpolys/PolynomialFactorizationPair.h
@@ -71,10 +71,9 @@ namespace carl
                     super::insert( _first, _last );
                 else
                 {
-                    typename super::iterator lastInserted = super::begin();
                     while( _first != _last )
                     {
-                        lastInserted = this->insert( lastInserted, *_first );
+                        this->insert( *_first );
                         ++_first;
                     }
                 }
diff --git a/src/carl-extpolys/PolynomialFactorizationPair.tpp b/src/carl-extpolys/PolynomialFactorizationPair.tpp
index 07646a7..86492c7 100644
--- a/src/carl-extpolys/PolynomialFactorizationPair.tpp
+++ b/src/carl-extpolys/PolynomialFactorizationPair.tpp
@@ -318,6 +318,11 @@ namespace carl
                 ft = mFactorization.erase(ft);
             }
         }
+        if( mpPolynomial == nullptr && mFactorization.size() == 1 )
+        {
+            // All factors were powers of the same polynomial
+            mpPolynomial = new P( computePolynomial( mFactorization ) );
+        }
         assert( assertFactorization() );
         return result;
     }
@@ -334,11 +339,15 @@ namespace carl
             mIrreducible = 1;
             return true;
         }
-        Definiteness definiteness = carl::definiteness(*mpPolynomial);
-        if ( definiteness == Definiteness::POSITIVE || definiteness == Definiteness::NEGATIVE )
+        if ( mpPolynomial->totalDegree() <= 2 )
         {
-            mIrreducible = 1;
-            return true;
+            // A product of two linear polynomials has real zeros
+            Definiteness definiteness = carl::definiteness(*mpPolynomial);
+            if ( definiteness == Definiteness::POSITIVE || definiteness == Definiteness::NEGATIVE )
+            {
+                mIrreducible = 1;
+                return true;
+            }
         }
         mIrreducible = 0;
         return false;
@@ -418,7 +427,10 @@ namespace carl
                 const Factorization<P>& currentFactorizationA = factorA.factorization();
                 if( currentFactorizationA.size() != 1 )
                 {
-                    factorizationA.insert( currentFactorizationA.begin(), currentFactorizationA.end() );
+                    for( const auto& factor : currentFactorizationA )
+                    {
+                        factorizationA.insert( std::pair<FactorizedPolynomial<P>, carl::exponent>( factor.first, factor.second * exponentA ) );
+                    }
                     breaked = true;
                     break;
                 } else if ( currentFactorizationA.begin()->second > 1 ) {
@@ -434,7 +446,10 @@ namespace carl
                 const Factorization<P>& currentFactorizationB = factorB.factorization();
                 if( currentFactorizationB.size() != 1 )
                 {
-                    factorizationB.insert( currentFactorizationB.begin(), currentFactorizationB.end() );
+                    for( const auto& factor : currentFactorizationB )
+                    {
+                        factorizationB.insert( std::pair<FactorizedPolynomial<P>, carl::exponent>( factor.first, factor.second * exponentB ) );
+                    }
                     continue;
                 } else if ( currentFactorizationB.begin()->second > 1 ) {
                     // Polynomial has exponent > 1
@@ -488,7 +503,7 @@ namespace carl
                         assert( factorB.content().mpPolynomial != nullptr );
                         polA = *factorA.content().mpPolynomial;
                         polB = *factorB.content().mpPolynomial;
-                        polGCD = carl::gcd( polA, polB );
+                        polGCD = carl::gcd( polA, polB ).coprimeCoefficients();
                         if (carl::isNegative(polGCD.lcoeff())) {
                             polGCD = -polGCD;
                         }
@@ -559,10 +574,8 @@ namespace carl
                     }
                 }
             } //End of inner while
-            if( breaked )
-                continue;
             //Insert remaining factorA into rest
-            if( !factorA.isOne() )
+            if( !breaked && !factorA.isOne() )
             {
                 _restA.insert( std::pair<FactorizedPolynomial<P>, carl::exponent>( factorA, exponentA ) );
                 CARL_LOG_DEBUG( "carl.core.factorizedpolynomial", __LINE__ << ": add (" << factorA << ")^" << exponentA << " to first closed remainder: " << _restA );
-- 
2.43.0


From 32a6f0c84ecf288f12de63d633091b1e43da5d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:58:59 +0000
Subject: [PATCH 56/84] fix: Keep coefficients when substituting in factorized
 polynomials

---
 src/carl-extpolys/substitution.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/carl-extpolys/substitution.h b/src/carl-extpolys/substitution.h
index 68997b6..791202e 100644
--- a/src/carl-extpolys/substitution.h
+++ b/src/carl-extpolys/substitution.h
@@ -111,7 +111,8 @@ FactorizedPolynomial<P> substitute(const FactorizedPolynomial<P>& p, const std::
 				resultCoeff *= carl::pow(subResult.constantPart(), factor.second);
 			} else {
 				// Add substituted polynomial into factorization
-				resultFactorization.insert(std::pair<FactorizedPolynomial<P>, carl::exponent>(subResult, factor.second));
+				resultCoeff *= carl::pow(subResult.coefficient(), factor.second);
+				resultFactorization.insert(std::pair<FactorizedPolynomial<P>, carl::exponent>(subResult.coprimeCoefficients(), factor.second));
 			}
 		}
 		FactorizedPolynomial<P> result(std::move(resultFactorization), resultCoeff, p.pCache());
-- 
2.43.0


From dea858a31fb6e13e992acb94e492932eee983f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:21:51 +0000
Subject: [PATCH 57/84] fix: Keep one formula for constraints that have the
 same negation

---
 src/carl/formula/FormulaPool.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/carl/formula/FormulaPool.h b/src/carl/formula/FormulaPool.h
index 4d12b02..b1ab10d 100644
--- a/src/carl/formula/FormulaPool.h
+++ b/src/carl/formula/FormulaPool.h
@@ -229,10 +229,14 @@ namespace carl
                     default: ;
                 }
                 #endif
+                // Negating may simplify further, hence several constraints may have the same negation.
+                Constraint<Pol> negation = _constraint.negation();
+                Constraint<Pol> base = negation.negation();
+                if (base != _constraint) return create(std::move(base));
                 if (isBaseFormula(_constraint)) {
                     return add(new FormulaContent<Pol>(std::move(_constraint)));
                 } else {
-                    return add(new FormulaContent<Pol>(_constraint.negation()))->mNegation;
+                    return add(new FormulaContent<Pol>(std::move(negation)))->mNegation;
                 }
             }
             const FormulaContent<Pol>* create(const Constraint<Pol>& _constraint) {
-- 
2.43.0


From b7791d4d1197657fbd4fc2e082dea30d6f622062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:36:40 +0000
Subject: [PATCH 58/84] fix: Print joined subformulas, monomials and univariate
 polynomials in SMT-LIB syntax

Operands of a formula and factors of a monomial were printed in infix syntax.
Printing a univariate polynomial or a Boolean value did not work.
---
 src/carl-io/SMTLIBStream.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/carl-io/SMTLIBStream.h b/src/carl-io/SMTLIBStream.h
index 95cd369..ceb2e7d 100644
--- a/src/carl-io/SMTLIBStream.h
+++ b/src/carl-io/SMTLIBStream.h
@@ -28,6 +28,7 @@ class SMTLIBStream {
 private:
 	std::stringstream mStream;
 
+	void write(const bool& b) { *this << (b ? "true" : "false"); }
 	void write(const mpz_class& n) { *this << carl::toString(n, false); }
 	void write(const mpq_class& n) { *this << carl::toString(n, false); }
 #ifdef USE_CLN_NUMBERS
@@ -195,14 +196,15 @@ private:
 	
 	template<typename Coeff>
 	void write(const UnivariatePolynomial<Coeff>& up) {
-		if (up.isConstant()) *this << up.constantPart();
+		if (up.coefficients().empty()) *this << "0";
+		else if (up.isConstant()) *this << up.tcoeff();
 		else {
 			*this << "(+";
 			for (std::size_t i = 0; i < up.coefficients().size(); ++i) {
 				std::size_t exp = up.coefficients().size() - i - 1;
 				const auto& coeff = up.coefficients()[exp];
 				if (exp == 0) *this << " " << coeff;
-				else *this << " (* " << coeff << " " << Monomial(up.mainVar(), exp) << ")";
+				else *this << " (* " << coeff << " " << createMonomial(up.mainVar(), exp) << ")";
 			}
 			*this << ")";
 		}
@@ -229,6 +231,16 @@ private:
 		}
 	}
 	
+	template<typename T, typename F>
+	void write(const detail::stream_joined_impl<T,F>& sji) {
+		bool first = true;
+		for (const auto& v: sji.values) {
+			if (!first) *this << sji.glue;
+			first = false;
+			*this << v;
+		}
+	}
+
 	template<typename T>
 	void write(T&& t) {
 		mStream << t;
-- 
2.43.0


From e4c8b48808f948876c07d68acc4902ba445dc20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:36:40 +0000
Subject: [PATCH 59/84] fix: Print nested formulas and univariate polynomials
 for Maple and QEPCAD

Operands of a formula were printed in the default syntax and without parentheses.
---
 src/carl-io/MapleStream.h  | 17 ++++++++++++++---
 src/carl-io/QEPCADStream.h | 17 ++++++++++++++---
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/carl-io/MapleStream.h b/src/carl-io/MapleStream.h
index 2d95013..81c0f47 100644
--- a/src/carl-io/MapleStream.h
+++ b/src/carl-io/MapleStream.h
@@ -28,7 +28,7 @@ private:
 	
 	template<typename Pol>
 	void write(const Formulas<Pol>& f, const std::string& op) {
-		*this << carl::stream_joined(" " + op + " ", f);
+		*this << "(" << carl::stream_joined(" " + op + " ", f) << ")";
 	}
 	
 	template<typename Pol>
@@ -138,14 +138,15 @@ private:
 	
 	template<typename Coeff>
 	void write(const UnivariatePolynomial<Coeff>& up) {
-		if (up.isConstant()) *this << up.constantPart();
+		if (up.coefficients().empty()) *this << "0";
+		else if (up.isConstant()) *this << up.tcoeff();
 		else {
 			for (std::size_t i = 0; i < up.coefficients().size(); ++i) {
 				if (i > 0) *this << " + ";
 				std::size_t exp = up.coefficients().size() - i - 1;
 				const auto& coeff = up.coefficients()[exp];
 				if (exp == 0) *this << " " << coeff;
-				else *this << "(" << coeff << ")*" << Monomial(up.mainVar(), exp);
+				else *this << "(" << coeff << ")*" << createMonomial(up.mainVar(), exp);
 			}
 		}
 	}
@@ -164,6 +165,16 @@ private:
 		}
 	}
 	
+	template<typename T, typename F>
+	void write(const detail::stream_joined_impl<T,F>& sji) {
+		bool first = true;
+		for (const auto& v: sji.values) {
+			if (!first) *this << sji.glue;
+			first = false;
+			*this << v;
+		}
+	}
+
 	template<typename T>
 	void write(T&& t) {
 		mStream << t;
diff --git a/src/carl-io/QEPCADStream.h b/src/carl-io/QEPCADStream.h
index b34f5d4..98983bf 100644
--- a/src/carl-io/QEPCADStream.h
+++ b/src/carl-io/QEPCADStream.h
@@ -32,7 +32,7 @@ private:
 	
 	template<typename Pol>
 	void write(const Formulas<Pol>& f, const std::string& op) {
-		*this << carl::stream_joined(" " + op + " ", f);
+		*this << "[" << carl::stream_joined(" " + op + " ", f) << "]";
 	}
 	
 	template<typename Pol>
@@ -144,14 +144,15 @@ private:
 	
 	template<typename Coeff>
 	void write(const UnivariatePolynomial<Coeff>& up) {
-		if (up.isConstant()) *this << up.constantPart();
+		if (up.coefficients().empty()) *this << "0";
+		else if (up.isConstant()) *this << up.tcoeff();
 		else {
 			for (std::size_t i = 0; i < up.coefficients().size(); ++i) {
 				if (i > 0) *this << " + ";
 				std::size_t exp = up.coefficients().size() - i - 1;
 				const auto& coeff = up.coefficients()[exp];
 				if (exp == 0) *this << " " << coeff;
-				else *this << "(" << coeff << ") " << Monomial(up.mainVar(), exp);
+				else *this << "(" << coeff << ") " << createMonomial(up.mainVar(), exp);
 			}
 		}
 	}
@@ -170,6 +171,16 @@ private:
 		}
 	}
 	
+	template<typename T, typename F>
+	void write(const detail::stream_joined_impl<T,F>& sji) {
+		bool first = true;
+		for (const auto& v: sji.values) {
+			if (!first) *this << sji.glue;
+			first = false;
+			*this << v;
+		}
+	}
+
 	template<typename T>
 	void write(T&& t) {
 		mStream << t;
-- 
2.43.0


From 3a250031b1fc152aac14d2c7ba9b5be481b8bb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:36:40 +0000
Subject: [PATCH 60/84] fix: Export the formula false to DIMACS as an empty
 clause

---
 src/carl-io/DIMACSExporter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl-io/DIMACSExporter.h b/src/carl-io/DIMACSExporter.h
index dbc669d..8f6880e 100644
--- a/src/carl-io/DIMACSExporter.h
+++ b/src/carl-io/DIMACSExporter.h
@@ -74,7 +74,7 @@ public:
 			return true;
 		}
 		if (f.getType() == FALSE) {
-			CARL_LOG_WARN("carl.dimacs", "Added FALSE to DIMACSExporter. Skipping...");
+			mClauses.emplace_back();
 			return true;
 		}
 		if (f.getType() == OR || f.getType() == BOOL || f.getType() == NOT) {
-- 
2.43.0


From d9f0ea1beb3f436c58d0e8e914d41ef85fb5506a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:36:40 +0000
Subject: [PATCH 61/84] fix: Use the same Boolean variables in the objective
 and the constraints of OPB files

---
 src/carl-io/OPBImporter.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/carl-io/OPBImporter.h b/src/carl-io/OPBImporter.h
index 51dd27e..faf824c 100644
--- a/src/carl-io/OPBImporter.h
+++ b/src/carl-io/OPBImporter.h
@@ -71,10 +71,7 @@ public:
 			constraints.emplace_back(std::move(pbc));
 		}
 		Formula<Pol> resC(FormulaType::AND, std::move(constraints));
-		Pol objective;
-		for (const auto& term: file->objective) {
-			objective += Number(term.first) * term.second;
-		}
+		Pol objective = convert(file->objective);
 		return std::make_pair(std::move(resC), std::move(objective));
 	}
 };
-- 
2.43.0


From 8a46a786260f5527652941d287b486efc1b6ab9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:36:40 +0000
Subject: [PATCH 62/84] fix: Read numbers with a sign when the polynomial
 parser is linked as well

Two different class templates had the same name, so including the polynomial
parser made the number parser reject signs.
---
 src/carl/util/parser/Common.h           | 2 +-
 src/carl/util/parser/ExpressionParser.h | 2 +-
 src/carl/util/parser/PolynomialParser.h | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/carl/util/parser/Common.h b/src/carl/util/parser/Common.h
index 0ec7d4e..b6d213b 100644
--- a/src/carl/util/parser/Common.h
+++ b/src/carl/util/parser/Common.h
@@ -37,7 +37,7 @@ template<typename Pol>
 using RatFun = RationalFunction<Pol>;
 
 template<typename Coeff>
-struct RationalPolicies : qi::ureal_policies<Coeff> {
+struct UnsignedRationalPolicies : qi::ureal_policies<Coeff> {
     template <typename It, typename Attr>
     static bool parse_nan(It&, It const&, Attr&) { return false; }
     template <typename It, typename Attr>
diff --git a/src/carl/util/parser/ExpressionParser.h b/src/carl/util/parser/ExpressionParser.h
index ebd9878..022f5c7 100644
--- a/src/carl/util/parser/ExpressionParser.h
+++ b/src/carl/util/parser/ExpressionParser.h
@@ -525,7 +525,7 @@ private:
 
 	qi::rule<Iterator, std::string(), Skipper> varname;
 	qi::uint_parser<exponent,10,1,-1> exponentVal;
-	qi::real_parser<CoeffType,RationalPolicies<CoeffType>> coeff;
+	qi::real_parser<CoeffType,UnsignedRationalPolicies<CoeffType>> coeff;
 	qi::rule<Iterator, Variable(), Skipper> variable;
 
 	qi::rule<Iterator, Operation(), Skipper> operationScaleLA;
diff --git a/src/carl/util/parser/PolynomialParser.h b/src/carl/util/parser/PolynomialParser.h
index efdbf4b..5f0ff0d 100644
--- a/src/carl/util/parser/PolynomialParser.h
+++ b/src/carl/util/parser/PolynomialParser.h
@@ -154,7 +154,7 @@ private:
 	qi::symbols<char, Operation> operation;
 	qi::symbols<char, Variable> varmap;
 	qi::rule<Iterator, std::string(), Skipper> varname;
-	qi::real_parser<typename Pol::CoeffType,RationalPolicies<typename Pol::CoeffType>> number;
+	qi::real_parser<typename Pol::CoeffType,UnsignedRationalPolicies<typename Pol::CoeffType>> number;
 	qi::rule<Iterator, Variable(), Skipper> variable;
 	qi::rule<Iterator, Monomial::Arg(), Skipper> monomial;
 	qi::rule<Iterator, Term<typename Pol::CoeffType>(), Skipper> term;
-- 
2.43.0


From 09b8700c69b01c4d19179abf4be3bd4afe18e783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:36:51 +0000
Subject: [PATCH 63/84] fix: Parse sums, products and signs of polynomials with
 the usual precedence

A product took everything up to the next parenthesis as its operand, so 1+2*x
was read as 3*x. A sign after an operator was taken as an empty term.
---
 src/carl/util/parser/PolynomialParser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/util/parser/PolynomialParser.h b/src/carl/util/parser/PolynomialParser.h
index 5f0ff0d..2f60d63 100644
--- a/src/carl/util/parser/PolynomialParser.h
+++ b/src/carl/util/parser/PolynomialParser.h
@@ -93,7 +93,7 @@ struct PolynomialParser: public qi::grammar<Iterator, Pol(), Skipper> {
 		monomial = ((variable >> ("^" >> number | qi::attr(typename Pol::CoeffType(1)))) % "*")[qi::_val = px::bind(&PolynomialParser<Pol>::newMonomial, px::ref(*this), qi::_1)];
 		term = (-number >> -monomial)[qi::_val = px::bind(&PolynomialParser<Pol>::newTerm, px::ref(*this), qi::_1, qi::_2)];
 		polynomial = (term >> *(operation >> term))[qi::_val = px::bind(&PolynomialParser<Pol>::addTerms, px::ref(*this), qi::_1, qi::_2)];
-		expr = ("(" >> expr_sum >> ")") | polynomial;
+		expr = ("(" >> expr_sum >> ")")[qi::_val = qi::_1] | ("-" >> expr)[qi::_val = -qi::_1] | term[qi::_val = px::construct<Pol>(qi::_1)];
 		expr_product = (expr % "*")[qi::_val = px::bind(&PolynomialParser<Pol>::mul, px::ref(*this), qi::_1)];
 		expr_sum = (expr_product >> *(operation >> expr_product))[qi::_val = px::bind(&PolynomialParser<Pol>::addPolynomials, px::ref(*this), qi::_1, qi::_2)];
 		main = expr_sum;
-- 
2.43.0


From 01a578e92044f91e78d2b3b0ec9bea36254e9263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:36:51 +0000
Subject: [PATCH 64/84] fix: Reject malformed terms in the string parser

Repeated variables were silently dropped, malformed coefficients failed an
assertion and negative exponents were accepted. Parsing rational functions did
not compile.
---
 src/carl/util/stringparser.h | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/carl/util/stringparser.h b/src/carl/util/stringparser.h
index b8285a4..3c9599f 100644
--- a/src/carl/util/stringparser.h
+++ b/src/carl/util/stringparser.h
@@ -142,17 +142,17 @@ namespace carl
 			{
 				auto nom = parseMultivariatePolynomial<C>(nomAndDenom.front());
 				auto denom = parseMultivariatePolynomial<C>(nomAndDenom.back());
-				if(denom.isZero())
+				if(carl::isZero(denom))
 				{
 					throw InvalidInputStringException("Denominator is zero", nomAndDenom.back() , inputString);
 				}
-				return {nom, denom};
+				return RationalFunction<MultivariatePolynomial<C,O,P>>(nom, denom);
 			}
 			else
 			{
 				assert(nomAndDenom.size() == 1);
 				auto pol = parseMultivariatePolynomial<C>(nomAndDenom.front());
-				return {pol};
+				return RationalFunction<MultivariatePolynomial<C,O,P>>(pol);
 			}
 		}
 		
@@ -226,8 +226,15 @@ namespace carl
 						{
 							try
 							{
+								if(boost::starts_with(varAndExp.back(), "-"))
+								{
+									throw InvalidInputStringException("Exponent is negative", veStr);
+								}
 								unsigned exp = boost::lexical_cast<unsigned>(varAndExp.back());
-								varExpPairs.emplace_back(it->second, exp);
+								if(exp > 0)
+								{
+									varExpPairs.emplace_back(it->second, exp);
+								}
 							}
 							catch(const boost::bad_lexical_cast&)
 							{
@@ -247,9 +254,8 @@ namespace carl
 			}
 			
 			std::sort(varExpPairs.begin(), varExpPairs.end(), [](const std::pair<Variable, exponent>& p1, const std::pair<Variable, exponent>& p2){ return p1.first < p2.first; });
-			size_t nrVariables = varExpPairs.size();
-			std::unique(varExpPairs.begin(), varExpPairs.end());
-			if(nrVariables != varExpPairs.size())
+			auto sameVariable = [](const std::pair<Variable, exponent>& p1, const std::pair<Variable, exponent>& p2){ return p1.first == p2.first; };
+			if(std::adjacent_find(varExpPairs.begin(), varExpPairs.end(), sameVariable) != varExpPairs.end())
 			{
 				throw InvalidInputStringException("Variable occurs twice", inputStr);
 			}
@@ -270,20 +276,16 @@ namespace carl
 		C constructCoefficient(const std::string& inputString) const
 		{
             std::string inputStringCopy = inputString;
-            assert(!inputStringCopy.empty());
-            if( inputStringCopy[0] == '(' )
+            if( !inputStringCopy.empty() && inputStringCopy.front() == '(' && inputStringCopy.back() == ')' )
             {
-                assert(inputStringCopy.back() == ')');
                 inputStringCopy = inputStringCopy.substr( 1, inputStringCopy.size()-2 );
             }
-			try
-			{
-				return parse<C>(inputStringCopy);
-			}
-			catch(std::exception&)
+			C res;
+			if(!try_parse<C>(inputStringCopy, res))
 			{
 				throw InvalidInputStringException("Could not build coefficient", inputStringCopy);
 			}
+			return res;
 			
 		}
 		
-- 
2.43.0


From 2bf5cbaf4e5574859c4997eca6494d9b41ac1fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:13:27 +0000
Subject: [PATCH 65/84] fix: Compute roots of intervals with denormalized
 bounds

---
 src/carl/interval/Interval.tpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/carl/interval/Interval.tpp b/src/carl/interval/Interval.tpp
index 971e1d3..45f7310 100644
--- a/src/carl/interval/Interval.tpp
+++ b/src/carl/interval/Interval.tpp
@@ -860,7 +860,14 @@ Interval<Number> Interval<Number>::root(int deg) const
                 }
             }
         }
-		return Interval<Number>(boost::numeric::nth_root(mContent, deg), mLowerBoundType, mUpperBoundType);
+        BoostInterval content = mContent;
+        // The inverse of a denormalized bound overflows, hence boost has no root for it.
+        const Number tiny = std::numeric_limits<Number>::min();
+        if( content.lower() > carl::constant_zero<Number>().get() && content.lower() < tiny )
+            content.assign( carl::constant_zero<Number>().get(), content.upper() );
+        if( content.upper() < carl::constant_zero<Number>().get() && content.upper() > -tiny )
+            content.assign( content.lower(), carl::constant_zero<Number>().get() );
+		return Interval<Number>(boost::numeric::nth_root(content, deg), mLowerBoundType, mUpperBoundType);
 	}
 
 template<typename Number>
-- 
2.43.0


From 3cc8e4ee6a0f251971d134cb049d7759a6f0d4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:47:43 +0000
Subject: [PATCH 66/84] fix: Do not report variables of opaque atoms as
 symmetric

Quantified formulas, bit-vector constraints, uninterpreted equalities and
variable comparisons were added to the graph without their variables. Any
two of these variables were reported as symmetric.
---
 src/carl/formula/symmetry/SymmetryFinder.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/carl/formula/symmetry/SymmetryFinder.h b/src/carl/formula/symmetry/SymmetryFinder.h
index a2c85eb..6f2f0a2 100644
--- a/src/carl/formula/symmetry/SymmetryFinder.h
+++ b/src/carl/formula/symmetry/SymmetryFinder.h
@@ -112,6 +112,18 @@ class GraphBuilder {
 		}
 		return vert;
 	}
+	/// Formulas whose structure is not considered are only symmetric to themselves.
+	void addOpaque(unsigned vert, const Formula<Poly>& f) {
+		unsigned idvert = mGraph.add_vertex(mColor(f.getId()));
+		mGraph.add_edge(vert, idvert);
+		carlVariables vars;
+		f.gatherVariables(vars);
+		for (const auto& v: vars) {
+			unsigned varvert = mGraph.add_vertex(mColor(v.id()));
+			mGraph.add_edge(idvert, varvert);
+			mGraph.add_edge(varvert, mVariableIDs[v]);
+		}
+	}
 	unsigned addFormula(const Formula<Poly>& f) {
 		unsigned vert = mGraph.add_vertex(mColor(f.getType()));
 		switch (f.getType()) {
@@ -129,6 +141,8 @@ class GraphBuilder {
 			}
 			case carl::FormulaType::EXISTS:
 			case carl::FormulaType::FORALL:
+				addOpaque(vert, f);
+				break;
 			case carl::FormulaType::TRUE:
 			case carl::FormulaType::FALSE:
 				break;
@@ -164,6 +178,7 @@ class GraphBuilder {
 			case carl::FormulaType::VARASSIGN:
 			case carl::FormulaType::BITVECTOR:
 			case carl::FormulaType::UEQ:
+				addOpaque(vert, f);
 				break;
 		}
 		return vert;
-- 
2.43.0


From 19c5e443a99d35c93dbfa3c5ed3460bf60e27bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:47:43 +0000
Subject: [PATCH 67/84] fix: Implement substitution in uninterpreted equalities

The substitution returned no value for uninterpreted equalities.
---
 src/carl/formula/helpers/FormulaVisitor.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/carl/formula/helpers/FormulaVisitor.h b/src/carl/formula/helpers/FormulaVisitor.h
index 46e229a..0a64690 100644
--- a/src/carl/formula/helpers/FormulaVisitor.h
+++ b/src/carl/formula/helpers/FormulaVisitor.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include "../Formula.h"
+#include "../uninterpreted/UFInstanceManager.h"
 
 namespace carl {
 
@@ -155,7 +156,17 @@ private:
 		explicit UninterpretedSubstitutor(const std::map<UVariable,UFInstance>& repl): replacements(repl) {}
 		Formula operator()(const Formula& formula) {
 			if (formula.getType() != FormulaType::UEQ) return formula;
-
+			const auto& ueq = formula.uequality();
+			return Formula(substitute(ueq.lhs()), substitute(ueq.rhs()), ueq.negated());
+		}
+		UTerm substitute(const UTerm& term) const {
+			if (term.isUVariable()) {
+				auto it = replacements.find(term.asUVariable());
+				return it == replacements.end() ? term : UTerm(it->second);
+			}
+			std::vector<UTerm> args;
+			for (const auto& arg: term.asUFInstance().args()) args.push_back(substitute(arg));
+			return UTerm(newUFInstance(term.asUFInstance().uninterpretedFunction(), std::move(args)));
 		}
 	};
 public:
-- 
2.43.0


From 4ade87f3b3278e47ec20c12e387220aa2b1ce841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:47:43 +0000
Subject: [PATCH 68/84] fix: Keep indices when replacing sorts and find
 definitions without parameters

Replacing within an indexed sort with parameters lost its indices. A sort
defined without parameters was not found by its name.
---
 src/carl/formula/SortManager.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/carl/formula/SortManager.cpp b/src/carl/formula/SortManager.cpp
index efbdaf1..cbfa63f 100644
--- a/src/carl/formula/SortManager.cpp
+++ b/src/carl/formula/SortManager.cpp
@@ -48,7 +48,9 @@ Sort SortManager::replace(const Sort& sort, const std::map<std::string, Sort>& p
 	v.reserve(sc.parameters->size());
 	for (const auto& sd : *sc.parameters)
 		v.push_back(replace(sd, parameters));
-	return getSort(std::make_unique<SortContent>(sc.name, std::move(v)), VariableType::VT_UNINTERPRETED);
+	auto content = std::make_unique<SortContent>(sc.name, std::move(v));
+	if (sc.indices != nullptr) content->indices = std::make_unique<std::vector<std::size_t>>(*sc.indices);
+	return getSort(std::move(content), VariableType::VT_UNINTERPRETED);
 }
 
 bool SortManager::declare(const std::string& name, std::size_t arity) {
@@ -94,6 +96,8 @@ Sort SortManager::index(const Sort& sort, const std::vector<std::size_t>& indice
 }
 
 Sort SortManager::getSort(const std::string& name) {
+	auto def = mDefinitions.find(name);
+	if (def != mDefinitions.end() && def->second.first.empty()) return def->second.second;
 	auto sc = std::make_unique<SortContent>(name);
 	// Find an instantiation of the given sort template.
 	auto it = mSortMap.find(sc.get());
-- 
2.43.0


From 341e332e5bffd251a949e7c9139fce5790c2a8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:47:43 +0000
Subject: [PATCH 69/84] fix: Declare all used sorts and print functions of
 models in SMT-LIB

Sorts that occur only in signatures of functions were not declared. The
definition of a function was printed within another definition.
---
 src/carl-io/SMTLIBStream.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/carl-io/SMTLIBStream.h b/src/carl-io/SMTLIBStream.h
index ceb2e7d..02b4016 100644
--- a/src/carl-io/SMTLIBStream.h
+++ b/src/carl-io/SMTLIBStream.h
@@ -96,6 +96,12 @@ private:
 		for (const auto& m: model) {
 			auto value = m.second;
 			value = model.evaluated(m.first);
+			if (m.first.isFunction()) {
+				*this << "\t";
+				value.visit([this](const auto& v){ this->write(v); });
+				*this << std::endl;
+				continue;
+			}
 			*this << "\t(define-fun " << m.first << " () ";
 			if (m.first.isVariable()) {
 				*this << m.first.asVariable().type() << std::endl;
@@ -103,8 +109,6 @@ private:
 				*this << m.first.asBVVariable().sort() << std::endl;
 			} else if (m.first.isUVariable()) {
 				*this << m.first.asUVariable().domain() << std::endl;
-			} else if (m.first.isFunction()) {
-				*this << value;
 			} else {
 				CARL_LOG_ERROR("carl.smtlibstream", "Encountered an unknown type of ModelVariable: " << m.first);
 				assert(false);
@@ -266,7 +270,7 @@ public:
 	}
 	/// Declare a bitvector variable via `declare-fun`.
 	void declare(BVVariable v) {
-		*this << "(declare-fun " << v.variable() << " () " << v.variable().type() << ")" << std::endl;
+		*this << "(declare-fun " << v.variable() << " () " << v.sort() << ")" << std::endl;
 	}
 	/// Declare an uninterpreted variable via `declare-fun`.
 	void declare(UVariable v) {
@@ -306,8 +310,12 @@ public:
 		for (const auto& v: uvs) {
 			sorts.insert(v.domain());
 		}
+		for (const auto& uf: ufs) {
+			sorts.insert(uf.domain().begin(), uf.domain().end());
+			sorts.insert(uf.codomain());
+		}
 		for (const auto& s: sorts) {
-			declare(s);
+			if (!SortManager::getInstance().isInterpreted(s)) declare(s);
 		}
 		declare(ufs);
 		declare(vars.filter(carl::variable_type_filter::excluding({VariableType::VT_BITVECTOR, VariableType::VT_UNINTERPRETED})));
-- 
2.43.0


From 2f4e09be99f585b4060b7a24b98f96ead85c24eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:47:43 +0000
Subject: [PATCH 70/84] fix: Remove duplicates from variable sets before either
 end of a range is taken

The end of the range was computed before duplicates were removed when both
iterators were passed to a function.
---
 src/carl/core/Variables.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/carl/core/Variables.h b/src/carl/core/Variables.h
index dcb26c3..be728e7 100644
--- a/src/carl/core/Variables.h
+++ b/src/carl/core/Variables.h
@@ -115,6 +115,7 @@ public:
 		return mVariables.begin();
 	}
 	auto end() const {
+		compact(true);
 		return mVariables.end();
 	}
 	auto begin() {
@@ -122,6 +123,7 @@ public:
 		return mVariables.begin();
 	}
 	auto end() {
+		compact(true);
 		return mVariables.end();
 	}
 
-- 
2.43.0


From 1c51e14f594c4a51335ee7c5d5c166c4933e6e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:09:59 +0000
Subject: [PATCH 71/84] fix: reject durations and quantities that do not fit

A number with a unit was multiplied with the factor of the unit without
checking the range, so a value like 19E silently became something else.
---
 src/carl-settings/settings_utils.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/carl-settings/settings_utils.cpp b/src/carl-settings/settings_utils.cpp
index be75833..28710dd 100644
--- a/src/carl-settings/settings_utils.cpp
+++ b/src/carl-settings/settings_utils.cpp
@@ -4,6 +4,8 @@
 #include <boost/program_options.hpp>
 #include <boost/spirit/include/qi.hpp>
 
+#include <limits>
+
 namespace carl::settings {
 
 // Adapted from https://stackoverflow.com/questions/45071699/
@@ -25,7 +27,8 @@ void validate(boost::any& v, const std::vector<std::string>& values, carl::setti
 		("m", std::chrono::minutes(1))
 		("h", std::chrono::hours(1))
 	;
-	if (qi::parse(s.begin(), s.end(), qi::long_ >> unit >> qi::eoi, value, factor)) {
+	if (qi::parse(s.begin(), s.end(), qi::long_ >> unit >> qi::eoi, value, factor)
+		&& value <= std::chrono::nanoseconds::max() / factor && value >= std::chrono::nanoseconds::min() / factor) {
 		v = duration(value * factor);
 	} else {
 		throw boost::program_options::invalid_option_value(s);
@@ -55,7 +58,8 @@ void validate(boost::any& v, const std::vector<std::string>& values, carl::setti
 		("E", static_cast<std::size_t>(1) << 60U)
 		("Ei", static_cast<std::size_t>(1) << 60U)
 	;
-	if (qi::parse(s.begin(), s.end(), qi::ulong_long >> -unit >> qi::eoi, value, factor)) {
+	if (qi::parse(s.begin(), s.end(), qi::ulong_long >> -unit >> qi::eoi, value, factor)
+		&& value <= std::numeric_limits<std::size_t>::max() / factor) {
 		v = binary_quantity(value * factor);
 	} else {
 		throw boost::program_options::invalid_option_value(s);
@@ -79,7 +83,8 @@ void validate(boost::any& v, const std::vector<std::string>& values, carl::setti
 		("P", 1000000000000000)
 		("E", 1000000000000000000)
 	;
-	if (qi::parse(s.begin(), s.end(), qi::ulong_long >> -unit >> qi::eoi, value, factor)) {
+	if (qi::parse(s.begin(), s.end(), qi::ulong_long >> -unit >> qi::eoi, value, factor)
+		&& value <= std::numeric_limits<std::size_t>::max() / factor) {
 		v = metric_quantity(value * factor);
 	} else {
 		throw boost::program_options::invalid_option_value(s);
-- 
2.43.0


From f4ba48498a83072cb382972a7fd9b82a1d9c6a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:09:59 +0000
Subject: [PATCH 72/84] fix: print quantities from 2^63 on as positive numbers

The size was converted to a signed number before the suffix was chosen,
so 8Ei was printed as a negative number of bytes.
---
 src/carl-settings/settings_utils.h | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/carl-settings/settings_utils.h b/src/carl-settings/settings_utils.h
index c4875ce..85cf214 100644
--- a/src/carl-settings/settings_utils.h
+++ b/src/carl-settings/settings_utils.h
@@ -4,6 +4,7 @@
 #include <chrono>
 #include <iostream>
 #include <string>
+#include <type_traits>
 #include <utility>
 #include <vector>
 
@@ -21,17 +22,18 @@ namespace carl::settings {
  * The return value is the value converted to this unit suffix and the index into the array to retrieve the appropriate suffix string.
  * For the above example, `get_proper_suffix(30000000000, a) = {30, 3}`, that is `30s`.
  */
-template<typename Array>
-std::pair<std::intmax_t,std::size_t> get_proper_suffix(std::intmax_t value, const Array& a) {
+template<typename Value, typename Array>
+std::pair<std::intmax_t,std::size_t> get_proper_suffix(Value value, const Array& a) {
+	using T = std::common_type_t<Value, std::intmax_t>;
 	std::size_t id = 0;
-	std::intmax_t mult = 1;
+	T mult = 1;
 	for (; id < a.size()-1; ++id) {
-		if (value < (a[id].second * mult)) {
+		if (static_cast<T>(value) < (static_cast<T>(a[id].second) * mult)) {
 			break;
 		}
-		mult *= a[id].second;
+		mult *= static_cast<T>(a[id].second);
 	}
-	return std::make_pair(value / mult, id);
+	return std::make_pair(static_cast<std::intmax_t>(static_cast<T>(value) / mult), id);
 }
 
 /**
@@ -103,7 +105,7 @@ inline std::ostream& operator<<(std::ostream& os, const binary_quantity& q) {
 		{"", 1024}, {"Ki", 1024}, {"Mi", 1024},
 		{"Gi", 1024}, {"Ti", 1024}, {"Pi", 1024}, {"Ei", 1},
 	}};
-	auto res = get_proper_suffix(static_cast<std::intmax_t>(q.n()), suffixes);
+	auto res = get_proper_suffix(q.n(), suffixes);
 	return os << res.first << suffixes[res.second].first;
 }
 
@@ -149,7 +151,7 @@ inline std::ostream& operator<<(std::ostream& os, const metric_quantity& q) {
 		{"", 1000}, {"K", 1000}, {"M", 1000},
 		{"G", 1000}, {"T", 1000}, {"P", 1000}, {"E", 1},
 	}};
-	auto res = get_proper_suffix(static_cast<std::intmax_t>(q.n()), suffixes);
+	auto res = get_proper_suffix(q.n(), suffixes);
 	return os << res.first << suffixes[res.second].first;
 }
 
-- 
2.43.0


From 939c6d511eea78e5dea755a6293832ff15955cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:09:59 +0000
Subject: [PATCH 73/84] fix: call all finalizers of the settings parser

The loop over the finalizers stopped at the first one that reported a
change, so the remaining finalizers were never called.
---
 src/carl-settings/SettingsParser.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/carl-settings/SettingsParser.cpp b/src/carl-settings/SettingsParser.cpp
index a44e8f4..3f1ac52 100644
--- a/src/carl-settings/SettingsParser.cpp
+++ b/src/carl-settings/SettingsParser.cpp
@@ -87,9 +87,10 @@ void SettingsParser::parse_config_file(bool allow_unregistered) {
 }
 
 bool SettingsParser::finalize_settings() {
-	return std::any_of(mFinalizer.begin(), mFinalizer.end(),
+	// every finalizer has to be called
+	return std::count_if(mFinalizer.begin(), mFinalizer.end(),
 		[](const auto& f){ return f(); }
-	);
+	) > 0;
 }
 
 void SettingsParser::finalize() {
-- 
2.43.0


From fb8b4996a34aeedbe2922fe41c6720be592cc07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:52:47 +0000
Subject: [PATCH 74/84] fix: make the Tarski query without given derivative
 compile

The function called a member that univariate polynomials do not have.
The header now also includes what it uses.
---
 src/carl/ran/thom/TarskiQuery/UnivariateTarskiQuery.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/carl/ran/thom/TarskiQuery/UnivariateTarskiQuery.h b/src/carl/ran/thom/TarskiQuery/UnivariateTarskiQuery.h
index f8b6783..851e262 100644
--- a/src/carl/ran/thom/TarskiQuery/UnivariateTarskiQuery.h
+++ b/src/carl/ran/thom/TarskiQuery/UnivariateTarskiQuery.h
@@ -9,6 +9,9 @@
 
 #include <carl/core/Sign.h>
 #include <carl/core/UnivariatePolynomial.h>
+#include <carl/core/polynomialfunctions/Derivative.h>
+#include <carl/core/polynomialfunctions/SignVariations.h>
+#include <carl/core/polynomialfunctions/SturmSequence.h>
 
 namespace carl {
 
@@ -46,7 +49,7 @@ int univariateTarskiQuery(const UnivariatePolynomial<Number>& p, const Univariat
 
 template<typename Number>
 int univariateTarskiQuery(const UnivariatePolynomial<Number>& p, const UnivariatePolynomial<Number>& q) {
-        return univariateTarskiQuery(p, q, q.derivative());
+        return univariateTarskiQuery(p, q, carl::derivative(q));
 }
 
 } // namespace carl
-- 
2.43.0


From 5e03cb1bc2692da81c95c7b9826215ae76b57e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:12:58 +0000
Subject: [PATCH 75/84] fix: evaluate vanishing variables in the stepwise
 evaluator

A variable that drops out of the polynomial before it is assigned has no
interval. Asking for the value then failed an assertion, although the
evaluator reported that the value is known. Such variables are now replaced
by zero first.
---
 src/carl/ran/interval/ran_interval_extra.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/carl/ran/interval/ran_interval_extra.h b/src/carl/ran/interval/ran_interval_extra.h
index 0c7ef9b..aafe9a8 100644
--- a/src/carl/ran/interval/ran_interval_extra.h
+++ b/src/carl/ran/interval/ran_interval_extra.h
@@ -160,6 +160,12 @@ public:
 	}
 
 	auto value() {
+		// The value does not depend on variables that vanished before they were assigned.
+		for (auto var : carl::variables(m_original_poly)) {
+			if (m_ir_assignments.find(var) == m_ir_assignments.end()) {
+				carl::substitute_inplace(m_original_poly, var, MultivariatePolynomial<Number>(0));
+			}
+		}
 		if (m_original_poly.isConstant()) {
 			CARL_LOG_TRACE("carl.ran", "Poly is constant: " << m_original_poly);
 			return real_algebraic_number_interval<Number>(m_original_poly.constantPart());
-- 
2.43.0


From cb65ca583f258340bc885f8ecc5d8e7b1fc7ec83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:16:45 +0000
Subject: [PATCH 76/84] fix: print bit-vector terms and constraints in SMT-LIB
 syntax

The SMT-LIB stream printed them in the plain notation, for example
"bvadd(a, b) bvult c", which no SMT-LIB reader accepts.
---
 src/carl-io/SMTLIBStream.h | 41 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/src/carl-io/SMTLIBStream.h b/src/carl-io/SMTLIBStream.h
index 02b4016..d405aaf 100644
--- a/src/carl-io/SMTLIBStream.h
+++ b/src/carl-io/SMTLIBStream.h
@@ -11,6 +11,8 @@
 #include <carl/formula/Logic.h>
 #include <carl-model/Model.h>
 #include <carl/formula/Sort.h>
+#include <carl/formula/bitvector/BVConstraint.h>
+#include <carl/formula/bitvector/BVTerm.h>
 #include <carl/numbers/numbers.h>
 #include <carl/util/tuple_util.h>
 #include <carl/io/streamingOperators.h>
@@ -36,6 +38,45 @@ private:
 	void write(const cln::cl_RA& n) { *this << carl::toString(n, false); }
 #endif
 
+	void write(const BVTerm& t) {
+		switch (t.type()) {
+			case BVTermType::CONSTANT:
+				*this << t.value();
+				break;
+			case BVTermType::VARIABLE:
+				*this << t.variable();
+				break;
+			case BVTermType::EXTRACT:
+				*this << "((_ " << t.type() << " " << t.highest() << " " << t.lowest() << ") " << t.operand() << ")";
+				break;
+			case BVTermType::LROTATE:
+			case BVTermType::RROTATE:
+			case BVTermType::EXT_U:
+			case BVTermType::EXT_S:
+			case BVTermType::REPEAT:
+				*this << "((_ " << t.type() << " " << t.index() << ") " << t.operand() << ")";
+				break;
+			default:
+				if (typeIsUnary(t.type())) {
+					*this << "(" << t.type() << " " << t.operand() << ")";
+				} else {
+					*this << "(" << t.type() << " " << t.first() << " " << t.second() << ")";
+				}
+		}
+	}
+
+	void write(const BVConstraint& c) {
+		if (c.isAlwaysConsistent()) {
+			*this << true;
+		} else if (c.isAlwaysInconsistent()) {
+			*this << false;
+		} else if (c.relation() == BVCompareRelation::NEQ) {
+			*this << "(not (= " << c.lhs() << " " << c.rhs() << "))";
+		} else {
+			*this << "(" << c.relation() << " " << c.lhs() << " " << c.rhs() << ")";
+		}
+	}
+
 	template<typename Pol>
 	void write(const Constraint<Pol>& c) {
 		if (c.relation() == Relation::NEQ) {
-- 
2.43.0


From 9cac60310cabbe9ff27adfa27055371f565dbc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:20:48 +0000
Subject: [PATCH 77/84] fix: sample between algebraic numbers with overlapping
 intervals

Numbers like the square roots of two and three, both isolated in (1, 2),
made the function fail an assertion. The intervals are now refined until
they are disjoint.
---
 src/carl/ran/interval/ran_interval.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/carl/ran/interval/ran_interval.h b/src/carl/ran/interval/ran_interval.h
index e4b61de..04438fc 100644
--- a/src/carl/ran/interval/ran_interval.h
+++ b/src/carl/ran/interval/ran_interval.h
@@ -325,7 +325,11 @@ template<typename Number>
 Number sample_between(const real_algebraic_number_interval<Number>& lower, const real_algebraic_number_interval<Number>& upper) {
 	lower.refine_using(upper.interval_int().lower());
 	upper.refine_using(lower.interval_int().upper());
-	assert(lower.interval_int().upper() <= upper.interval_int().lower());
+	assert(lower < upper);
+	while (lower.interval_int().upper() > upper.interval_int().lower()) {
+		lower.refine();
+		upper.refine();
+	}
 	if (lower.is_numeric()) {
 		return sample_between(lower.value(), upper);
 	} else if (upper.is_numeric()) {
-- 
2.43.0


From ba45d01be8d1c53320356dff370e87b81a6f70b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:22:52 +0000
Subject: [PATCH 78/84] fix: do not share critical pairs between assigned
 Groebner procedures

After an assignment both procedures used the same set of pairs. When the
computation of one stopped early, the other one found pairs of generators
it does not have.
---
 src/carl/groebner/gb-buchberger/Buchberger.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/carl/groebner/gb-buchberger/Buchberger.h b/src/carl/groebner/gb-buchberger/Buchberger.h
index d355ec7..0cdf7c0 100644
--- a/src/carl/groebner/gb-buchberger/Buchberger.h
+++ b/src/carl/groebner/gb-buchberger/Buchberger.h
@@ -119,7 +119,8 @@ public:
 	}
 	void setCriticalPairs(const std::shared_ptr<CritPairs>& criticalPairs)
 	{
-		pCritPairs = criticalPairs;
+		// The pairs change during the calculation, hence they must not be shared.
+		pCritPairs.reset(new CritPairs(*criticalPairs));
 	}
 
 	//std::list<std::pair<BitVector, BitVector> > reduceInput();
-- 
2.43.0


From 5c2a91bef76ba270a5854c8f8b7b278b68435ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:25:05 +0000
Subject: [PATCH 79/84] fix: make ideals assignable

The divisor lookup holds references, hence it cannot be assigned. It already
refers to the members of the ideal and only has to be reset.
---
 src/carl/groebner/Ideal.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/carl/groebner/Ideal.h b/src/carl/groebner/Ideal.h
index 8d96bad..efcdd6b 100644
--- a/src/carl/groebner/Ideal.h
+++ b/src/carl/groebner/Ideal.h
@@ -58,7 +58,6 @@ public:
         if(this == &rhs) return *this;
         this->mGenerators.assign(rhs.mGenerators.begin(), rhs.mGenerators.end());
         this->mEliminated = rhs.mEliminated;
-		this->mDivisorLookup = Datastructure<Polynomial>(mGenerators, mEliminated, mTermOrder);
         removeEliminated();
 		mDivisorLookup.reset();
         return *this;
-- 
2.43.0


From 441a56ca1fbbb6ded9c06f1f0d2bf5d9c3c0c95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:29:28 +0000
Subject: [PATCH 80/84] fix: make double intervals from contradictory rational
 bounds empty

---
 src/carl/interval/Interval.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/carl/interval/Interval.h b/src/carl/interval/Interval.h
index 59af4f9..7b31b43 100644
--- a/src/carl/interval/Interval.h
+++ b/src/carl/interval/Interval.h
@@ -623,7 +623,13 @@ namespace carl
             double dRight = carl::roundUp(upper, false);
             if (dLeft == -std::numeric_limits<double>::infinity()) mLowerBoundType = BoundType::INFTY;
             if (dRight == std::numeric_limits<double>::infinity()) mUpperBoundType = BoundType::INFTY;
-            if (mLowerBoundType == BoundType::INFTY && mUpperBoundType == BoundType::INFTY)
+            if (lowerBoundType != BoundType::INFTY && upperBoundType != BoundType::INFTY && (lower > upper || (lower == upper && (lowerBoundType == BoundType::STRICT || upperBoundType == BoundType::STRICT))))
+            {
+                mLowerBoundType = BoundType::STRICT;
+                mUpperBoundType = BoundType::STRICT;
+                mContent = BoostInterval(carl::constant_zero<Num>().get());
+            }
+            else if (mLowerBoundType == BoundType::INFTY && mUpperBoundType == BoundType::INFTY)
             {
                 mContent = BoostInterval(carl::constant_zero<Num>().get());
             }
@@ -635,12 +641,6 @@ namespace carl
             {
                 mContent = BoostInterval(Num(dLeft));
             }
-            else if ((lower == upper && lowerBoundType != upperBoundType) || lower > upper)
-            {
-                mLowerBoundType = BoundType::STRICT;
-                mUpperBoundType = BoundType::STRICT;
-                mContent = BoostInterval(carl::constant_zero<Num>().get());
-            }
             else
             {
                 mContent = BoostInterval(Num(dLeft), Num(dRight));
-- 
2.43.0


From 97f4c515a67582b715939b8783657bc33d3253c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:04:09 +0000
Subject: [PATCH 81/84] fix: compare pointers by their targets in not_equal_to,
 greater and hash

---
 src/carl/util/pointerOperations.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/carl/util/pointerOperations.h b/src/carl/util/pointerOperations.h
index b86f7a5..ff112fa 100644
--- a/src/carl/util/pointerOperations.h
+++ b/src/carl/util/pointerOperations.h
@@ -13,6 +13,7 @@
 
 #pragma once
 
+#include <cassert>
 #include <functional>
 #include <memory>
 
@@ -75,14 +76,14 @@ struct not_equal_to {
 template<typename T, bool mayBeNull>
 struct not_equal_to<T*, mayBeNull> {
 	bool operator()(const T* lhs, const T* rhs) const {
-		return !equal_to<T, mayBeNull>()(lhs, rhs);
+		return !equal_to<T*, mayBeNull>()(lhs, rhs);
 	}
 };
 
 template<typename T, bool mayBeNull>
 struct not_equal_to<std::shared_ptr<T>, mayBeNull> {
 	bool operator()(const std::shared_ptr<const T>& lhs, const std::shared_ptr<const T>& rhs) const {
-		return !equal_to<T, mayBeNull>()(lhs, rhs);
+		return !equal_to<std::shared_ptr<T>, mayBeNull>()(lhs, rhs);
 	}
 };
 
@@ -143,14 +144,14 @@ struct greater {
 template<typename T, bool mayBeNull>
 struct greater<T*, mayBeNull> {
 	bool operator()(const T* lhs, const T* rhs) const {
-		return less<T, mayBeNull>()(rhs, lhs);
+		return less<T*, mayBeNull>()(rhs, lhs);
 	}
 };
 
 template<typename T, bool mayBeNull>
 struct greater<std::shared_ptr<T>, mayBeNull> {
 	bool operator()(const std::shared_ptr<const T>& lhs, const std::shared_ptr<const T>& rhs) const {
-		return less<T, mayBeNull>()(rhs, lhs);
+		return less<std::shared_ptr<T>, mayBeNull>()(rhs, lhs);
 	}
 };
 
@@ -162,8 +163,8 @@ struct greater<std::shared_ptr<T>, mayBeNull> {
 template<typename T, bool mayBeNull = true>
 struct hash {
 	std::hash<T> _hash;
-	bool operator()(const T& lhs, const T& rhs) const {
-		return _hash(lhs, rhs);
+	std::size_t operator()(const T& t) const {
+		return _hash(t);
 	}
 };
 
-- 
2.43.0


From 5c9884b5ffd04ce05c5d45ec5b0f4793bbf4b47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:04:09 +0000
Subject: [PATCH 82/84] fix: compare the components of algebraic points as
 algebraic numbers

---
 src/carl/ran/RealAlgebraicPoint.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/carl/ran/RealAlgebraicPoint.h b/src/carl/ran/RealAlgebraicPoint.h
index b0dfbbd..657addb 100644
--- a/src/carl/ran/RealAlgebraicPoint.h
+++ b/src/carl/ran/RealAlgebraicPoint.h
@@ -116,9 +116,9 @@ public:
  * Check if two RealAlgebraicPoints are equal.
  */
 template<typename Number>
-bool operator==(RealAlgebraicPoint<Number>& lhs, RealAlgebraicPoint<Number>& rhs) {
+bool operator==(const RealAlgebraicPoint<Number>& lhs, const RealAlgebraicPoint<Number>& rhs) {
 	if (lhs.dim() != rhs.dim()) return false;
-	std::not_equal_to<Number> neq;
+	std::not_equal_to<RealAlgebraicNumber<Number>> neq;
 	for (std::size_t i = 0; i < lhs.dim(); ++i) {
 		if (neq(lhs[i], rhs[i])) return false;
 	}
-- 
2.43.0


From 43cc75c0d5c5eaf1225bd19a90828488c790c848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:04:09 +0000
Subject: [PATCH 83/84] fix: make greatest common divisors with terms and
 monomials compile

---
 src/carl/core/polynomialfunctions/GCD.h      | 8 +++++---
 src/carl/core/polynomialfunctions/GCD_Term.h | 2 --
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/carl/core/polynomialfunctions/GCD.h b/src/carl/core/polynomialfunctions/GCD.h
index 88e26e0..040f68d 100644
--- a/src/carl/core/polynomialfunctions/GCD.h
+++ b/src/carl/core/polynomialfunctions/GCD.h
@@ -36,13 +36,15 @@ template<typename C, typename O, typename P>
 Monomial::Arg gcd(const MultivariatePolynomial<C,O,P>& a, const Monomial::Arg& b) {
 	if (!b) return nullptr;
 	assert(!isZero(a));
-	VariablesInformation<false, MultivariatePolynomial<C,O,P>> varinfo = a.getVarInfo();
+	auto varinfo = a.template getVarInfo<false>();
 	std::vector<std::pair<Variable, exponent>> vepairs;
 	for (const auto& ve : *b) {
-		if (varinfo.getVarInfo(ve.first)->occurence() == a.nrTerms()) {
-			vepairs.push_back(ve.first, std::min(varinfo.getVarInfo(ve.first)->minDegree(), ve.second));
+		const auto* info = varinfo.getVarInfo(ve.first);
+		if (info != nullptr && info->occurence() == a.nrTerms()) {
+			vepairs.emplace_back(ve.first, std::min(exponent(info->minDegree()), ve.second));
 		}
 	}
+	if (vepairs.empty()) return nullptr;
 	return createMonomial(std::move(vepairs));
 }
 
diff --git a/src/carl/core/polynomialfunctions/GCD_Term.h b/src/carl/core/polynomialfunctions/GCD_Term.h
index 1ef3460..3eebbe6 100644
--- a/src/carl/core/polynomialfunctions/GCD_Term.h
+++ b/src/carl/core/polynomialfunctions/GCD_Term.h
@@ -27,5 +27,3 @@ Term<Coeff> gcd(const Term<Coeff>& t1, const Term<Coeff>& t2) {
 	);
 }
 }
-
-}
\ No newline at end of file
-- 
2.43.0


From 8708e0dc6655a26d0a7cca6b639a2213d436ead1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:13:27 +0000
Subject: [PATCH 84/84] fix: simplify rational functions over factorized
 polynomials with the rests of the gcd

Dividing after the gcd relied on the refined factorizations, which the cache drops if the same polynomial is already known without them. A common factor then remained in the simplified function.
---
 src/carl-extpolys/RationalFunction.tpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/carl-extpolys/RationalFunction.tpp b/src/carl-extpolys/RationalFunction.tpp
index 911aa68..5f63f14 100644
--- a/src/carl-extpolys/RationalFunction.tpp
+++ b/src/carl-extpolys/RationalFunction.tpp
@@ -51,10 +51,17 @@ void RationalFunction<Pol, AS>::eliminateCommonFactor(bool _justNormalize) {
 	mPolynomialQuotient->second *= cpFactorDen;
 	CoeffType cpFactor(std::move(cpFactorDen / cpFactorNom));
 	if (!_justNormalize && !denominatorAsPolynomial().isConstant()) {
-		carl::gcd(nominatorAsPolynomial(), denominatorAsPolynomial());
-		auto ret = carl::lazyDiv(nominatorAsPolynomial(), denominatorAsPolynomial());
-		mPolynomialQuotient->first = std::move(ret.first);
-		mPolynomialQuotient->second = std::move(ret.second);
+		if constexpr (needs_cache<Pol>::value) {
+			// The cache does not necessarily keep the refined factorizations, hence use the rests instead of dividing afterwards.
+			Pol nomRest, denRest;
+			carl::gcd(nominatorAsPolynomial(), denominatorAsPolynomial(), nomRest, denRest);
+			mPolynomialQuotient->first = std::move(nomRest);
+			mPolynomialQuotient->second = std::move(denRest);
+		} else {
+			auto ret = carl::lazyDiv(nominatorAsPolynomial(), denominatorAsPolynomial());
+			mPolynomialQuotient->first = std::move(ret.first);
+			mPolynomialQuotient->second = std::move(ret.second);
+		}
 		CoeffType cpFactorNom(nominatorAsPolynomial().coprimeFactor());
 		CoeffType cpFactorDen(denominatorAsPolynomial().coprimeFactor());
 		mPolynomialQuotient->first *= cpFactorNom;
-- 
2.43.0

