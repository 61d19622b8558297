From 40fb5264e28f2ae54a31d28bdf79f364d6075384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:14 +0000
Subject: [PATCH 01/16] fix: view_vector assignment from an aliasing swizzle

vv = vv.yx copied element by element into the storage it was still
reading from, so the second element saw the already overwritten first one.
---
 include/dsga.hxx | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 940621c..dd7460a 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -5876,7 +5876,11 @@ namespace dsga
 		requires Writable && Mutable && implicitly_convertible_to<U, T>
 		constexpr view_vector & operator =(const vector_base<W, U, Count, D> &other) & noexcept
 		{
-			std::copy(other.begin(), other.end(), store);
+			// set() takes its arguments by value, so other is allowed to alias this view_vector's own storage
+			[&]<std::size_t ...Js>(std::index_sequence<Js...>) noexcept
+			{
+				this->set(other[Js]...);
+			}(std::make_index_sequence<Count>{});
 			return *this;
 		}
 
@@ -5884,7 +5888,11 @@ namespace dsga
 		requires Writable && Mutable && implicitly_convertible_to<U, T>
 		constexpr view_vector & operator =(vector_base<W, U, Count, D> &&other) & noexcept
 		{
-			std::copy(other.begin(), other.end(), store);
+			// set() takes its arguments by value, so other is allowed to alias this view_vector's own storage
+			[&]<std::size_t ...Js>(std::index_sequence<Js...>) noexcept
+			{
+				this->set(other[Js]...);
+			}(std::make_index_sequence<Count>{});
 			return *this;
 		}
 	};
-- 
2.43.0


From 0777f823d2dfbd396c286623a2c9310bfad5f6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:14 +0000
Subject: [PATCH 02/16] fix: let swizzle iterators be advanced to end()

begin() + Count and end() - 0 are valid random access iterator operations,
but += and -= asserted that the result is dereferenceable.
---
 include/dsga.hxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index dd7460a..22aad20 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -2403,7 +2403,7 @@ namespace dsga
 
 		constexpr indexed_vector_const_iterator &operator +=(const int offset) noexcept
 		{
-			dsga_constexpr_assert(((mapper_index + offset) >= begin_index) && ((mapper_index + offset) < end_index), "offset not in range");
+			dsga_constexpr_assert(((mapper_index + offset) >= begin_index) && ((mapper_index + offset) <= end_index), "offset not in range");
 
 			mapper_index += offset;
 			return *this;
@@ -2411,7 +2411,7 @@ namespace dsga
 
 		constexpr indexed_vector_const_iterator &operator -=(const int offset) noexcept
 		{
-			dsga_constexpr_assert(((mapper_index - offset) >= begin_index) && ((mapper_index - offset) < end_index), "offset not in range");
+			dsga_constexpr_assert(((mapper_index - offset) >= begin_index) && ((mapper_index - offset) <= end_index), "offset not in range");
 
 			mapper_index -= offset;
 			return *this;
@@ -2665,7 +2665,7 @@ namespace dsga
 
 		constexpr indexed_view_const_iterator &operator +=(const int offset) noexcept
 		{
-			dsga_constexpr_assert(((mapper_index + offset) >= begin_index) && ((mapper_index + offset) < end_index), "offset not in range");
+			dsga_constexpr_assert(((mapper_index + offset) >= begin_index) && ((mapper_index + offset) <= end_index), "offset not in range");
 
 			mapper_index += offset;
 			return *this;
@@ -2673,7 +2673,7 @@ namespace dsga
 
 		constexpr indexed_view_const_iterator &operator -=(const int offset) noexcept
 		{
-			dsga_constexpr_assert(((mapper_index - offset) >= begin_index) && ((mapper_index - offset) < end_index), "offset not in range");
+			dsga_constexpr_assert(((mapper_index - offset) >= begin_index) && ((mapper_index - offset) <= end_index), "offset not in range");
 
 			mapper_index -= offset;
 			return *this;
-- 
2.43.0


From 8af2c44fb7ac39ce7ff4a883c56ba72d42e519e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:53 +0000
Subject: [PATCH 03/16] fix: free swap() of overlapping view_wrappers throws
 instead of terminating

view_wrapper::swap() reports overlapping views with std::range_error, which
could not leave the noexcept free function.
---
 include/dsga.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 22aad20..605072e 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -2037,7 +2037,7 @@ namespace dsga
 
 	template <bool Mutable, dimensional_scalar T, std::size_t S>
 	requires Mutable
-	constexpr void swap(view_wrapper<Mutable, T, S> &lhs, view_wrapper<Mutable, T, S> &rhs) noexcept
+	constexpr void swap(view_wrapper<Mutable, T, S> &lhs, view_wrapper<Mutable, T, S> &rhs)
 	{
 		lhs.swap(rhs);
 	}
-- 
2.43.0


From 9b098ac677c317955deb3748ae5bd2be83ff5792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:53 +0000
Subject: [PATCH 04/16] fix: signed overflow in vector shift() by INT_MIN

---
 include/dsga.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 605072e..20346c9 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -2208,7 +2208,7 @@ namespace dsga
 			}
 			else if (by < 0)
 			{
-				int count = -by > max_val ? max_val : -by;
+				int count = by < -max_val ? max_val : -by;
 				std::shift_right(copy.begin(), copy.end(), count);
 				std::ranges::fill_n(copy.begin(), count, T(0));
 			}
-- 
2.43.0


From 1c971cf0a5f3eb3b7d09d4d81f9b67b6eb81e27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:53 +0000
Subject: [PATCH 05/16] fix: compare 64-bit integer vectors exactly

std::isless() and friends convert integral arguments to double, so lessThan()
and its siblings gave wrong answers for long long and unsigned long long
values which round to the same double.
---
 include/dsga.hxx | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 20346c9..cf50d5c 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -7022,7 +7022,10 @@ namespace dsga
 
 		constexpr inline auto less_op = []<non_bool_scalar T>(T x, T y) noexcept -> bool
 		{
-			return std::isless(x, y);
+			if constexpr (std::integral<T>)
+				return x < y;
+			else
+				return std::isless(x, y);
 		};
 
 		template <bool W1, non_bool_scalar T, std::size_t C, typename D1, bool W2, typename D2>
@@ -7041,7 +7044,10 @@ namespace dsga
 
 		constexpr inline auto less_equal_op = []<non_bool_scalar T>(T x, T y) noexcept -> bool
 		{
-			return std::islessequal(x, y);
+			if constexpr (std::integral<T>)
+				return x <= y;
+			else
+				return std::islessequal(x, y);
 		};
 
 		template <bool W1, non_bool_scalar T, std::size_t C, typename D1, bool W2, typename D2>
@@ -7060,7 +7066,10 @@ namespace dsga
 
 		constexpr inline auto greater_op = []<non_bool_scalar T>(T x, T y) noexcept -> bool
 		{
-			return std::isgreater(x, y);
+			if constexpr (std::integral<T>)
+				return x > y;
+			else
+				return std::isgreater(x, y);
 		};
 
 		template <bool W1, non_bool_scalar T, std::size_t C, typename D1, bool W2, typename D2>
@@ -7079,7 +7088,10 @@ namespace dsga
 
 		constexpr inline auto greater_equal_op = []<non_bool_scalar T>(T x, T y) noexcept -> bool
 		{
-			return std::isgreaterequal(x, y);
+			if constexpr (std::integral<T>)
+				return x >= y;
+			else
+				return std::isgreaterequal(x, y);
 		};
 
 		template <bool W1, non_bool_scalar T, std::size_t C, typename D1, bool W2, typename D2>
-- 
2.43.0


From d9f153df51786dad0d2bc51ea10de27bdc9ec69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:53 +0000
Subject: [PATCH 06/16] fix: fract() of large integral values is zero

fract() returned its argument for every finite value too large to have a
fractional part, e.g. fract(8388609.0f) was 8388609.
---
 include/dsga.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index cf50d5c..f2a43b0 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -1042,9 +1042,9 @@ namespace dsga
 				template <std::floating_point T>
 				constexpr T constexpr_fract(T value) noexcept
 				{
-					// screen out unnecessary input
+					// screen out unnecessary input, finite values here are integral and have no fractional part
 					if (fails_fractional_input_constraints(value))
-						return value;
+						return isfinite(value) ? T(0) : value;
 
 					return relaxed::fract(value);
 				}
-- 
2.43.0


From e53cd978b369fa4994720e9ff52a86a4b6e168aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:53 +0000
Subject: [PATCH 07/16] fix: roundEven() and constant evaluated round() of
 values just below one half

value + 0.5 rounds up to 1 for the largest value below 0.5, so
roundEven(0.49999997f) was 1.
---
 include/dsga.hxx | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index f2a43b0..8649656 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -602,14 +602,20 @@ namespace dsga
 			template <std::floating_point T>
 			constexpr T round(T value) noexcept
 			{
-				// zero could be handled either place, but here it is with the negative values.
+				// adding 0.5 before truncating can round up to the next integral value,
+				// e.g., for the largest value less than 0.5, but this difference is exact.
+				const T truncated_value = trunc(value);
+				const T remainder = value - truncated_value;
 
 				// positive value, taking care of halfway case.
-				if (value > T(0))
-					return trunc(value + T(0.5f));
+				if (remainder >= T(0.5f))
+					return truncated_value + T(1.0f);
+
+				// negative value, taking care of halfway case.
+				if (remainder <= T(-0.5f))
+					return truncated_value - T(1.0f);
 
-				// negative or zero value, taking care of halfway case.
-				return trunc(value - T(0.5f));
+				return truncated_value;
 			}
 
 			//
@@ -653,14 +659,7 @@ namespace dsga
 				if (is_halfway && is_even)
 					return trunc_value;
 
-				// zero could be handled either place, but here it is with the negative values.
-
-				// positive value, taking care of halfway case.
-				if (value > T(0))
-					return trunc(value + T(0.5f));
-
-				// negative or zero value, taking care of halfway case.
-				return trunc(value - T(0.5f));
+				return round(value);
 			}
 
 			//
-- 
2.43.0


From be84b3c6b5d9074abd176b816ccdf3cd909b7213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:53 +0000
Subject: [PATCH 08/16] fix: abs() of an unsigned zero is not undefined
 behavior

---
 include/dsga.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 8649656..db34493 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -1304,7 +1304,7 @@ namespace dsga
 			template <std::integral T>
 			constexpr T abs(T value) noexcept
 			{
-				cxcm_constexpr_assert(value != std::numeric_limits<T>::min(), "undefined behavior in abs()");
+				cxcm_constexpr_assert(std::unsigned_integral<T> || value != std::numeric_limits<T>::min(), "undefined behavior in abs()");
 
 				return relaxed::abs(value);
 			}
@@ -1321,7 +1321,7 @@ namespace dsga
 			template <std::integral T>
 			constexpr double fabs(T value) noexcept
 			{
-				cxcm_constexpr_assert(value != std::numeric_limits<T>::min(), "undefined behavior in fabs()");
+				cxcm_constexpr_assert(std::unsigned_integral<T> || value != std::numeric_limits<T>::min(), "undefined behavior in fabs()");
 
 				return relaxed::fabs(value);
 			}
-- 
2.43.0


From 548922bec1ddbba60b903d1c96d3a61998647148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:53 +0000
Subject: [PATCH 09/16] fix: abs() of negative infinity is infinity

abs() and fabs() returned infinities and zeros unchanged, sign included.
---
 include/dsga.hxx | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index db34493..8fc7afc 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -1293,9 +1293,13 @@ namespace dsga
 			template <std::floating_point T>
 			constexpr T abs(T value) noexcept
 			{
-				if (!detail::isnormal_or_subnormal(value))
+				if (isnan(value))
 					return value;
 
+				// either zero gives positive zero
+				if (value == T(0))
+					return T(0);
+
 				return relaxed::abs(value);
 			}
 
@@ -1312,9 +1316,13 @@ namespace dsga
 			template <std::floating_point T>
 			constexpr T fabs(T value) noexcept
 			{
-				if (!detail::isnormal_or_subnormal(value))
+				if (isnan(value))
 					return value;
 
+				// either zero gives positive zero
+				if (value == T(0))
+					return T(0);
+
 				return relaxed::fabs(value);
 			}
 
-- 
2.43.0


From a0ac442f5dea4d691b72eb479d8ae88930b4fced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:21 +0000
Subject: [PATCH 10/16] fix: inversesqrt() and constant evaluated sqrt() of
 very small and very large doubles

inversesqrt() was NaN or wrong below about 2^-997, the fast version was wrong
for subnormal values, and the constant evaluated sqrt() did not converge for
subnormal values.
---
 include/dsga.hxx | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 8fc7afc..cb17159 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -1152,6 +1152,15 @@ namespace dsga
 						return -std::numeric_limits<T>::quiet_NaN();
 					}
 
+					// scaling by even powers of two is exact, and keeps the intermediate values away from underflow and overflow
+					if constexpr (std::is_same_v<T, double>)
+					{
+						if (value < 0x1p-900)
+							return relaxed::sqrt(value * 0x1p200) * 0x1p-100;
+						else if (value > 0x1p900)
+							return relaxed::sqrt(value * 0x1p-200) * 0x1p100;
+					}
+
 					return relaxed::sqrt(value);
 				}
 
@@ -1215,6 +1224,15 @@ namespace dsga
 						return -std::numeric_limits<T>::quiet_NaN();
 					}
 
+					// scaling by even powers of two is exact, and keeps the intermediate values away from underflow and overflow
+					if constexpr (std::is_same_v<T, double>)
+					{
+						if (value < 0x1p-900)
+							return relaxed::rsqrt(value * 0x1p200) * 0x1p100;
+						else if (value > 0x1p900)
+							return relaxed::rsqrt(value * 0x1p-200) * 0x1p-100;
+					}
+
 					return relaxed::rsqrt(value);
 				}
 
@@ -1274,6 +1292,15 @@ namespace dsga
 						return -std::numeric_limits<T>::quiet_NaN();
 					}
 
+					// scaling by even powers of two is exact, and keeps the intermediate values away from underflow and overflow
+					if constexpr (std::is_same_v<T, double>)
+					{
+						if (value < 0x1p-900)
+							return relaxed::fast_rsqrt(value * 0x1p200) * 0x1p100;
+						else if (value > 0x1p900)
+							return relaxed::fast_rsqrt(value * 0x1p-200) * 0x1p-100;
+					}
+
 					return relaxed::fast_rsqrt(value);
 				}
 
-- 
2.43.0


From 404cb36f84cee242e97406819f97fcfe1ab9625a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:48 +0000
Subject: [PATCH 11/16] fix: constant evaluated trunc(), ceil() and round()
 keep the sign of zero

Like the standard functions used at runtime do.
---
 include/dsga.hxx | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index cb17159..c9b3603 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -975,7 +975,9 @@ namespace dsga
 					if (fails_fractional_input_constraints(value))
 						return value;
 
-					return relaxed::trunc(value);
+					// a negative value that rounds to zero keeps its sign
+					const T result = relaxed::trunc(value);
+					return (value < T(0) && result == T(0)) ? -T(0) : result;
 				}
 
 				//
@@ -1007,7 +1009,9 @@ namespace dsga
 					if (fails_fractional_input_constraints(value))
 						return value;
 
-					return relaxed::ceil(value);
+					// a negative value that rounds to zero keeps its sign
+					const T result = relaxed::ceil(value);
+					return (value < T(0) && result == T(0)) ? -T(0) : result;
 				}
 
 				//
@@ -1031,7 +1035,9 @@ namespace dsga
 					else if (value == -limits::largest_fractional_value<T>)			// we technically don't have to do this for negative case (one more number in negative range)
 						return value - T(0.5f);
 
-					return relaxed::round(value);
+					// a negative value that rounds to zero keeps its sign
+					const T result = relaxed::round(value);
+					return (value < T(0) && result == T(0)) ? -T(0) : result;
 				}
 
 				//
-- 
2.43.0


From b53d9ec7633fc4a8669cfbaad93a1dd6538ae8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:48 +0000
Subject: [PATCH 12/16] fix: constant evaluated fmod() of large quotients

x - trunc(x / y) * y is inexact for large quotients, and not a constant
expression once the quotient does not fit the integer type used by trunc().
---
 include/dsga.hxx | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index c9b3603..e7a1ef1 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -1075,7 +1075,22 @@ namespace dsga
 					if (y == 0)
 						return std::numeric_limits<T>::quiet_NaN();
 
-					return relaxed::fmod(x, y);
+					// exact long division, as subtracting a rounded quotient is only right for small quotients
+					const T divisor = relaxed::abs(y);
+					T remainder = relaxed::abs(x);
+					T multiple = divisor;
+					while (multiple <= remainder - multiple)
+						multiple += multiple;
+
+					while (multiple >= divisor)
+					{
+						if (remainder >= multiple)
+							remainder -= multiple;
+
+						multiple *= T(0.5f);
+					}
+
+					return (x < T(0)) ? -remainder : remainder;
 				}
 
 				//
-- 
2.43.0


From 31fc678ca8b794f6378bd1943c199d97ebaed3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:48 +0000
Subject: [PATCH 13/16] fix: modf() with an integral part that aliases the
 argument

modf(v, v) overwrote v before the fraction was computed from it.
---
 include/dsga.hxx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index e7a1ef1..5fccd77 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -7837,12 +7837,12 @@ namespace dsga
 		[[nodiscard]] constexpr auto modf(const vector_base<W1, T, C, D1> &arg,
 										  vector_base<W2, T, C, D2> &i) noexcept
 		{
-			if constexpr (C == 1)
-				i.as_derived() = basic_vector<T, 1>(trunc(arg));
-			else
-				i.as_derived() = trunc(arg);
+			// i is allowed to alias arg
+			const auto whole = basic_vector<T, C>(trunc(arg));
+			const auto fraction = machinery::apply_unitype_make(arg, whole, modf_op);
+			i.as_derived() = whole;
 
-			return machinery::apply_unitype_make(arg, i, modf_op);
+			return fraction;
 		}
 
 		template <floating_point_scalar T>
-- 
2.43.0


From 3404126d2b3367c490a1edf9a28c771e00a476bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:48 +0000
Subject: [PATCH 14/16] fix: views and their swizzles are components of vector
 constructors

They were accepted as components of matrix constructors only.
---
 include/dsga.hxx | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 5fccd77..b6bfd5f 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -3537,6 +3537,24 @@ namespace dsga
 		{
 		};
 
+		template <bool M, dimensional_scalar U, std::size_t C, dimensional_scalar T>
+		requires std::convertible_to<U, T>
+		struct valid_vector_component<basic_view<M, U, C>, T> : std::true_type
+		{
+		};
+
+		template <bool M, dimensional_scalar U, std::size_t S, std::size_t C, std::size_t ...Is, dimensional_scalar T>
+		requires std::convertible_to<U, T>
+		struct valid_vector_component<indexed_view<M, U, S, C, Is...>, T> : std::true_type
+		{
+		};
+
+		template <dimensional_scalar U, std::size_t C, dimensional_scalar T>
+		requires std::convertible_to<U, T>
+		struct valid_vector_component<view_vector<U, C>, T> : std::true_type
+		{
+		};
+
 		template <bool W, dimensional_scalar U, std::size_t C, typename D, dimensional_scalar T>
 		requires std::convertible_to<U, T>
 		struct valid_vector_component<vector_base<W, U, C, D>, T> : std::true_type
-- 
2.43.0


From ff1eacaa970afcf4a109d7e42f1bf069262b5dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:43 +0000
Subject: [PATCH 15/16] fix: assignment between swizzles of the same name only
 writes the swizzled elements

---
 include/dsga.hxx | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index b6bfd5f..128baf2 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -2944,6 +2944,25 @@ namespace dsga
 			return *this;
 		}
 
+		// assigning from a mutable lvalue of this same swizzle type would otherwise select the implicit copy assignment operator,
+		// which copies the whole storage and not just the swizzled elements. the implicit operators need to stay trivial for
+		// basic_vector to be trivially copyable, so they are still the ones used for const and rvalue sources.
+		template <typename Other>
+		requires Writable && Mutable && std::same_as<Other, indexed_vector>
+		constexpr indexed_vector &operator =(Other &other) & noexcept
+		{
+			[&]<std::size_t ...Js>(std::index_sequence<Js ...>) noexcept
+			{
+				set(other[Js]...);
+			}(std::make_index_sequence<Count>{});
+
+			return *this;
+		}
+
+		template <typename Other>
+		requires (!(Writable && Mutable)) && std::same_as<Other, indexed_vector>
+		constexpr indexed_vector &operator =(Other &other) & noexcept = delete;
+
 		// scalar assignment
 		// assignment for some scalar type that converts to T and is only for indexed_vector of [Count == 1]
 		template <dimensional_scalar U>
-- 
2.43.0


From 070af968ea5afb9e1b123304c9f93d88a094eff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:13 +0000
Subject: [PATCH 16/16] fix: copies and assignments of a view_vector follow its
 lanes after reset()

---
 include/dsga.hxx | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 128baf2..766c63b 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -5909,11 +5909,11 @@ namespace dsga
 
 		constexpr view_vector(const view_vector &v) noexcept : basic_view<Mutable, T, Size>(store)
 		{
-			std::copy(v.store, v.store + Size, store);
+			std::copy(v.begin(), v.end(), store);			// v doesn't show v.store anymore after reset()
 		}
 		constexpr view_vector(view_vector &&v) noexcept : basic_view<Mutable, T, Size>(store)
 		{
-			std::copy(v.store, v.store + Size, store);
+			std::copy(v.begin(), v.end(), store);			// v doesn't show v.store anymore after reset()
 		}
 
 		template <typename U>
@@ -5955,12 +5955,20 @@ namespace dsga
 
 		constexpr view_vector & operator =(const view_vector &v) & noexcept requires Writable && Mutable
 		{
-			std::copy(v.store, v.store + Size, store);
+			// neither object shows its own store anymore after reset(). set() takes its arguments by value, so they may overlap
+			[&]<std::size_t ...Js>(std::index_sequence<Js...>) noexcept
+			{
+				this->set(v[Js]...);
+			}(std::make_index_sequence<Count>{});
 			return *this;
 		}
 		constexpr view_vector & operator =(view_vector &&v) & noexcept requires Writable && Mutable
 		{
-			std::copy(v.store, v.store + Size, store);
+			// neither object shows its own store anymore after reset(). set() takes its arguments by value, so they may overlap
+			[&]<std::size_t ...Js>(std::index_sequence<Js...>) noexcept
+			{
+				this->set(v[Js]...);
+			}(std::make_index_sequence<Count>{});
 			return *this;
 		}
 
-- 
2.43.0

