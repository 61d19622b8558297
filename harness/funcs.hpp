// Every operation of the public API on vectors, as a callable object.
#pragma once
#include "kinds.hpp"

namespace mon
{
	// domain of the operands
	enum domain { AnyLanes, PosFirst, Ordered23, Ordered12, ShiftCount };

#define MON_F1(Name, expr) \
	struct Name { static constexpr const char *name = #Name; static constexpr int arity = 1; static constexpr domain dom = AnyLanes; \
		template <typename A> static constexpr auto f(const A &a) -> decltype(expr) { return expr; } };
#define MON_F2(Name, d, expr) \
	struct Name { static constexpr const char *name = #Name; static constexpr int arity = 2; static constexpr domain dom = d; \
		template <typename A, typename B> static constexpr auto f(const A &a, const B &b) -> decltype(expr) { return expr; } };
#define MON_F3(Name, d, expr) \
	struct Name { static constexpr const char *name = #Name; static constexpr int arity = 3; static constexpr domain dom = d; \
		template <typename A, typename B, typename C> static constexpr auto f(const A &a, const B &b, const C &c) -> decltype(expr) { return expr; } };

	namespace fn
	{
		template <typename T> struct plus_three { T operator ()(T x) const { return static_cast<T>(x + T(3)); } };
		template <typename T> struct above_five { bool operator ()(T x) const { return x > T(5); } };
		template <> struct plus_three<bool> { bool operator ()(bool x) const { return !x; } };
		template <> struct above_five<bool> { bool operator ()(bool x) const { return x; } };
		template <typename A> using elem = std::remove_cvref_t<decltype(std::declval<const A &>()[0])>;

		template <typename T, std::size_t C, std::size_t R>
		dsga::basic_matrix<T, C, R> constant_matrix()
		{
			dsga::basic_matrix<T, C, R> m;
			for (std::size_t i = 0; i < C; ++i)
				for (std::size_t j = 0; j < R; ++j)
					m[i][j] = static_cast<T>(static_cast<int>((i * 7 + j * 3) % 11) - 4);
			return m;
		}

		MON_F1(radians, dsga::radians(a)) MON_F1(degrees, dsga::degrees(a)) MON_F1(sin, dsga::sin(a)) MON_F1(cos, dsga::cos(a)) MON_F1(tan, dsga::tan(a))
		MON_F1(asin, dsga::asin(a)) MON_F1(acos, dsga::acos(a)) MON_F1(atan, dsga::atan(a)) MON_F1(sinh, dsga::sinh(a)) MON_F1(cosh, dsga::cosh(a))
		MON_F1(tanh, dsga::tanh(a)) MON_F1(asinh, dsga::asinh(a)) MON_F1(acosh, dsga::acosh(a)) MON_F1(atanh, dsga::atanh(a)) MON_F1(exp, dsga::exp(a))
		MON_F1(exp2, dsga::exp2(a)) MON_F1(log, dsga::log(a)) MON_F1(log2, dsga::log2(a)) MON_F1(sqrt, dsga::sqrt(a)) MON_F1(inversesqrt, dsga::inversesqrt(a))
		MON_F1(fast_inversesqrt, dsga::fast_inversesqrt(a)) MON_F1(abs, dsga::abs(a)) MON_F1(sign, dsga::sign(a)) MON_F1(floor, dsga::floor(a))
		MON_F1(trunc, dsga::trunc(a)) MON_F1(round, dsga::round(a)) MON_F1(roundEven, dsga::roundEven(a)) MON_F1(ceil, dsga::ceil(a)) MON_F1(fract, dsga::fract(a))
		MON_F1(isnan, dsga::isnan(a)) MON_F1(isinf, dsga::isinf(a)) MON_F1(length, dsga::length(a)) MON_F1(normalize, dsga::normalize(a))
		MON_F1(floatBitsToInt, dsga::floatBitsToInt(a)) MON_F1(floatBitsToUint, dsga::floatBitsToUint(a)) MON_F1(doubleBitsToLongLong, dsga::doubleBitsToLongLong(a))
		MON_F1(doubleBitsToUlongLong, dsga::doubleBitsToUlongLong(a)) MON_F1(intBitsToFloat, dsga::intBitsToFloat(a)) MON_F1(uintBitsToFloat, dsga::uintBitsToFloat(a))
		MON_F1(longLongBitsToDouble, dsga::longLongBitsToDouble(a)) MON_F1(ulongLongBitsToDouble, dsga::ulongLongBitsToDouble(a))
		MON_F1(byteswap, dsga::byteswap(a)) MON_F1(unary_plus, +a) MON_F1(negate, -a) MON_F1(bit_not, ~a) MON_F1(compNot, dsga::compNot(a))
		MON_F1(any, dsga::any(a)) MON_F1(all, dsga::all(a)) MON_F1(none, dsga::none(a)) MON_F1(to_array, dsga::to_array(a))
		MON_F1(cross_matrix, dsga::cross_matrix(a)) MON_F1(diagonal_matrix, dsga::diagonal_matrix(a))
		MON_F1(m_shift1, a.shift(1)) MON_F1(m_shift_2, a.shift(-2)) MON_F1(m_shift0, a.shift(0)) MON_F1(m_shift9, a.shift(9)) MON_F1(m_cshift1, a.cshift(1)) MON_F1(m_cshift_1, a.cshift(-1)) MON_F1(m_cshift6, a.cshift(6))
		MON_F1(m_min, a.min()) MON_F1(m_max, a.max()) MON_F1(m_sum, a.sum()) MON_F1(m_length, a.length()) MON_F1(m_size, a.size())
		MON_F1(m_apply, a.apply(plus_three<elem<A>>{})) MON_F1(m_query, a.query(above_five<elem<A>>{}))
		MON_F1(m_first, elem<A>(*a.begin())) MON_F1(m_last, elem<A>(*a.rbegin()))
		MON_F1(swizzle1, dsga::swizzle(a, count_of<A> - 1)) MON_F1(swizzle3, dsga::swizzle(a, count_of<A> - 1, 0, count_of<A> / 2))
		MON_F1(convert, (dsga::basic_vector<elem<A>, count_of<A>>(a)))
		MON_F1(times_matrix2, (a * constant_matrix<elem<A>, 2, count_of<A>>())) MON_F1(times_matrix3, (a * constant_matrix<elem<A>, 3, count_of<A>>()))
		MON_F1(matrix_times, (constant_matrix<elem<A>, count_of<A>, 4>() * a))

		MON_F2(add, AnyLanes, a + b) MON_F2(subtract, AnyLanes, a - b) MON_F2(multiply, AnyLanes, a * b) MON_F2(divide, AnyLanes, a / b) MON_F2(modulus, AnyLanes, a % b)
		MON_F2(bit_and, AnyLanes, a & b) MON_F2(bit_or, AnyLanes, a | b) MON_F2(bit_xor, AnyLanes, a ^ b) MON_F2(shift_left, ShiftCount, a << b) MON_F2(shift_right, ShiftCount, a >> b)
		MON_F2(equals, AnyLanes, a == b) MON_F2(differs, AnyLanes, a != b) MON_F2(lessThan, AnyLanes, dsga::lessThan(a, b)) MON_F2(lessThanEqual, AnyLanes, dsga::lessThanEqual(a, b))
		MON_F2(greaterThan, AnyLanes, dsga::greaterThan(a, b)) MON_F2(greaterThanEqual, AnyLanes, dsga::greaterThanEqual(a, b)) MON_F2(equal, AnyLanes, dsga::equal(a, b))
		MON_F2(notEqual, AnyLanes, dsga::notEqual(a, b)) MON_F2(compAnd, AnyLanes, dsga::compAnd(a, b)) MON_F2(compOr, AnyLanes, dsga::compOr(a, b))
		MON_F2(atan2, AnyLanes, dsga::atan(a, b)) MON_F2(pow, PosFirst, dsga::pow(a, b)) MON_F2(mod, AnyLanes, dsga::mod(a, b)) MON_F2(min, AnyLanes, dsga::min(a, b))
		MON_F2(max, AnyLanes, dsga::max(a, b)) MON_F2(step, AnyLanes, dsga::step(a, b)) MON_F2(dot, AnyLanes, dsga::dot(a, b)) MON_F2(innerProduct, AnyLanes, dsga::innerProduct(a, b))
		MON_F2(cross, AnyLanes, dsga::cross(a, b)) MON_F2(distance, AnyLanes, dsga::distance(a, b)) MON_F2(reflect, AnyLanes, dsga::reflect(a, b))
		MON_F2(outerProduct, AnyLanes, dsga::outerProduct(a, b)) MON_F2(refract, AnyLanes, dsga::refract(a, b, elem<A>(0.75f)))
		MON_F2(min_s, AnyLanes, dsga::min(a, b[0])) MON_F2(max_s, AnyLanes, dsga::max(a, b[0])) MON_F2(mod_s, AnyLanes, dsga::mod(a, b[0])) MON_F2(step_s, AnyLanes, dsga::step(a[0], b))
		MON_F2(mix_s, AnyLanes, dsga::mix(a, b, elem<A>(0.25f)))
		MON_F2(build, AnyLanes, (dsga::basic_vector<elem<A>, count_of<A> + 1>(b[0], a))) MON_F2(build4, AnyLanes, (dsga::basic_vector<elem<A>, 4>(a, b)))

		MON_F3(clamp, Ordered23, dsga::clamp(a, b, c)) MON_F3(mix, AnyLanes, dsga::mix(a, b, c)) MON_F3(select, AnyLanes, dsga::mix(a, b, dsga::lessThan(b, c)))
		MON_F3(smoothstep, Ordered12, dsga::smoothstep(a, b, c)) MON_F3(fma, AnyLanes, dsga::fma(a, b, c)) MON_F3(faceforward, AnyLanes, dsga::faceforward(a, b, c))
		MON_F3(chain, AnyLanes, a + b * c) MON_F3(clamp_s, Ordered23, dsga::clamp(a, b[0], c[0]))
	}

// the operations of each arity
#define MON_FUNCTIONS1 \
	fn::radians, fn::degrees, fn::sin, fn::cos, fn::tan, fn::asin, fn::acos, fn::atan, fn::sinh, fn::cosh, fn::tanh, fn::asinh, fn::acosh, fn::atanh, \
	fn::exp, fn::exp2, fn::log, fn::log2, fn::sqrt, fn::inversesqrt, fn::fast_inversesqrt, fn::abs, fn::sign, fn::floor, fn::trunc, fn::round, \
	fn::roundEven, fn::ceil, fn::fract, fn::isnan, fn::isinf, fn::length, fn::normalize, fn::floatBitsToInt, fn::floatBitsToUint, \
	fn::doubleBitsToLongLong, fn::doubleBitsToUlongLong, fn::intBitsToFloat, fn::uintBitsToFloat, fn::longLongBitsToDouble, fn::ulongLongBitsToDouble, \
	fn::byteswap, fn::unary_plus, fn::negate, fn::bit_not, fn::compNot, fn::any, fn::all, fn::none, fn::to_array, fn::cross_matrix, fn::diagonal_matrix, \
	fn::m_shift1, fn::m_shift_2, fn::m_shift0, fn::m_shift9, fn::m_cshift1, fn::m_cshift_1, fn::m_cshift6, fn::m_min, fn::m_max, fn::m_sum, fn::m_length, \
	fn::m_size, fn::m_apply, fn::m_query, fn::m_first, fn::m_last, fn::swizzle1, fn::swizzle3, fn::convert, fn::times_matrix2, fn::times_matrix3, \
	fn::matrix_times
#define MON_FUNCTIONS2 \
	fn::add, fn::subtract, fn::multiply, fn::divide, fn::modulus, fn::bit_and, fn::bit_or, fn::bit_xor, fn::shift_left, fn::shift_right, fn::equals, \
	fn::differs, fn::lessThan, fn::lessThanEqual, fn::greaterThan, fn::greaterThanEqual, fn::equal, fn::notEqual, fn::compAnd, fn::compOr, fn::atan2, \
	fn::pow, fn::mod, fn::min, fn::max, fn::step, fn::dot, fn::innerProduct, fn::cross, fn::distance, fn::reflect, fn::outerProduct, fn::refract, \
	fn::min_s, fn::max_s, fn::mod_s, fn::step_s, fn::mix_s, fn::build, fn::build4
#define MON_FUNCTIONS3 \
	fn::clamp, fn::mix, fn::select, fn::smoothstep, fn::fma, fn::faceforward, fn::chain, fn::clamp_s

	// what a result is, as text: shape, element type and every bit
	template <typename V>
	void describe(const V &v, std::string &shape, std::vector<u64> &bits)
	{
		if constexpr (std::is_arithmetic_v<V>)
		{
			shape += tname<V>;
			bits.push_back(isnan_(v) ? 0x7ff8dead : bits_of(v));
		}
		else
		{
			shape += "[" + std::to_string(v.size()) + "]";
			for (std::size_t i = 0; i < static_cast<std::size_t>(v.size()); ++i)
			{
				std::string inner;
				describe(v[i], inner, bits);
				if (i == 0)
					shape += inner;
			}
		}
	}

	struct digest
	{
		std::string shape;
		std::vector<u64> bits;
		bool operator ==(const digest &) const = default;
		std::string text() const
		{
			std::string s = shape + "{";
			for (u64 b : bits) { char t[24]; std::snprintf(t, sizeof t, " %llx", b); s += t; }
			return s + " }";
		}
	};

	template <typename V>
	digest digest_of(const V &v)
	{
		digest d;
		describe(v, d.shape, d.bits);
		return d;
	}
}
