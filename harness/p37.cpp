// P37: what combines with what. Every program of a family (operator or function x element types x sizes x kinds) is put to the
// compiler, and its answer and the type it gives are judged by the documented rules of conversion.
//   WHAT 0: operators   1: conversion and assignment   2: functions   3: matrices   4: functions of two types   9: predicates, sequences, constants   ELEM
#include "ops.hpp"
#include "funcs.hpp"
using namespace mon;
using T = ELEM;

template <typename U> constexpr bool is_num = std::is_same_v<U, int> || std::is_same_v<U, unsigned> || std::is_same_v<U, long long> || std::is_same_v<U, unsigned long long> || std::is_same_v<U, unsigned long>
	|| std::is_same_v<U, float> || std::is_same_v<U, double>;
template <typename U> constexpr bool is_int = is_num<U> && std::is_integral_v<U>;
template <typename U> constexpr bool is_flt = std::is_floating_point_v<U>;
// numbers of the first type may become the second unasked
template <typename A, typename B> constexpr bool becomes = is_num<A> && is_num<B> && std::is_same_v<std::common_type_t<A, B>, B>;
template <typename A, typename B> constexpr bool related = becomes<A, B> || becomes<B, A>;

template <typename X, std::size_t N> using V = dsga::basic_vector<X, N>;

__attribute__((noinline)) void judge(bool accepted, bool expected, const char *what, const std::string &program)
{
	R.saw(hash_str(program.c_str()));
	if (accepted != expected)
		R.fail(R.sec + ":" + what + (accepted ? ":accepted" : ":rejected"), program + (accepted ? " is accepted, which the rules forbid" : " is rejected, which the rules allow"));
}
__attribute__((noinline)) void judge_type(bool right, const char *what, const std::string &program)
{
	if (!right)
		R.fail(R.sec + ":" + what + ":type", program + " has another type than the rules say");
}

template <typename X> std::string tn() { return tname<X>; }
template <typename X, std::size_t N> std::string vn() { return std::string(tname<X>) + "[" + std::to_string(N) + "]"; }

template <typename Op> constexpr bool is_bit = std::is_same_v<Op, And> || std::is_same_v<Op, Or> || std::is_same_v<Op, Xor>;
template <typename Op, typename A, typename B> constexpr bool op_types = Op::integral_only ? (is_int<A> && is_int<B> && related<A, B> && (!is_bit<Op> || sizeof(A) == sizeof(B))) : related<A, B>;
template <typename Op, typename A, typename B> constexpr bool op_into_types = op_types<Op, A, B> && becomes<B, A>;

#if WHAT == 0
// clang++ misjudges equality where it is asked for within a lambda
template <typename A, typename B> constexpr bool can_equal = requires (const A &a, const B &b) { a == b; };
template <typename A, typename B> constexpr bool can_differ = requires (const A &a, const B &b) { a != b; };
// a result of one lane may be a scalar
template <typename Got, typename S, std::size_t N> constexpr bool is_result = std::is_same_v<std::remove_cvref_t<Got>, V<S, N>> || (N == 1 && std::is_same_v<std::remove_cvref_t<Got>, S>);
template <typename Op, typename A, typename B> constexpr bool can = requires (const A &a, const B &b) { Op::f(a, b); };
template <typename Op, typename A, typename B> constexpr bool can_into = requires (A &a, const B &b) { Op::g(a, b); };

template <typename Op, typename U, std::size_t N, std::size_t M, typename A, typename B>
void sizes(const std::string &kinds)
{
	constexpr bool fits = N == M || N == 1 || M == 1;
	const std::string program = vn<T, N>() + " " + Op::name + " " + vn<U, M>() + " (" + kinds + ")";
	// vectors of one lane turn into scalars where no operator fits, so nothing is rejected where both sides are one lane
	if constexpr (N > 1 || M > 1 || op_types<Op, T, U>)
	{
		judge(can<Op, A, B>, op_types<Op, T, U> && fits, "binary", program);
		if constexpr (op_types<Op, T, U> && fits && can<Op, A, B>)
		{
			using S = decltype(Op::f(std::declval<T>(), std::declval<U>()));
			judge_type(is_result<decltype(Op::f(std::declval<const A &>(), std::declval<const B &>())), S, (N > M ? N : M)>, "binary", program);
		}
	}
	if constexpr (N > 1)
		judge(can_into<Op, A, B>, op_into_types<Op, T, U> && (N == M || M == 1), "compound", program + ", in place");
}

template <typename Op, typename U, std::size_t n>
void scalars()
{
	{
		const std::string program = vn<T, n>() + " " + Op::name + " scalar " + tn<U>();
		if constexpr (n > 1 || op_types<Op, T, U>)
		{
			judge(can<Op, V<T, n>, U>, op_types<Op, T, U>, "vector-scalar", program);
			judge(can<Op, U, V<T, n>>, op_types<Op, U, T>, "scalar-vector", program + ", exchanged");
			if constexpr (op_types<Op, T, U> && can<Op, V<T, n>, U> && can<Op, U, V<T, n>>)
			{
				using S = decltype(Op::f(std::declval<T>(), std::declval<U>()));
				using S2 = decltype(Op::f(std::declval<U>(), std::declval<T>()));
				judge_type(is_result<decltype(Op::f(std::declval<const V<T, n> &>(), std::declval<const U &>())), S, n>, "vector-scalar", program);
				judge_type(is_result<decltype(Op::f(std::declval<const U &>(), std::declval<const V<T, n> &>())), S2, n>, "scalar-vector", program);
			}
		}
		if constexpr (n > 1)
		{
			judge(can_into<Op, V<T, n>, U>, op_into_types<Op, T, U>, "compound-scalar", program + ", in place");
			judge(!can_into<Op, const V<T, n>, U>, true, "compound-const", program + ", in place on a constant");
		}
	}
}

template <typename Op, typename U>
void pair()
{
	R.section(std::string("operator/") + Op::name + "/" + tname<T> + "," + tname<U>);
	for_sizes([&](auto n) { for_sizes([&](auto m) {
		sizes<Op, U, n, m, V<T, n>, V<U, m>>("vector, vector");
		if constexpr ((n() + m()) % 2 == 0)
			sizes<Op, U, n, m, V<T, n>, dsga::basic_view<false, U, m>>("vector, view");
		else
			sizes<Op, U, n, m, dsga::basic_view<true, T, n>, V<U, m>>("view, vector");
	}); });
	// swizzles of vectors of another size
	using s2 = decltype(std::declval<V<U, 4> &>().wy); using s3 = decltype(std::declval<V<U, 4> &>().zxy);
	sizes<Op, U, 2, 2, V<T, 2>, s2>("vector, swizzle");
	sizes<Op, U, 3, 2, V<T, 3>, s2>("vector, swizzle");
	sizes<Op, U, 2, 3, V<T, 2>, s3>("vector, swizzle");
	sizes<Op, U, 4, 3, V<T, 4>, s3>("vector, swizzle");
	scalars<Op, U, 1>(); scalars<Op, U, 2>(); scalars<Op, U, 3>(); scalars<Op, U, 4>();
}
template <typename U> void all_ops() { pair<Add, U>(); pair<Sub, U>(); pair<Mul, U>(); pair<Div, U>(); pair<Mod, U>(); pair<And, U>(); pair<Or, U>(); pair<Xor, U>(); pair<Shl, U>(); pair<Shr, U>(); }

void unary()
{
	R.section(std::string("unary/") + tname<T>);
	for_sizes([&](auto n) {
		if constexpr (n() > 1)
		{
			using X = V<T, n>;
			judge(requires (const X &a) { -a; }, is_num<T>, "-", "-" + vn<T, n>());
			judge(requires (const X &a) { +a; }, is_num<T>, "+", "+" + vn<T, n>());
			judge(requires (const X &a) { ~a; }, is_int<T>, "~", "~" + vn<T, n>());
			judge(requires (X &a) { ++a; }, is_num<T>, "++", "++" + vn<T, n>());
			judge(requires (X &a) { a--; }, is_num<T>, "--", vn<T, n>() + "--");
			judge(requires (const X &a) { ++a; }, false, "++const", "++ of a constant " + vn<T, n>());
			judge(requires (const X &a) { a--; }, false, "--const", "-- of a constant " + vn<T, n>());
			judge(requires (const X &a) { !a; }, false, "!", "!" + vn<T, n>());
			judge(requires (const X &a, const X &b) { a < b; }, false, "<", vn<T, n>() + " < " + vn<T, n>());
			judge(requires (const X &a, const X &b) { a && b; }, false, "&&", vn<T, n>() + " && " + vn<T, n>());
			judge(std::is_convertible_v<X, bool> || std::is_constructible_v<bool, X>, false, "bool", "condition " + vn<T, n>());
			judge(std::is_convertible_v<X, T> || std::is_constructible_v<T, X>, false, "scalar", vn<T, n>() + " as a scalar");
		}
	});
	for_types<bool, int, unsigned, long long, unsigned long long, unsigned long, float, double>([&](auto u) {
		using U = typename decltype(u)::type;
		for_sizes([&](auto n) { for_sizes([&](auto m) {
			if constexpr (n() > 1 || m() > 1)
			{
				constexpr bool want = n() == m() && (std::is_same_v<T, U> || related<T, U>);
				if constexpr (n() == m() || (n() > 1 && m() > 1))
				{
					judge(can_equal<V<T, n>, V<U, m>>, want, "==", vn<T, n>() + " == " + vn<U, m>());
					judge(can_differ<V<T, n>, V<U, m>>, want, "!=", vn<T, n>() + " != " + vn<U, m>());
				}
			}
		}); });
	});
}
#elif WHAT == 1
template <typename U, std::size_t N, std::size_t M>
void convert()
{
	R.section(std::string("conversion/") + tname<U> + " to " + tname<T>);
	constexpr bool types = becomes<U, T> || std::is_same_v<T, U>;
	constexpr bool from_views = becomes<U, T>;			// bool lanes do not leave views and swizzles unasked
	const std::string program = vn<U, M>() + " to " + vn<T, N>();
	using to = V<T, N>; using view = dsga::basic_view<true, T, N>; using vv = dsga::view_vector<T, N>;
	using from = V<U, M>; using fview = dsga::basic_view<false, U, M>;
	if constexpr (N > 1 && M > 1 && N < M && becomes<U, T>)
	{
		// lanes may be dropped; whether unasked is not said
		judge(std::is_constructible_v<to, const from &>, true, "explicit", program + ", explicitly");
		judge(std::is_constructible_v<to, const fview &>, true, "explicit-view", program + ", from a view, explicitly");
		judge(std::is_assignable_v<view &, const from &>, false, "assign-view", program + ", assigned to a view");
	}
	else if constexpr (N > 1 && M > 1)
	{
		judge(std::is_convertible_v<const from &, to>, types && N == M, "implicit", program);
		judge(std::is_convertible_v<from &&, to>, types && N == M, "implicit", program + ", expiring");
		judge(std::is_convertible_v<const fview &, to>, from_views && N == M, "implicit-view", program + ", from a view");
		judge(std::is_assignable_v<to &, const from &>, types && N == M, "assign", program + ", assigned");
		// bool lanes are not assigned to views
		if constexpr (is_num<T> || is_num<U>)
		{
			judge(std::is_assignable_v<view &, const from &>, becomes<U, T> && N == M, "assign-view", program + ", assigned to a view");
			judge(std::is_assignable_v<vv &, const from &>, becomes<U, T> && N == M, "assign-view-vector", program + ", assigned to a view_vector");
			judge(std::is_assignable_v<dsga::basic_view<false, T, N> &, const from &>, false, "assign-const-view", program + ", assigned to a constant view");
			judge(std::is_assignable_v<const to &, const from &>, false, "assign-const", program + ", assigned to a constant");
		}
		judge(std::is_constructible_v<to, const from &>, N <= M, "explicit", program + ", explicitly");
		judge(std::is_constructible_v<to, const fview &>, N <= M, "explicit-view", program + ", from a view, explicitly");
	}
	else if constexpr (N > 1)
	{
		// one lane makes no vector by itself, unless asked to
		judge(std::is_convertible_v<const from &, to>, false, "implicit-one", program);
		judge(std::is_convertible_v<const U &, to>, false, "implicit-scalar", "scalar " + tn<U>() + " to " + vn<T, N>());
		judge(std::is_constructible_v<to, const U &>, true, "explicit-scalar", "scalar " + tn<U>() + " to " + vn<T, N>() + ", explicitly");
		judge(std::is_assignable_v<to &, const U &>, false, "assign-scalar", "scalar " + tn<U>() + " assigned to " + vn<T, N>());
	}
	else if constexpr (M > 1)
	{
		if constexpr (!becomes<U, T>) judge(std::is_convertible_v<const from &, to>, false, "implicit-to-one", program);
		judge(std::is_convertible_v<const from &, T>, false, "implicit-to-scalar", vn<U, M>() + " to scalar " + tn<T>());
	}
	
}

template <typename U>
void swizzles()
{
	using to3 = decltype((std::declval<V<T, 4> &>().wyx)); using from3 = decltype((std::declval<const V<U, 4> &>().zxw)); using from2 = decltype((std::declval<const V<U, 4> &>().zx));
	using rep3 = decltype((std::declval<V<T, 4> &>().wyw)); using cto3 = decltype((std::declval<const V<T, 4> &>().wyx));
	R.section(std::string("conversion/") + tname<U> + " to " + tname<T>);
	const std::string p = "swizzle of " + tn<U>() + " to swizzle of " + tn<T>();
	if constexpr (is_num<T> || is_num<U>)
	{
		judge(std::is_assignable_v<to3, from3>, becomes<U, T>, "swizzle", p);
		judge(std::is_assignable_v<to3, from2>, false, "swizzle-size", p + ", two lanes to three");
		judge(std::is_assignable_v<rep3, from3>, false, "swizzle-repeat", p + " with a repeated lane");
		judge(std::is_assignable_v<cto3, from3>, false, "swizzle-const", p + " of a constant");
		judge(std::is_assignable_v<to3, const V<U, 3> &>, becomes<U, T>, "swizzle-vector", "vector of " + tn<U>() + " to swizzle of " + tn<T>());
		judge(std::is_assignable_v<to3, const V<U, 4> &>, false, "swizzle-vector-size", "vector of four " + tn<U>() + " to three lanes of " + tn<T>());
	}
	judge(std::is_convertible_v<from3, V<T, 3>>, becomes<U, T>, "swizzle-to-vector", "swizzle of " + tn<U>() + " to vector of " + tn<T>());
	if constexpr (!becomes<U, T>) judge(std::is_convertible_v<from3, V<T, 2>>, false, "swizzle-to-smaller", "swizzle of three " + tn<U>() + " to vector of two " + tn<T>());
}
#elif WHAT == 2 || WHAT == 4
enum lanes_ok { Flt, Num, Sgn, Int, Any, Boo, I32, U32, I64, U64, F32, F64, FltBoo };
template <typename X> constexpr bool lane_rule(lanes_ok k)
{
	switch (k)
	{
		case Flt: return is_flt<X>;
		case Num: return is_num<X>;
		case Sgn: return is_flt<X> || std::is_same_v<X, int> || std::is_same_v<X, long long>;
		case Int: return is_int<X>;
		case Any: return true;
		case Boo: return std::is_same_v<X, bool>;
		case I32: return std::is_same_v<X, int>;
		case U32: return std::is_same_v<X, unsigned>;
		case I64: return std::is_same_v<X, long long>;
		case U64: return std::is_same_v<X, unsigned long long>;
		case F32: return std::is_same_v<X, float>;
		case F64: return std::is_same_v<X, double>;
		case FltBoo: return is_flt<X> || std::is_same_v<X, bool>;
	}
	return false;
}
template <typename F, typename ...A> constexpr bool can = requires (const A &...a) { F::f(a...); };

// the result: lanes of the operand's type, bool lanes, a scalar of the type
enum result_is { Same, Bools, Scalar, ABool, Other };
template <typename F, lanes_ok L, result_is Res = Other, std::size_t Least = 2, std::size_t Most = 4>
void one()
{
	R.section(std::string("function/") + F::name + "/" + tname<T>);
	for_sizes([&](auto n) {
		if constexpr (n() > 1)
		{
			constexpr bool size_ok = n() >= Least && n() <= Most;
			const std::string program = std::string(F::name) + " of " + vn<T, n>();
			auto type = [&]<typename Got>(type_c<Got>) {
				if constexpr (Res == Same) judge_type(std::is_same_v<Got, V<T, n>>, "result", program);
				if constexpr (Res == Bools) judge_type(std::is_same_v<Got, V<bool, n>>, "result", program);
				if constexpr (Res == Scalar) judge_type(std::is_same_v<Got, T>, "result", program);
				if constexpr (Res == ABool) judge_type(std::is_same_v<Got, bool>, "result", program);
			};
			constexpr bool want = lane_rule<T>(L) && size_ok;
			if constexpr (F::arity == 1)
			{
				judge(can<F, V<T, n>>, want, "lanes", program);
				judge(can<F, dsga::basic_view<true, T, n>>, want, "lanes-view", program + " view");
				if constexpr (want && can<F, V<T, n>>) type(type_c<std::remove_cvref_t<decltype(F::f(std::declval<const V<T, n> &>()))>>{});
			}
			else if constexpr (F::arity == 2)
			{
				judge(can<F, V<T, n>, V<T, n>>, want, "lanes", program);
				if constexpr (want && can<F, V<T, n>, V<T, n>>) type(type_c<std::remove_cvref_t<decltype(F::f(std::declval<const V<T, n> &>(), std::declval<const V<T, n> &>()))>>{});
				// operands of different size
				for_sizes([&](auto m) { if constexpr (n() != m() && m() > 1) judge(can<F, V<T, n>, V<T, m>>, false, "sizes", program + " and " + vn<T, m>()); });
				for_sizes([&](auto m) { if constexpr (n() != m() && m() > 1) judge(can<F, dsga::basic_view<false, T, m>, V<T, n>>, false, "sizes", "view " + vn<T, m>() + " and " + program); });
			}
			else
			{
				judge(can<F, V<T, n>, V<T, n>, V<T, n>>, want, "lanes", program);
				if constexpr (want && can<F, V<T, n>, V<T, n>, V<T, n>>) type(type_c<std::remove_cvref_t<decltype(F::f(std::declval<const V<T, n> &>(), std::declval<const V<T, n> &>(), std::declval<const V<T, n> &>()))>>{});
				for_sizes([&](auto m) { if constexpr (n() != m() && m() > 1)
				{
					judge(can<F, V<T, n>, V<T, n>, V<T, m>>, false, "sizes", program + " with a third operand " + vn<T, m>());
					judge(can<F, V<T, n>, V<T, m>, V<T, n>>, false, "sizes", program + " with a second operand " + vn<T, m>());
					judge(can<F, V<T, m>, V<T, n>, V<T, n>>, false, "sizes", program + " with a first operand " + vn<T, m>());
				} });
			}
		}
	});
}
// operands with lanes of another type, or a scalar: the only such programs are the products and distances of real lanes, and the scalar edges of min, max, mod and step
template <typename F, typename U>
void mixed()
{
	R.section(std::string("function/") + F::name + "/" + tname<T> + "," + tname<U>);
	constexpr bool real = std::is_same_v<F, fn::dot> || std::is_same_v<F, fn::distance> || std::is_same_v<F, fn::cross>;
	constexpr bool any = std::is_same_v<F, fn::innerProduct>;
	for_sizes([&](auto n) {
		if constexpr (n() > 1)
		{
			const std::string program = std::string(F::name) + " of " + vn<T, n>() + " and ";
			if constexpr (!std::is_same_v<T, U>)
			{
				constexpr bool want = (real && is_flt<T> && is_flt<U> && (!std::is_same_v<F, fn::cross> || n() == 3)) || (any && is_num<T> && is_num<U>);
				judge(can<F, V<T, n>, V<U, n>>, want, "mixed", program + vn<U, n>());
				judge(can<F, V<T, n>, dsga::basic_view<true, U, n>>, want, "mixed-view", program + "view " + vn<U, n>());
			}
			constexpr bool second = (std::is_same_v<F, fn::min> || std::is_same_v<F, fn::max>) && is_num<T> || std::is_same_v<F, mon::fn::mod> && is_flt<T>;
			judge(can<F, V<T, n>, U>, second && std::is_same_v<T, U>, "scalar-second", program + "scalar " + tn<U>());
			judge(can<F, U, V<T, n>>, std::is_same_v<F, mon::fn::step> && is_flt<T> && std::is_same_v<T, U>, "scalar-first", program + "scalar " + tn<U>() + ", exchanged");
		}
	});
}
template <typename U, typename ...F> void mixes() { (mixed<F, U>(), ...); }
template <lanes_ok L, result_is Res, typename ...F> void each() { (one<F, L, Res>(), ...); }
#elif WHAT == 3
template <std::size_t C, std::size_t Rr> using M = dsga::basic_matrix<T, C, Rr>;
template <typename U, std::size_t C, std::size_t Rr> using MU = dsga::basic_matrix<U, C, Rr>;
template <typename F>
void shapes(F &&f)
{
	for_sizes([&](auto c) { for_sizes([&](auto r) { if constexpr (c() > 1 && r() > 1) f(c, r); }); });
}
template <typename U, std::size_t C, std::size_t Rr, std::size_t C2, std::size_t R2>
void mm()
{
	using X = std::common_type_t<T, U>;
	R.section(std::string("matrices/") + tname<T> + "," + tname<U>);
	const std::string s = tn<T>() + std::to_string(C) + "x" + std::to_string(Rr), p = s + " and " + tn<U>() + std::to_string(C2) + "x" + std::to_string(R2);
	using A = const M<C, Rr> &; using B = const MU<U, C2, R2> &;
	constexpr bool same_shape = C == C2 && Rr == R2;
	judge(requires (A a, B b) { a + b; }, same_shape, "+", p + ", sum");
	judge(requires (A a, B b) { a - b; }, same_shape, "-", p + ", difference");
	judge(requires (A a, B b) { a / b; }, same_shape, "/", p + ", quotient");
	judge(requires (A a, B b) { a * b; }, C == R2, "*", p + ", product");
	judge(requires (A a, B b) { a == b; }, same_shape, "==", p + ", equality");
	if constexpr (std::is_same_v<T, U> || same_shape == false)
		judge(requires (A a, B b) { dsga::matrixCompMult(a, b); }, same_shape && std::is_same_v<T, U>, "matrixCompMult", p + ", matrixCompMult");
	if constexpr (same_shape)
	{
		if constexpr (requires (A a, B b) { a + b; }) judge_type(std::is_same_v<std::remove_cvref_t<decltype(std::declval<A>() + std::declval<B>())>, MU<X, C, Rr>>, "+", p);
	}
	if constexpr (C == R2)
		if constexpr (requires (A a, B b) { a * b; }) judge_type(std::is_same_v<std::remove_cvref_t<decltype(std::declval<A>() * std::declval<B>())>, MU<X, C2, Rr>>, "*", p);
	// whether a matrix of another shape converts unasked is said differently in the documents and the code
	if constexpr (same_shape || !becomes<U, T>) judge(std::is_convertible_v<B, M<C, Rr>>, becomes<U, T>, "implicit", p + ", conversion of the second to the first");
	judge(std::is_constructible_v<M<C, Rr>, B>, true, "explicit", p + ", explicit conversion");
	if constexpr (same_shape || !becomes<U, T>) judge(std::is_assignable_v<M<C, Rr> &, B>, becomes<U, T>, "assign", p + ", assignment");
	judge(std::is_assignable_v<const M<C, Rr> &, B>, false, "assign-const", p + ", assignment to a constant");
}
template <typename U, std::size_t C, std::size_t Rr>
void mv()
{
	using A = const M<C, Rr> &;
	const std::string s = tn<T>() + std::to_string(C) + "x" + std::to_string(Rr);
	R.section(std::string("matrix and vector/") + tname<T> + "," + tname<U>);
	for_sizes([&](auto n) {
		if constexpr (n() > 1)
		{
			using B = const V<U, n> &; using Y = const dsga::basic_view<false, U, n> &;
			const std::string p = s + " and " + vn<U, n>();
			judge(requires (A a, B b) { a * b; }, is_num<U> && n() == C, "matrix-vector", p + ", product");
			judge(requires (A a, Y b) { a * b; }, is_num<U> && n() == C, "matrix-view", p + ", product with a view");
			// vectors of integers on the left are not supported
			if constexpr (is_flt<U> || !is_num<U> || n() != Rr)
				judge(requires (A a, B b) { b * a; }, is_flt<U> && n() == Rr, "vector-matrix", p + ", product from the left");
			judge(requires (A a, B b) { a + b; }, false, "+", p + ", sum");
			judge(requires (A a, B b) { a == b; }, false, "==", p + ", equality");
			judge(std::is_convertible_v<B, M<C, Rr>>, false, "implicit", p + ", conversion of the vector");
		}
	});
	judge(requires (A a, U u) { a * u; }, is_num<U>, "scalar", s + " * " + tn<U>());
	judge(requires (A a, U u) { u + a; }, is_num<U>, "scalar", tn<U>() + " + " + s);
	judge(requires (A a, U u) { a / u; }, is_num<U>, "scalar", s + " / " + tn<U>());
	judge(requires (A a, U u) { u - a; }, is_num<U>, "scalar", tn<U>() + " - " + s);
	judge(requires (A a, U u) { a % u; }, false, "scalar", s + " % " + tn<U>());
	judge(std::is_convertible_v<U, M<C, Rr>>, false, "implicit-scalar", "conversion of a scalar " + tn<U>() + " to " + s);
}
#elif WHAT == 9
template <typename S> std::vector<std::size_t> seq_of(S) { return []<std::size_t ...I>(std::index_sequence<I...>) { return std::vector<std::size_t>{ I... }; }(S{}); }
std::string text(const std::vector<std::size_t> &v) { std::string s; for (auto x : v) s += std::to_string(x) + " "; return s; }
template <typename S> void expect(const std::vector<std::size_t> &want, const char *what, const std::string &args)
{
	auto got = seq_of(S{});
	R.saw(mix(hash_str(what), hash_str(args.c_str())));
	if (got != want) R.fail(R.sec + ":" + what, std::string(what) + " of " + args + " is " + text(got) + ", not " + text(want));
}
template <std::size_t A, std::size_t B>
void ranges()
{
	std::vector<std::size_t> half, closed;
	for (std::size_t i = A; i != B; A < B ? ++i : --i) half.push_back(i);
	closed = half; closed.push_back(B);
	const std::string args = std::to_string(A) + "," + std::to_string(B);
	expect<dsga::make_index_range<A, B>>(half, "make_index_range", args);
	expect<dsga::make_closed_index_range<A, B>>(closed, "make_closed_index_range", args);
	expect<decltype(dsga::make_reverse_sequence(dsga::make_index_range<A, B>{}))>(std::vector<std::size_t>(half.rbegin(), half.rend()), "make_reverse_sequence", args);
	auto arr = dsga::make_sequence_array(dsga::make_closed_index_range<A, B>{});
	R.saw(mix(77, A * 100 + B));
	if (!std::equal(arr.begin(), arr.end(), closed.begin(), closed.end())) R.fail(R.sec + ":make_sequence_array", "make_sequence_array of " + text(closed) + " differs");
}
template <std::size_t ...I>
void array_sequence()
{
	expect<dsga::make_array_sequence<std::array<std::size_t, sizeof...(I)>{ I... }>>({ I... }, "make_array_sequence", text({ I... }));
	expect<dsga::make_array_sequence<std::array<int, sizeof...(I)>{ static_cast<int>(I)... }>>({ I... }, "make_array_sequence", "int " + text({ I... }));
	std::vector<std::size_t> v{ I... };
	expect<decltype(dsga::make_reverse_sequence(std::index_sequence<I...>{}))>({ v.rbegin(), v.rend() }, "make_reverse_sequence", text(v));
	auto a = dsga::make_sequence_array(std::index_sequence<I...>{});
	R.saw(hash_str(text(v).c_str()));
	if (!std::equal(a.begin(), a.end(), v.begin(), v.end())) R.fail(R.sec + ":make_sequence_array", "make_sequence_array of " + text(v) + " differs");
}
template <std::size_t Size, std::size_t ...I>
void indexes()
{
	std::vector<std::size_t> v{ I... };
	bool in = true, unique = true;
	for (std::size_t i = 0; i < v.size(); ++i) { in = in && v[i] < Size; for (std::size_t j = 0; j < i; ++j) unique = unique && v[i] != v[j]; }
	const std::string p = text(v) + "of " + std::to_string(Size);
	[&]<std::size_t ...C>(std::index_sequence<C...>) { (judge(dsga::indexable<Size, C, I...>, in && C == v.size() && C >= 1 && C <= 4, "indexable", p + " as " + std::to_string(C)), ...); }(std::make_index_sequence<7>{});
	if constexpr (dsga::indexable<Size, sizeof...(I), I...>)
		judge(dsga::writable_swizzle<Size, sizeof...(I), I...>, unique, "writable_swizzle", p);
}
template <std::size_t Size, std::size_t A>
void index_tuples()
{
	indexes<Size, A>();
	[&]<std::size_t ...B>(std::index_sequence<B...>) {
		(indexes<Size, A, B>(), ...); (indexes<Size, A, B, (B + 1) % 4>(), ...); (indexes<Size, B, A, B>(), ...); (indexes<Size, A, (B + 1) % 5, (B + 2) % 5, B>(), ...); (indexes<Size, B, 3, A, 0>(), ...); (indexes<Size, B, A, 1, B>(), ...);
	}(std::make_index_sequence<5>{});
}
template <typename X>
void predicates(const char *n, bool known, bool sgn, bool uns, bool flt, bool boo)
{
	judge(dsga::bool_scalar<X>, boo, "bool_scalar", n);
	judge(dsga::signed_scalar<X>, sgn, "signed_scalar", n);
	judge(dsga::unsigned_scalar<X>, uns, "unsigned_scalar", n);
	judge(dsga::numeric_integral_scalar<X>, sgn || uns, "numeric_integral_scalar", n);
	judge(dsga::floating_point_scalar<X>, flt, "floating_point_scalar", n);
	judge(dsga::non_bool_scalar<X>, sgn || uns || flt, "non_bool_scalar", n);
	judge(dsga::dimensional_scalar<X>, known, "dimensional_scalar", n);
	[&]<std::size_t ...S>(std::index_sequence<S...>) { (judge(dsga::dimensional_storage<X, S>, known && S >= 1 && S <= 4, "dimensional_storage", std::string(n) + " " + std::to_string(S)), ...); }(std::make_index_sequence<7>{});
	judge(requires { typename dsga::basic_vector<X, 3>; }, known, "basic_vector", n);
	judge(requires { typename dsga::basic_view<true, X, 2>; }, known, "basic_view", n);
	judge(requires { typename dsga::basic_matrix<X, 3, 2>; }, flt, "basic_matrix", n);
	judge(requires { typename dsga::basic_vector<X, 0>; } || requires { typename dsga::basic_vector<X, 5>; }, false, "basic_vector-size", n);
	judge(requires { typename dsga::basic_matrix<X, 1, 2>; } || requires { typename dsga::basic_matrix<X, 2, 1>; } || requires { typename dsga::basic_matrix<X, 2, 5>; } || requires { typename dsga::basic_matrix<X, 5, 4>; }, false, "basic_matrix-size", n);
}
enum e_int : int { e_int_low = -7, e_int_high = 2000000000 };
enum class e_uc : unsigned char { a = 3, b = 255 };
enum class e_ll : long long { a = -0x7fffffffffffffffll, b = 12 };
enum class e_bool : bool { no, yes };
struct constant_callable { constexpr int operator ()() const { return 3; } };
struct running_callable { int operator ()() const { return static_cast<int>(R.evals); } };
struct stranger { };
template <typename O, typename I> constexpr bool can_subscript = requires (O o, const I &i) { o[i]; };
template <typename O, typename ...S> constexpr bool can_set = requires (O o, const S &...s) { o.set(s...); };
template <typename O> constexpr bool can_write_lane = requires (O o) { o[0] = T(1); };
template <typename O, typename ...S> constexpr bool can_dynamic = requires (O o, const S &...s) { dsga::swizzle(o, s...); };
// O as an lvalue; n lanes, 0 for a matrix
template <typename O>
void subscripts(const char *what, std::size_t n, bool writable)
{
	judge(can_subscript<O, int> && can_subscript<O, unsigned> && can_subscript<O, long> && can_subscript<O, std::size_t> && can_subscript<O, long long> && can_subscript<O, unsigned long long> && can_subscript<O, short> && can_subscript<O, unsigned char>, true, "subscript", std::string(what) + " by integers");
	judge(can_subscript<O, e_int>, true, "subscript", std::string(what) + " by an enumerator");
	judge(can_subscript<O, const char *>, false, "subscript", std::string(what) + " by a string");
	judge(can_subscript<O, const int *>, false, "subscript", std::string(what) + " by a pointer");
	judge(can_subscript<O, std::nullptr_t>, false, "subscript", std::string(what) + " by nullptr");
	judge(can_subscript<O, e_uc>, false, "subscript", std::string(what) + " by a scoped enumerator");
	judge(can_subscript<O, stranger>, false, "subscript", std::string(what) + " by another class");
	judge(can_subscript<O, std::string>, false, "subscript", std::string(what) + " by a std::string");
	judge(can_subscript<O, V<int, 3>>, false, "subscript", std::string(what) + " by a vector");
	judge(can_subscript<O, V<T, 2>>, false, "subscript", std::string(what) + " by a vector of its type");
	if (n == 0) return;
	judge(can_write_lane<O>, writable, "lane", std::string(what) + ", write by subscript");
	judge(can_set<O>, false, "set", std::string(what) + " to nothing");
	judge(can_set<O, T>, writable && n == 1, "set", std::string(what) + " to 1");
	judge(can_set<O, T, T>, writable && n == 2, "set", std::string(what) + " to 2");
	judge(can_set<O, T, T, T>, writable && n == 3, "set", std::string(what) + " to 3");
	judge(can_set<O, T, T, T, T>, writable && n == 4, "set", std::string(what) + " to 4");
	judge(can_set<O, T, T, T, T, T>, false, "set", std::string(what) + " to 5");
	judge(can_set<O, stranger> || can_set<O, T, stranger> || can_set<O, T, T, stranger> || can_set<O, T, T, T, stranger>, false, "set", std::string(what) + " to another class");
	judge(can_set<O, const char *> || can_set<O, T, std::nullptr_t> || can_set<O, T, T, std::string> || can_set<O, T, T, T, int *>, false, "set", std::string(what) + " to a pointer or a string");
	judge(can_dynamic<O, std::size_t> && can_dynamic<O, std::size_t, std::size_t> && can_dynamic<O, std::size_t, std::size_t, std::size_t> && can_dynamic<O, std::size_t, std::size_t, std::size_t, std::size_t>, true, "swizzle()", what);
	judge(can_dynamic<O> || can_dynamic<O, std::size_t, std::size_t, std::size_t, std::size_t, std::size_t>, false, "swizzle()", std::string(what) + " of none or five");
	judge(can_dynamic<O, const char *> || can_dynamic<O, std::size_t, stranger> || can_dynamic<O, e_uc>, false, "swizzle()", std::string(what) + " by something else");
}
template <std::size_t N>
void subscripts_of_size()
{
	using VV = dsga::basic_vector<T, N>; using Y = dsga::basic_view<true, T, N>; using CY = dsga::basic_view<false, T, N>; using W = dsga::view_vector<T, N>;
	const std::string s = std::to_string(N);
	subscripts<VV &>(("vector " + s).c_str(), N, true); subscripts<const VV &>(("constant vector " + s).c_str(), N, false);
	subscripts<Y &>(("view " + s).c_str(), N, true); subscripts<const Y &>(("constant object view " + s).c_str(), N, false);
	subscripts<CY &>(("view of constants " + s).c_str(), N, false); subscripts<const CY &>(("constant view of constants " + s).c_str(), N, false);
	subscripts<W &>(("view_vector " + s).c_str(), N, true); subscripts<const W &>(("constant view_vector " + s).c_str(), N, false);
	subscripts<decltype(VV::x) &>(("swizzle x " + s).c_str(), 1, true); subscripts<const decltype(VV::x) &>(("constant swizzle x " + s).c_str(), 1, false);
	subscripts<decltype(VV::xx) &>(("swizzle xx " + s).c_str(), 2, false); subscripts<decltype(Y::xxx) &>(("view swizzle xxx " + s).c_str(), 3, false);
	subscripts<decltype(Y::x) &>(("view swizzle x " + s).c_str(), 1, true); subscripts<decltype(CY::x) &>(("constant view swizzle x " + s).c_str(), 1, false);
	if constexpr (N >= 2)
	{
		subscripts<decltype(VV::yx) &>(("swizzle yx " + s).c_str(), 2, true); subscripts<const decltype(VV::yx) &>(("constant swizzle yx " + s).c_str(), 2, false);
		subscripts<decltype(VV::yxy) &>(("swizzle yxy " + s).c_str(), 3, false); subscripts<decltype(Y::yx) &>(("view swizzle yx " + s).c_str(), 2, true);
		subscripts<decltype(CY::yx) &>(("constant view swizzle yx " + s).c_str(), 2, false); subscripts<decltype(CY::xyyx) &>(("constant view swizzle xyyx " + s).c_str(), 4, false);
	}
	if constexpr (N >= 3) { subscripts<decltype(VV::zxy) &>(("swizzle zxy " + s).c_str(), 3, true); subscripts<const decltype(Y::zxy) &>(("constant object view swizzle zxy " + s).c_str(), 3, false); subscripts<decltype(Y::zy) &>(("view swizzle zy " + s).c_str(), 2, true); }
	if constexpr (N == 4) { subscripts<decltype(VV::wxyz) &>(("swizzle wxyz " + s).c_str(), 4, true); subscripts<decltype(Y::wzyx) &>(("view swizzle wzyx " + s).c_str(), 4, true); subscripts<decltype(VV::wxyw) &>(("swizzle wxyw " + s).c_str(), 4, false); }
}
template <typename E> constexpr bool can_underlying = requires (E e) { dsga::to_underlying(e); };
template <typename C> constexpr bool can_constant = requires { dsga::is_constexpr(C{}); };
#endif

int main(int argc, char **argv)
{
	R.start(argc, argv);
#if WHAT == 0
#if SLICE == 0
	for_types<bool, int, unsigned, double>([&](auto u) { all_ops<typename decltype(u)::type>(); });
#else
	for_types<long long, unsigned long long, unsigned long, float>([&](auto u) { all_ops<typename decltype(u)::type>(); });
	unary();
#endif
#elif WHAT == 1
	for_types<bool, int, unsigned, long long, unsigned long long, unsigned long, float, double>([&](auto u) {
		using U = typename decltype(u)::type;
		for_sizes([&](auto n) { for_sizes([&](auto m) { convert<U, n, m>(); }); });
		swizzles<U>();
	});
#elif WHAT == 2
	using namespace fn;
	each<Flt, Same, radians, degrees, fn::sin, fn::cos, fn::tan, fn::asin, fn::acos, fn::atan, fn::sinh, fn::cosh, fn::tanh, fn::asinh, fn::acosh, fn::atanh, fn::exp, fn::exp2, fn::log, fn::log2, fn::sqrt, inversesqrt,
		fast_inversesqrt, fn::floor, fn::trunc, fn::round, roundEven, fn::ceil, fract, normalize>();
	each<Sgn, Same, fn::abs, fn::sign>();
	each<Flt, Bools, fn::isnan, fn::isinf>();
	each<Flt, Scalar, length>();
	each<F32, Other, floatBitsToInt, floatBitsToUint>();
	each<F64, Other, doubleBitsToLongLong, doubleBitsToUlongLong>();
	each<I32, Other, intBitsToFloat>(); each<U32, Other, uintBitsToFloat>(); each<I64, Other, longLongBitsToDouble>(); each<U64, Other, ulongLongBitsToDouble>();
	each<Int, Same, fn::byteswap, bit_not>();
	each<Boo, Same, compNot>(); each<Boo, ABool, any, all, none>();
	each<Any, Other, to_array, m_shift1, m_cshift1, m_apply, m_query, swizzle1, swizzle3>();
	each<Num, Scalar, m_min, m_max, m_sum>();
	one<cross_matrix, Flt, Other, 3, 3>(); one<diagonal_matrix, Flt>();
	each<Num, Bools, lessThan, lessThanEqual, greaterThan, greaterThanEqual>(); each<Any, Bools, equal, notEqual>();
	each<Boo, Same, compAnd, compOr>();
	each<Flt, Same, fn::atan2, fn::pow, mod, fn::step, reflect>(); each<Num, Same, fn::min, fn::max>();
	each<Flt, Scalar, dot, distance>(); each<Num, Scalar, innerProduct>();
	one<cross, Flt, Same, 3, 3>();
	each<Num, Same, clamp>(); each<FltBoo, Same, mon::fn::mix>(); each<Flt, Same, smoothstep, fn::fma, faceforward>();
#elif WHAT == 4
	using namespace fn;
	for_types<bool, int, unsigned, long long, unsigned long long, unsigned long, float, double>([&](auto u) {
		mixes<typename decltype(u)::type, lessThan, lessThanEqual, greaterThan, greaterThanEqual, equal, notEqual, compAnd, compOr, fn::atan2, fn::pow, mod, fn::step, reflect, fn::min, fn::max, dot, distance, innerProduct, cross>();
	});
#elif WHAT == 3
	for_types<float, double>([&](auto u) { using U = typename decltype(u)::type; shapes([&](auto c, auto r) { shapes([&](auto c2, auto r2) { mm<U, c, r, c2, r2>(); }); }); });
	for_types<bool, int, long long, unsigned, unsigned long long, float, double>([&](auto u) { using U = typename decltype(u)::type; shapes([&](auto c, auto r) { mv<U, c, r>(); }); });
	R.section("square functions");
	shapes([&](auto c, auto r) {
		using A = const M<c, r> &;
		const std::string s = tn<T>() + std::to_string(c()) + "x" + std::to_string(r());
		judge(requires (A a) { dsga::determinant(a); }, c() == r(), "determinant", s);
		judge(requires (A a) { dsga::inverse(a); }, c() == r(), "inverse", s);
		judge(requires (A a) { dsga::transpose(a); }, true, "transpose", s);
		judge_type(std::is_same_v<std::remove_cvref_t<decltype(dsga::transpose(std::declval<A>()))>, M<r, c>>, "transpose", s);
		judge_type(std::is_same_v<std::remove_cvref_t<decltype(dsga::outerProduct(std::declval<V<T, r()>>(), std::declval<V<T, c()>>()))>, M<c, r>>, "outerProduct", s);
	});
#elif WHAT == 9
	R.section("sequences");
	[&]<std::size_t ...A>(std::index_sequence<A...>) { ([&]<std::size_t X>(std::integral_constant<std::size_t, X>) { [&]<std::size_t ...B>(std::index_sequence<B...>) { (ranges<X, B>(), ...); }(std::make_index_sequence<10>{}); }(std::integral_constant<std::size_t, A>{}), ...); }(std::make_index_sequence<10>{});
	ranges<1000, 1007>(); ranges<300, 290>(); ranges<0, 64>();
	array_sequence<4>(); array_sequence<3, 3>(); array_sequence<9, 0, 4>(); array_sequence<1, 2, 3, 4, 5, 6, 7>(); array_sequence<7, 5, 100, 5>(); array_sequence<0, 0, 0, 1>();
	R.section("swizzle predicates");
	[&]<std::size_t ...A>(std::index_sequence<A...>) { (index_tuples<1, A>(), ...); (index_tuples<2, A>(), ...); (index_tuples<3, A>(), ...); (index_tuples<4, A>(), ...); }(std::make_index_sequence<5>{});
	R.section("storage types");
	{
		judge_type(std::is_same_v<dsga::dimensional_storage_t<T, 3>, std::array<T, 3>>, "dimensional_storage_t", "3");
		R.saw(1);
	}
	R.section("predicates");
	predicates<bool>("bool", true, false, false, false, true); predicates<int>("int", true, true, false, false, false); predicates<long long>("long long", true, true, false, false, false);
	predicates<unsigned>("unsigned", true, false, true, false, false); predicates<unsigned long long>("unsigned long long", true, false, true, false, false); predicates<std::size_t>("size_t", true, false, true, false, false);
	predicates<float>("float", true, false, false, true, false); predicates<double>("double", true, false, false, true, false);
	predicates<char>("char", false, false, false, false, false); predicates<short>("short", false, false, false, false, false); predicates<unsigned short>("unsigned short", false, false, false, false, false);
	predicates<signed char>("signed char", false, false, false, false, false); predicates<unsigned char>("unsigned char", false, false, false, false, false); predicates<long>("long", false, false, false, false, false);
	predicates<long double>("long double", false, false, false, false, false); predicates<const int>("const int", false, false, false, false, false); predicates<float *>("float *", false, false, false, false, false);
	predicates<wchar_t>("wchar_t", false, false, false, false, false); predicates<char32_t>("char32_t", false, false, false, false, false); predicates<e_int>("enum", false, false, false, false, false); predicates<volatile double>("volatile double", false, false, false, false, false);
	R.section("subscripts");
	subscripts_of_size<1>(); subscripts_of_size<2>(); subscripts_of_size<3>(); subscripts_of_size<4>();
	subscripts<dsga::basic_matrix<T, 3, 2> &>("matrix 3x2", 0, true); subscripts<const dsga::basic_matrix<T, 2, 4> &>("constant matrix 2x4", 0, false);
	R.section("promotion");
	for_types<bool, int, unsigned, long long, unsigned long long, unsigned long, float, double>([&](auto a) { for_types<bool, int, unsigned, long long, unsigned long long, unsigned long, float, double>([&](auto b) {
		using A = typename decltype(a)::type; using B = typename decltype(b)::type;
		judge(dsga::promotes_to<A, B>, std::is_same_v<std::common_type_t<A, B>, B>, "promotes_to", tn<A>() + " " + tn<B>());
		judge(dsga::promotes_to<const A &, B &&>, std::is_same_v<std::common_type_t<A, B>, B>, "promotes_to", tn<A>() + " " + tn<B>() + ", references");
		judge(dsga::implicitly_convertible_to<A, B>, becomes<A, B>, "implicitly_convertible_to", tn<A>() + " " + tn<B>());
	}); });
	judge(dsga::promotes_to<int, std::string>, false, "promotes_to", "int string");
	R.section("utilities");
	{
		auto und = [&](auto e, auto want, const char *n) { auto got = dsga::to_underlying(e); judge_type(std::is_same_v<decltype(got), decltype(want)>, "to_underlying", n); R.saw(hash_str(n)); if (got != want) R.fail(R.sec + ":to_underlying", std::string("to_underlying is wrong for ") + n); };
		und(e_uc::b, static_cast<unsigned char>(255), "unsigned char 255"); und(e_uc::a, static_cast<unsigned char>(3), "unsigned char 3"); und(e_ll::a, -0x7fffffffffffffffll, "long long low"); und(e_ll::b, 12ll, "long long 12");
		und(e_int_low, -7, "int -7"); und(e_int_high, 2000000000, "int high"); und(e_bool::yes, true, "bool");
		judge(can_underlying<int>, false, "to_underlying", "an integer");
		judge(can_constant<constant_callable> && dsga::is_constexpr(constant_callable{}), true, "is_constexpr", "a constant callable");
		judge(can_constant<running_callable>, false, "is_constexpr", "a callable which reads a variable");
		auto about = [&](long double got, long double want, long double eps, const char *n) { R.saw(hash_str(n)); if (std::fabs(got - want) > eps * std::fabs(want)) R.fail(R.sec + ":constant", std::string(n) + " is inaccurate"); };
		const long double pi = 3.14159265358979323846264338327950288L;
		about(dsga::degrees_per_radian_v<float>, 180 / pi, 2.4e-7L, "degrees_per_radian_v<float>"); about(dsga::degrees_per_radian_v<double>, 180 / pi, 4.5e-16L, "degrees_per_radian_v<double>");
		about(dsga::radians_per_degree_v<float>, pi / 180, 2.4e-7L, "radians_per_degree_v<float>"); about(dsga::radians_per_degree_v<double>, pi / 180, 4.5e-16L, "radians_per_degree_v<double>");
	}
#endif
	R.sample("every program of the families was put to the compiler once; the answers are those of the rules");
	return R.finish();
}
