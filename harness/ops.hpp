// The C++ operators as objects, their domains, and generators which stay inside them.
#pragma once
#include "kinds.hpp"

namespace mon
{
#define MON_OP(Name, op, shift_, integral_only_) \
	struct Name \
	{ \
		static constexpr const char *name = #op; \
		static constexpr bool shift = shift_, integral_only = integral_only_; \
		template <typename A, typename B> static constexpr auto f(const A &a, const B &b) -> decltype(a op b) { return a op b; } \
		template <typename A, typename B> static constexpr decltype(auto) g(A &a, const B &b) requires requires { a op##= b; } { return a op##= b; } \
	};
	MON_OP(Add, +, false, false)
	MON_OP(Sub, -, false, false)
	MON_OP(Mul, *, false, false)
	MON_OP(Div, /, false, false)
	MON_OP(Mod, %, false, true)
	MON_OP(And, &, false, true)
	MON_OP(Or, |, false, true)
	MON_OP(Xor, ^, false, true)
	MON_OP(Shl, <<, true, true)
	MON_OP(Shr, >>, true, true)

	// may the native operation be performed?
	template <typename Op, typename A, typename B>
	bool defined_for(A a, B b)
	{
		using C = decltype(Op::f(a, b));
		if constexpr (Op::shift)
		{
			if constexpr (std::is_signed_v<B>)
				if (b < 0)
					return false;
			return static_cast<u64>(b) < sizeof(C) * 8;
		}
		else if constexpr (std::is_integral_v<C>)
		{
			C x = static_cast<C>(a), y = static_cast<C>(b), z;
			if constexpr (std::is_same_v<Op, Div> || std::is_same_v<Op, Mod>)
				return y != 0 && !(std::is_signed_v<C> && x == std::numeric_limits<C>::min() && y == static_cast<C>(-1));
			if constexpr (std::is_signed_v<C>)
			{
				if constexpr (std::is_same_v<Op, Add>) return !__builtin_add_overflow(x, y, &z);
				else if constexpr (std::is_same_v<Op, Sub>) return !__builtin_sub_overflow(x, y, &z);
				else if constexpr (std::is_same_v<Op, Mul>) return !__builtin_mul_overflow(x, y, &z);
			}
			return true;
		}
		else
			return true;
	}

	// operand lanes: mode 0 each its own, mode 1 all of y alike, mode 2 all of x alike
	template <typename Op, typename A, typename B>
	__attribute__((noinline)) void gen_pairs(rng &r, int mode, std::array<A, 4> &x, std::array<B, 4> &y)
	{
		for (int level = 0; level < 3; ++level)
		{
			bool all = true;
			for (std::size_t i = 0; i < 4 && all; ++i)
			{
				bool ok = false;
				for (int t = 0; t < 24 && !ok; ++t)
				{
					x[i] = (mode == 2 && i) ? x[0] : (level < 1 && t < 16) ? gen<A>(r) : level < 2 ? gen_mod<A>(r) : static_cast<A>(r.range(10, 40));
					if constexpr (Op::shift)
						y[i] = (mode == 1 && i) ? y[0] : static_cast<B>(r.below(sizeof(A) * 8));
					else
						y[i] = (mode == 1 && i) ? y[0] : (level < 1 && t < 16) ? gen<B>(r) : level < 2 ? gen_mod<B>(r) : static_cast<B>(r.range(1, 9));
					ok = defined_for<Op>(x[i], y[i]);
				}
				all = ok;
			}
			if (all)
				return;
		}
		std::exit(9);
	}
}
