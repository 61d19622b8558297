// P04, P05: binary and unary operators are the C++ operator lane by lane.
//   OPS 4 arithmetic, 5 bitwise and shifts;   ELEM the left operand's element type
#include "ops.hpp"
using namespace mon;
using T1 = ELEM;
#ifdef THOROUGH
constexpr bool full = true;
#else
constexpr bool full = false;
#endif

template <typename C, std::size_t N>
__attribute__((noinline)) void verdict(const std::array<C, 4> &got, const std::array<C, 4> &want, const char *form, const std::string &in)
{
	for (std::size_t i = 0; i < N; ++i)
		if (!same(got[i], want[i]))
		{
			R.fail(R.sec + ":" + form, "size " + std::to_string(N) + " lane " + std::to_string(i) + ": got " + show(got[i]) + " want " + show(want[i]) + " for " + in);
			return;
		}
}

template <typename C, std::size_t N, typename V>
__attribute__((noinline)) void outcome(const V &v, const std::array<C, 4> &want, const char *form, u64 h, std::string (*in)())
{
	R.saw(mix(h, N * 16 + static_cast<u64>(form[0]) + static_cast<u64>(form[1]) * 256));
	if constexpr (!has_result_type<V, C, N>)
		R.fail(R.sec + ":" + form + ":result-type", std::string("size ") + std::to_string(N) + " result is not made of " + tname<C>);
	else
	{
		auto l = result_lanes<C, N>(v);
		std::array<C, 4> got{};
		std::copy(l.begin(), l.end(), got.begin());
		verdict<C, N>(got, want, form, in());
	}
}

// what the message needs
inline std::array<std::string, 2> last_in;
std::string last_inputs() { return last_in[0] + " and " + last_in[1]; }

template <typename Op, typename T2, std::size_t N, typename C>
__attribute__((noinline)) void one_size(const std::array<T1, 4> &x, const std::array<T2, 4> &y, const std::array<C, 4> &want, int mode, u64 h)
{
	std::array<T1, N> xa; std::array<T2, N> ya;
	std::copy_n(x.begin(), N, xa.begin());
	std::copy_n(y.begin(), N, ya.begin());
	holder<Vec, T1, N> a(xa);
	holder<Vec, T2, N> b(ya);
	const auto &va = a.s.v; const auto &vb = b.s.v;
	if (mode == 0)
	{
		if constexpr (requires { Op::f(va, vb); })
			outcome<C, N>(Op::f(va, vb), want, "vv", h, last_inputs);
		else
			R.fail(R.sec + ":vv:rejected", "vector op vector does not compile");
	}
	else if (mode == 1)
	{
		holder<Vec, T2, 1> b1(std::array<T2, 1>{ y[0] });
		const auto &vb1 = b1.s.v;
		if constexpr (requires { Op::f(va, y[0]); Op::f(va, vb1); })
		{
			outcome<C, N>(Op::f(va, y[0]), want, "vs", h, last_inputs);
			outcome<C, N>(Op::f(va, vb1), want, "v1", h, last_inputs);
		}
		else
			R.fail(R.sec + ":vs:rejected", "vector op scalar does not compile");
		R.check(b1.guards() && same(b1.read()[0], y[0]), "operand-changed", "one lane operand changed");
	}
	else
	{
		holder<Vec, T1, 1> a1(std::array<T1, 1>{ x[0] });
		const auto &va1 = a1.s.v;
		if constexpr (requires { Op::f(x[0], vb); Op::f(va1, vb); })
		{
			outcome<C, N>(Op::f(x[0], vb), want, "sv", h, last_inputs);
			outcome<C, N>(Op::f(va1, vb), want, "1v", h, last_inputs);
		}
		else
			R.fail(R.sec + ":sv:rejected", "scalar op vector does not compile");
		R.check(a1.guards() && same(a1.read()[0], x[0]), "operand-changed", "one lane operand changed");
	}
	R.check(a.guards() && b.guards() && hash_arr(a.read()) == hash_arr(xa) && hash_arr(b.read()) == hash_arr(ya), "operand-changed", "an operand changed");
}

template <typename Op, typename T2>
void one_pair(rng &r)
{
	using CT = std::common_type_t<T1, T2>;
	constexpr bool integral = std::is_integral_v<T1> && std::is_integral_v<T2>;
	constexpr bool accepted = (std::is_same_v<CT, T1> || std::is_same_v<CT, T2>) && (integral || !Op::integral_only)
		&& !((std::is_same_v<Op, And> || std::is_same_v<Op, Or> || std::is_same_v<Op, Xor>) && sizeof(T1) != sizeof(T2));
	if constexpr (accepted)
	{
		R.section(std::string(tname<T1>) + Op::name + tname<T2>);
		for (int mode = 0; mode < 3; ++mode)
		{
			std::array<T1, 4> x{}; std::array<T2, 4> y{};
			gen_pairs<Op>(r, mode, x, y);
			using C = decltype(Op::f(x[0], y[0]));
			std::array<C, 4> want;
			for (std::size_t i = 0; i < 4; ++i)
				want[i] = Op::f(x[i], y[i]);
			u64 h = hash_arr(x, hash_arr(y, static_cast<u64>(mode)));
			last_in = { show(x), show(y) };
			// the quick tier sees mixed element types with two sizes each
			constexpr std::size_t mixed = static_cast<std::size_t>(tname<T1>[0] + tname<T2>[0] + Op::name[0]) % 2;
			constexpr bool all_sizes = full || std::is_same_v<T1, T2>;
			if constexpr (all_sizes || mixed == 0) { one_size<Op, T2, 1>(x, y, want, mode, h); one_size<Op, T2, 3>(x, y, want, mode, h); }
			if constexpr (all_sizes || mixed == 1) { one_size<Op, T2, 2>(x, y, want, mode, h); one_size<Op, T2, 4>(x, y, want, mode, h); }
			if (R.cur_case == 0 && mode == 0)
				R.sample(show(x) + Op::name + show(y) + " = " + show(want));
		}
	}
}

template <typename ...Ops>
void all_pairs(rng &r)
{
	for_types<int, unsigned, long long, unsigned long long, unsigned long, float, double>([&](auto t2) {
		(one_pair<Ops, typename decltype(t2)::type>(r), ...);
	});
}

template <std::size_t N>
void unary(rng &r)
{
	std::array<T1, N> x = arr<T1, N>([&] { return gen<T1>(r); });
	if constexpr (std::is_integral_v<T1> && std::is_signed_v<T1>)
		for (auto &v : x)
			if (v == std::numeric_limits<T1>::min())
				++v;
	holder<Vec, T1, N> a(x);
	const auto &v = a.s.v;
	R.saw(hash_arr(x, N), varied(x));
	std::array<T1, N> want;
#if OPS == 4
	R.section(std::string("unary:") + tname<T1>);
	judge(+v, x, "plus", show(x));
	for (std::size_t i = 0; i < N; ++i) want[i] = static_cast<T1>(-x[i]);
	judge(-v, want, "minus", show(x));
#else
	R.section(std::string("not:") + tname<T1>);
	if constexpr (std::is_integral_v<T1>)
	{
		for (std::size_t i = 0; i < N; ++i) want[i] = static_cast<T1>(~x[i]);
		judge(~v, want, "not", show(x));
	}
#endif
	R.check(a.guards() && hash_arr(a.read()) == hash_arr(x), "operand-changed", "the operand changed");
}

int main(int argc, char **argv)
{
	R.start(argc, argv);
	rng r(R.seed);
	for (u64 c = 0; c < R.cases; ++c)
	{
		R.cur_case = c;
#if OPS == 4
		all_pairs<Add, Sub, Mul, Div, Mod>(r);
#else
		all_pairs<And, Or, Xor, Shl, Shr>(r);
#endif
		for (int k = 0; k < 4; ++k)
			for_sizes([&](auto n) { unary<n>(r); });
	}
	return R.finish();
}
