// P06: compound assignment and increment change the target's lanes to the binary operation's values, and nothing else.
//   WHAT 0 plain vectors, every element type pair with ELEM on the left   1 every storage kind, ELEM alone, and increments
#include "ops.hpp"
using namespace mon;
using T1 = ELEM;
#ifdef THOROUGH
constexpr bool full = true;
#else
constexpr bool full = false;
#endif

inline std::array<std::string, 2> last_in;

template <typename T, std::size_t N>
__attribute__((noinline)) void verdict(const std::array<T, N> &got, const std::array<T, 4> &want, bool guards, bool itself, const char *form, u64 h)
{
	R.saw(mix(h, N * 64 + static_cast<u64>(form[0]) + 256 * static_cast<u64>(form[1])));
	for (std::size_t i = 0; i < N; ++i)
		if (!same(got[i], want[i]))
		{
			R.fail(R.sec + ":" + form, "size " + std::to_string(N) + " lane " + std::to_string(i) + ": got " + show(got[i]) + " want " + show(want[i]) + " for " + last_in[0] + " and " + last_in[1]);
			break;
		}
	if (!guards)
		R.fail(R.sec + ":" + form + ":guards", "lanes or memory which the target does not name changed, size " + std::to_string(N));
	if (!itself)
		R.fail(R.sec + ":" + form + ":return", "does not return a reference to its target, size " + std::to_string(N));
}

template <typename Op, kind K, typename T2, std::size_t N>
__attribute__((noinline)) void one_size(const std::array<T1, 4> &x, const std::array<T2, 4> &y, const std::array<T1, 4> &want, int mode, u64 h)
{
	holder<K, T1, N> a;
	std::array<T1, N> xa;
	std::copy_n(x.begin(), N, xa.begin());
	a.load(xa);
	auto &d = a.obj();
	if (mode == 0)
	{
		std::array<T2, N> ya;
		std::copy_n(y.begin(), N, ya.begin());
		holder<Vec, T2, N> b(ya);
		const auto &s = b.s.v;
		if constexpr (requires { Op::g(d, s); })
		{
			auto &&ret = Op::g(d, s);
			verdict(a.read(), want, a.guards(), static_cast<const void *>(&ret) == static_cast<const void *>(&d) && std::is_base_of_v<std::remove_cvref_t<decltype(ret)>, std::remove_cvref_t<decltype(d)>>, "vv", h);
		}
		else
			R.fail(R.sec + ":vv:rejected", "compound assignment of a vector does not compile");
		R.check(b.guards() && hash_arr(b.read()) == hash_arr(ya), "operand-changed", "the right operand changed");
	}
	else
	{
		if constexpr (requires { Op::g(d, y[0]); })
		{
			auto &&ret = Op::g(d, y[0]);
			verdict(a.read(), want, a.guards(), static_cast<const void *>(&ret) == static_cast<const void *>(&d) && std::is_base_of_v<std::remove_cvref_t<decltype(ret)>, std::remove_cvref_t<decltype(d)>>, "vs", h);
		}
		else
			R.fail(R.sec + ":vs:rejected", "compound assignment of a scalar does not compile");
		a.load(xa);
		holder<Vec, T2, 1> b(std::array<T2, 1>{ y[0] });
		const auto &s = b.s.v;
		if constexpr (requires { Op::g(d, s); })
		{
			auto &&ret = Op::g(d, s);
			verdict(a.read(), want, a.guards(), static_cast<const void *>(&ret) == static_cast<const void *>(&d) && std::is_base_of_v<std::remove_cvref_t<decltype(ret)>, std::remove_cvref_t<decltype(d)>>, "v1", h);
		}
		else
			R.fail(R.sec + ":v1:rejected", "compound assignment of a one lane vector does not compile");
		R.check(b.guards() && same(b.read()[0], y[0]), "operand-changed", "the right operand changed");
	}
}

template <typename Op, kind K, typename T2>
void one_pair(rng &r)
{
	using CT = std::common_type_t<T1, T2>;
	constexpr bool integral = std::is_integral_v<T1> && std::is_integral_v<T2>;
	constexpr bool accepted = std::is_same_v<CT, T1> && (integral || !Op::integral_only)
		&& !((std::is_same_v<Op, And> || std::is_same_v<Op, Or> || std::is_same_v<Op, Xor>) && sizeof(T1) != sizeof(T2));
	if constexpr (accepted)
	{
		R.section(std::string(kname(K)) + ":" + tname<T1> + Op::name + "=" + tname<T2>);
		for (int mode = 0; mode < 2; ++mode)
		{
			std::array<T1, 4> x{}, want{}; std::array<T2, 4> y{};
			gen_pairs<Op>(r, mode, x, y);
			for (std::size_t i = 0; i < 4; ++i)
				want[i] = static_cast<T1>(Op::f(x[i], y[i]));
			u64 h = hash_arr(x, hash_arr(y, static_cast<u64>(mode)));
			last_in = { show(x), show(y) };
			constexpr std::size_t mixed = static_cast<std::size_t>(tname<T1>[0] + tname<T2>[0] + Op::name[0]) % 2;
			constexpr bool all_sizes = full || (std::is_same_v<T1, T2> && (K == Vec || !std::is_integral_v<T1>));
			if constexpr (all_sizes || mixed == 0) { one_size<Op, K, T2, 1>(x, y, want, mode, h); one_size<Op, K, T2, 3>(x, y, want, mode, h); }
			if constexpr (all_sizes || mixed == 1) { one_size<Op, K, T2, 2>(x, y, want, mode, h); one_size<Op, K, T2, 4>(x, y, want, mode, h); }
			if (R.cur_case == 0 && mode == 0)
				R.sample(show(x) + " " + Op::name + "= " + show(y) + " leaves " + show(want));
		}
	}
}

template <kind K, typename T2>
void all_ops(rng &r)
{
	one_pair<Add, K, T2>(r); one_pair<Sub, K, T2>(r); one_pair<Mul, K, T2>(r); one_pair<Div, K, T2>(r); one_pair<Mod, K, T2>(r);
	one_pair<And, K, T2>(r); one_pair<Or, K, T2>(r); one_pair<Xor, K, T2>(r); one_pair<Shl, K, T2>(r); one_pair<Shr, K, T2>(r);
}

template <kind K, std::size_t N>
__attribute__((noinline)) void steps(rng &r)
{
	holder<K, T1, N> a;
	auto &d = a.obj();
	std::array<T1, N> x = arr<T1, N>([&] {
		for (;;)
		{
			T1 v = gen<T1>(r);
			if constexpr (std::is_integral_v<T1> && std::is_signed_v<T1>)
				if (v == std::numeric_limits<T1>::min() || v == std::numeric_limits<T1>::max())
					continue;
			return v;
		} });
	std::array<T1, 4> up{}, down{}, old{};
	for (std::size_t i = 0; i < N; ++i)
	{
		up[i] = static_cast<T1>(x[i] + T1(1));
		down[i] = static_cast<T1>(x[i] - T1(1));
		old[i] = x[i];
	}
	u64 h = hash_arr(x);
	last_in = { show(x), "" };
	R.section(std::string(kname(K)) + ":increment:" + tname<T1>);
	if constexpr (requires { ++d; --d; d++; d--; })
	{
		a.load(x);
		auto &&p = ++d;
		verdict(a.read(), up, a.guards(), static_cast<const void *>(&p) == static_cast<const void *>(&d), "++v", h);
		a.load(x);
		auto &&m = --d;
		verdict(a.read(), down, a.guards(), static_cast<const void *>(&m) == static_cast<const void *>(&d), "--v", h);
		a.load(x);
		auto was = d++;
		verdict(a.read(), up, a.guards(), true, "v++", h);
		std::array<T1, N> w;
		for (std::size_t i = 0; i < N; ++i) w[i] = was[i];
		verdict(w, old, true, true, "old++", h);
		a.load(x);
		auto was2 = d--;
		verdict(a.read(), down, a.guards(), true, "v--", h);
		for (std::size_t i = 0; i < N; ++i) w[i] = was2[i];
		verdict(w, old, true, true, "old--", h);
	}
	else
		R.fail(R.sec + ":rejected", "increment or decrement does not compile");
}

int main(int argc, char **argv)
{
	R.start(argc, argv);
	rng r(R.seed);
	for (u64 c = 0; c < R.cases; ++c)
	{
		R.cur_case = c;
#if WHAT == 0
		for_types<int, unsigned, long long, unsigned long long, unsigned long, float, double>([&](auto t2) { all_ops<Vec, typename decltype(t2)::type>(r); });
#else
		for_kinds<Swz, View, VSwz, VV, SwzD>([&](auto k) { all_ops<k, T1>(r); });
		for_kinds<Vec, Swz, View, VSwz, VV, SwzA, SwzD, VSwzD>([&](auto k) { for_sizes([&](auto n) { steps<k, n>(r); }); });
#endif
	}
	return R.finish();
}
