// P07: where the operands' lanes are stored makes no difference to any operation, and no operation changes its operands.
//   ARITY 1, 2, 3 (or 0: functions with an output operand)   ELEM the element type   SLICE i of SLICES of the functions
#include "funcs.hpp"
using namespace mon;
using T = ELEM;
#ifndef SLICES
#define SLICES 1
#define SLICE 0
#endif
#ifdef THOROUGH
constexpr std::size_t STEP = 1;
#else
constexpr std::size_t STEP = 2;
#endif

constexpr kind KS[] = { Vec, SwzA, CVec, Swz, VSwzA, View, CView, SwzD, VSwz, CVSwz, VSwzD, VV };
constexpr std::size_t NK = std::size(KS);

constexpr std::size_t hash_name(const char *s)
{
	std::size_t h = 5381;
	for (; *s; ++s)
		h = h * 33 + static_cast<unsigned char>(*s);
	return h ^ (h >> 7);
}

inline std::string inputs_text;

__attribute__((noinline)) void verdict(const digest &want, const digest &got, bool untouched, const std::string &kinds, u64 h)
{
	R.saw(mix(h, hash_str(kinds.c_str())));
	if (!(want == got))
		R.fail(R.sec + ":" + kinds, "on plain vectors " + want.text() + ", with operands stored as " + kinds + " " + got.text() + " for " + inputs_text);
	if (!untouched)
		R.fail(R.sec + ":" + kinds + ":operand-changed", "an operand or memory around it changed, for " + inputs_text);
}

template <kind K, std::size_t N>
__attribute__((noinline)) bool untouched(holder<K, T, N> &h, const std::array<T, N> &a) { return h.guards() && hash_arr(h.read()) == hash_arr(a); }

template <typename F, std::size_t N, kind ...K>
__attribute__((noinline)) void one(const std::array<std::array<T, N>, 3> &in, const digest &want, u64 h)
{
	std::tuple<holder<K, T, N>...> hs;
	constexpr std::size_t A = sizeof...(K);
	[&]<std::size_t ...I>(std::index_sequence<I...>) {
		(std::get<I>(hs).load(in[I]), ...);
		const std::string kinds = ((std::string(kname(K)) + ",") + ...);
		if constexpr (requires { F::f(std::get<I>(hs).obj()...); })
		{
			using result = decltype(F::f(std::get<I>(hs).obj()...));
			digest got = digest_of<result>(F::f(std::get<I>(hs).obj()...));
			verdict(want, got, (untouched(std::get<I>(hs), in[I]) && ...), kinds, h);
		}
		else
			R.fail(R.sec + ":" + kinds + ":rejected", "accepted for plain vectors of size " + std::to_string(N) + " but not for operands stored as " + kinds);
	}(std::make_index_sequence<A>{});
}

template <typename F, std::size_t N>
constexpr bool on_vectors()
{
	using V = const dsga::basic_vector<T, N> &;
	if constexpr (F::arity == 1) return requires (V a) { F::f(a); };
	else if constexpr (F::arity == 2) return requires (V a, V b) { F::f(a, b); };
	else return requires (V a, V b, V c) { F::f(a, b, c); };
}

static bool small_numbers = false;

T value(rng &r)
{
	if constexpr (std::is_same_v<T, bool>) return r.coin();
	else if constexpr (std::is_floating_point_v<T>)
	{
		// small whole numbers cancel exactly, which shows the sign of a zero
		if (small_numbers) return static_cast<T>(r.range(-2, 2));
		return r.below(4) ? gen_mod<T>(r) : gen<T>(r);
	}
	else { T v; do v = gen_mod<T>(r, T(30)); while (v == 0); return v; }
}

template <typename F, std::size_t N>
void at_size(rng &r, std::size_t fi)
{
	if constexpr (on_vectors<F, N>())
	{
		std::array<std::array<T, N>, 3> in;
		small_numbers = r.below(3) == 0;
		for (auto &a : in)
			for (auto &v : a)
				v = value(r);
		if constexpr (!std::is_same_v<T, bool>)
			for (std::size_t i = 0; i < N; ++i)
			{
				if constexpr (F::dom == PosFirst) in[0][i] = static_cast<T>(0.5 + static_cast<double>(r.below(1000)) / 64);
				if constexpr (F::dom == ShiftCount) in[1][i] = static_cast<T>(r.below(31));
				if constexpr (F::dom == Ordered23) { in[1][i] = static_cast<T>(r.range(1, 10)); in[2][i] = static_cast<T>(r.range(10, 20)); }
				if constexpr (F::dom == Ordered12) { in[0][i] = static_cast<T>(r.range(1, 9)); in[1][i] = static_cast<T>(r.range(10, 20)); }
				if constexpr (std::is_same_v<F, fn::normalize>) in[0][i] = static_cast<T>(r.range(1, 9));
			}
		R.section(std::string(F::name) + "/" + std::to_string(N) + "/" + tname<T>);
		inputs_text = show(in[0]);
		u64 h = hash_arr(in[0]);
		if (F::arity > 1) { inputs_text += " " + show(in[1]); h = hash_arr(in[1], h); }
		if (F::arity > 2) { inputs_text += " " + show(in[2]); h = hash_arr(in[2], h); }
		holder<Vec, T, N> a(in[0]), b(in[1]), c(in[2]);
		const auto &va = a.s.v; const auto &vb = b.s.v; const auto &vc = c.s.v;
		digest want;
		if constexpr (F::arity == 1) want = digest_of(F::f(va));
		else if constexpr (F::arity == 2) want = digest_of(F::f(va, vb));
		else want = digest_of(F::f(va, vb, vc));
		if (R.cur_case == 0 && N == 3)
			R.sample(std::string(F::name) + " of " + inputs_text + " is " + want.text() + " for all storage kinds");
		// a different way of pairing the kinds up for every function and size
		constexpr std::size_t q = STEP == 1 || std::is_same_v<F, fn::cross> ? 0 : hash_name(F::name) / 96 + 5 * N;
		constexpr std::size_t s = (hash_name(F::name) + N) % NK, t = (hash_name(F::name) / 8 + 3 * N) % NK;
		[&]<std::size_t ...I>(std::index_sequence<I...>) {
			if constexpr (F::arity == 1) (one<F, N, KS[I]>(in, want, h), ...);
			else if constexpr (F::arity == 2) { (one<F, N, KS[(q + I) % NK], KS[(q + I + s) % NK]>(in, want, h), ...); 
				// cross() has versions of its own for vectors and for views
				if constexpr (STEP == 1 || std::is_same_v<F, fn::cross>) { (one<F, N, KS[(q + I) % NK], KS[(q + I + s + 3) % NK]>(in, want, h), ...); (one<F, N, KS[(q + I) % NK], KS[(q + I) % NK]>(in, want, h), ...); (one<F, N, KS[(q + I) % NK], KS[(q + (I ^ 1)) % NK]>(in, want, h), ...); (one<F, N, KS[(q + I) % NK], KS[(q + I + 4) % NK]>(in, want, h), ...); } }
			else (one<F, N, KS[(q + I) % NK], KS[(q + I + s) % NK], KS[(q + I + t) % NK]>(in, want, h), ...);
		}(std::make_index_sequence<(F::arity == 1 || STEP == 1 || std::is_same_v<F, fn::cross>) ? NK : 8>{});
	}
	(void)fi;
}

template <typename F, std::size_t FI>
void function(rng &r)
{
	if constexpr (FI % SLICES == SLICE)
	{
		constexpr bool any_size = on_vectors<F, 1>() || on_vectors<F, 2>() || on_vectors<F, 3>() || on_vectors<F, 4>();
		if constexpr (any_size)
		{
			// the quick tier looks at two sizes of most functions
			constexpr std::size_t odd = hash_name(F::name) % 2;
			if constexpr (STEP == 1 || odd) at_size<F, 1>(r, FI);
			if constexpr (STEP == 1 || !odd) at_size<F, 2>(r, FI);
			if constexpr (STEP == 1 || odd || std::is_same_v<F, fn::cross> || std::is_same_v<F, fn::cross_matrix>) at_size<F, 3>(r, FI);
			if constexpr (STEP == 1 || !odd) at_size<F, 4>(r, FI);
		}
	}
}

template <typename ...F>
void functions(rng &r)
{
	[&]<std::size_t ...I>(std::index_sequence<I...>) { (function<F, I>(r), ...); }(std::make_index_sequence<sizeof...(F)>{});
}

#if ARITY == 0
// output operands of every writable kind
template <kind KI, kind KO, std::size_t N>
__attribute__((noinline)) void outputs(rng &r)
{
	R.section("outputs/" + std::to_string(N) + "/" + tname<T>);
	auto x = arr<T, N>([&] { return gen_finite<T>(r); });
	inputs_text = show(x);
	holder<KI, T, N> in; in.load(x);
	const std::string kinds = std::string(kname(KI)) + "," + kname(KO);
	{
		holder<KO, T, N> out;
		std::array<T, N> whole, part;
		for (std::size_t i = 0; i < N; ++i) { whole[i] = std::trunc(x[i]); part[i] = x[i] - whole[i]; }
		auto &o = out.obj();
		if constexpr (requires { dsga::modf(in.obj(), o); })
		{
			auto p = dsga::modf(in.obj(), o);
			R.saw(mix(hash_arr(x), hash_str(kinds.c_str())));
			std::array<T, N> got{};
			if constexpr (std::is_arithmetic_v<decltype(p)>) got[0] = p; else for (std::size_t i = 0; i < N; ++i) got[i] = p[i];
			auto w = out.read();
			for (std::size_t i = 0; i < N; ++i)
				if (!same_val(got[i], part[i]) || !same_val(w[i], whole[i]))
				{
					R.fail(R.sec + ":modf:" + kinds, "modf of " + show(x) + " gives " + show(got) + " and " + show(w));
					break;
				}
			if (!out.guards() || !untouched(in, x))
				R.fail(R.sec + ":modf:" + kinds + ":guards", "modf changed more than its output");
		}
		else
			R.fail(R.sec + ":modf:" + kinds + ":rejected", "modf is not accepted");
	}
	{
		holder<KO, int, N> out;
		std::array<T, N> part; std::array<int, N> ex;
		for (std::size_t i = 0; i < N; ++i) part[i] = std::frexp(x[i], &ex[i]);
		auto &o = out.obj();
		if constexpr (requires { dsga::frexp(in.obj(), o); })
		{
			auto p = dsga::frexp(in.obj(), o);
			R.saw(mix(hash_arr(x), hash_str(kinds.c_str()) + 1));
			std::array<T, N> got{};
			if constexpr (std::is_arithmetic_v<decltype(p)>) got[0] = p; else for (std::size_t i = 0; i < N; ++i) got[i] = p[i];
			auto e = out.read();
			for (std::size_t i = 0; i < N; ++i)
				if (!same(got[i], part[i]) || e[i] != ex[i])
				{
					R.fail(R.sec + ":frexp:" + kinds, "frexp of " + show(x) + " gives " + show(got) + " and " + show(e));
					break;
				}
			if (!out.guards() || !untouched(in, x))
				R.fail(R.sec + ":frexp:" + kinds + ":guards", "frexp changed more than its output");
			// and back
			auto back = dsga::ldexp(p, o);
			std::array<T, N> b{};
			if constexpr (std::is_arithmetic_v<decltype(back)>) b[0] = back; else for (std::size_t i = 0; i < N; ++i) b[i] = back[i];
			for (std::size_t i = 0; i < N; ++i)
				if (!same(b[i], x[i]))
				{
					R.fail(R.sec + ":ldexp:" + kinds, "ldexp(frexp) of " + show(x) + " gives " + show(b));
					break;
				}
		}
		else
			R.fail(R.sec + ":frexp:" + kinds + ":rejected", "frexp is not accepted");
	}
}
#endif

int main(int argc, char **argv)
{
	R.start(argc, argv);
	rng r(R.seed);
	for (u64 c = 0; c < R.cases; ++c)
	{
		R.cur_case = c;
#if ARITY == 0
		for_kinds<Vec, CVec, Swz, View, CView, VSwz, CVSwz, VV, SwzD, VSwzA>([&](auto ki) { for_kinds<Vec, Swz, View, VSwz, VV, SwzD>([&](auto ko) { for_sizes([&](auto n) { outputs<ki, ko, n>(r); }); }); });
#elif ARITY == 1
		using namespace fn;
		functions<MON_FUNCTIONS1>(r);
#elif ARITY == 2
		functions<MON_FUNCTIONS2>(r);
#else
		functions<MON_FUNCTIONS3>(r);
#endif
	}
	return R.finish();
}
