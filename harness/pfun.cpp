// P09 to P14: every lane-wise function against a scalar reference, on vectors of every size, mixed storage kinds, scalar
// parameters and plain scalars.   GROUP selects the property.   ELEM, where given, restricts the element type.
#include "kinds.hpp"
using namespace mon;

struct exactly { template <typename T, typename I> bool operator ()(T got, T want, const I &) const { return same(got, want); } };
struct by_value { template <typename T, typename I> bool operator ()(T got, T want, const I &) const { return same_val(got, want); } };
template <u64 K> struct within { template <typename T, typename I> bool operator ()(T got, T want, const I &) const { return ulps(got, want) <= K; } };

template <typename ...As>
std::string show_tuple(const std::tuple<As...> &t) { return std::apply([](auto ...v) { return ((show(v) + " ") + ...); }, t); }
template <typename ...As>
u64 hash_tuple(const std::tuple<As...> &t) { u64 h = 3; std::apply([&](auto ...v) { ((h = mix(h, bits_of(v))), ...); }, t); return h; }

template <typename Res, typename In, std::size_t N, typename Cmp>
__attribute__((noinline)) void lanes_right(const std::array<Res, N> &got, const std::array<Res, N> &want, const std::array<In, N> &in, const char *how, Cmp cmp)
{
	u64 h = hash_str(how);
	for (auto &t : in)
		h = mix(h, hash_tuple(t));
	R.saw(h);
	for (std::size_t i = 0; i < N; ++i)
		if (!cmp(got[i], want[i], in[i]))
		{
			R.fail(R.sec + ":" + how, "lane " + std::to_string(i) + " of " + std::to_string(N) + ": got " + show(got[i]) + " want " + show(want[i]) + " for " + show_tuple(in[i]));
			break;
		}
}

template <typename Res, std::size_t N, typename V>
bool take(const V &v, std::array<Res, N> &got, const char *how)
{
	if constexpr (has_result_type<V, Res, N>)
	{
		got = result_lanes<Res, N>(v);
		return true;
	}
	else
	{
		R.fail(R.sec + ":" + how + ":result-type", "the result is not " + std::to_string(N) + " lanes of " + tname<Res>);
		return false;
	}
}

// MASK: which parameters are scalars, applied to every lane
template <unsigned MASK, typename Res, std::size_t N, int PASS, typename ...As, typename Call, typename Cmp>
__attribute__((noinline)) void at_size(const std::array<std::tuple<As...>, N> &in, const std::array<Res, N> &want, Call call, Cmp cmp)
{
	constexpr kind KS[2][4] = { { Vec, CVec, Vec, CVec }, { CView, Swz, VV, CVSwz } };
	[&]<std::size_t ...I>(std::index_sequence<I...>) {
		std::tuple<std::conditional_t<(MASK >> I) & 1, std::array<As, 1>, holder<KS[PASS][(I + N) % 4], As, N>>...> hs;
		const char *how = PASS ? "other kinds" : "vectors";
		auto load = [&]<std::size_t J>(std::integral_constant<std::size_t, J>) {
			if constexpr ((MASK >> J) & 1)
				std::get<J>(hs)[0] = std::get<J>(in[0]);
			else
			{
				std::array<std::tuple_element_t<J, std::tuple<As...>>, N> a{};
				for (std::size_t i = 0; i < N; ++i)
					a[i] = std::get<J>(in[i]);
				std::get<J>(hs).load(a);
			}
		};
		(load(std::integral_constant<std::size_t, I>{}), ...);
		auto arg = [&]<std::size_t J>(std::integral_constant<std::size_t, J>) -> decltype(auto) {
			if constexpr ((MASK >> J) & 1) return std::as_const(std::get<J>(hs)[0]);
			else return std::as_const(std::get<J>(hs).obj());
		};
		if constexpr (requires { call(arg(std::integral_constant<std::size_t, I>{})...); })
		{
			std::array<Res, N> got{};
			if (take<Res, N>(call(arg(std::integral_constant<std::size_t, I>{})...), got, how))
				lanes_right(got, want, in, how, cmp);
		}
		else
			R.fail(R.sec + ":" + how + ":rejected", "not accepted for size " + std::to_string(N));
	}(std::make_index_sequence<sizeof...(As)>{});
}

template <unsigned MASK, typename Res, typename ...As, typename Gen, typename Call, typename Model, typename Cmp>
void check(rng &r, const char *name, Gen gen_lane, Call call, Model model, Cmp cmp)
{
	R.section(std::string(name) + "/" + tname<std::tuple_element_t<0, std::tuple<As...>>> + (MASK ? "/scalar" : ""));
	using In = std::tuple<As...>;
	for_sizes([&](auto nn) {
		constexpr std::size_t N = nn;
		std::array<In, N> in;
		std::array<Res, N> want{};
		for (std::size_t i = 0; i < N; ++i)
		{
			in[i] = gen_lane(r);
			if constexpr (MASK != 0)
			{
				// lanes share the scalar parameters; keep the whole lane when the parameters are related
				In t = in[i];
				[&]<std::size_t ...J>(std::index_sequence<J...>) { ((((MASK >> J) & 1) ? void(std::get<J>(t) = std::get<J>(in[0])) : void()), ...); }(std::make_index_sequence<sizeof...(As)>{});
				in[i] = t;
			}
			want[i] = std::apply(model, in[i]);
		}
		if (R.cur_case == 0 && N == 3 && MASK == 0)
			R.sample(std::string(name) + " of lanes " + show_tuple(in[0]) + "| " + show_tuple(in[1]) + "| " + show_tuple(in[2]) + " is " + show(want));
		at_size<MASK, Res, N, 0, As...>(in, want, call, cmp);
		at_size<MASK, Res, N, 1, As...>(in, want, call, cmp);
	});
	if constexpr (MASK == 0)
	{
		// plain scalars
		std::array<In, 1> in{ gen_lane(r) };
		std::array<Res, 1> want{ std::apply(model, in[0]) };
		if constexpr (requires (const As &...a) { call(a...); })
		{
			std::array<Res, 1> got{};
			if constexpr (std::is_same_v<std::remove_cvref_t<decltype(std::apply(call, in[0]))>, Res>)
			{
				got[0] = std::apply(call, in[0]);
				lanes_right(got, want, in, "scalars", cmp);
			}
			else
				R.fail(R.sec + ":scalars:result-type", std::string("the scalar result is not ") + tname<Res>);
		}
		else
			R.fail(R.sec + ":scalars:rejected", "not accepted for scalars");
	}
}

#define CALL1(f) [](const auto &a) -> decltype(dsga::f(a)) { return dsga::f(a); }
#define CALL2(f) [](const auto &a, const auto &b) -> decltype(dsga::f(a, b)) { return dsga::f(a, b); }
#define CALL3(f) [](const auto &a, const auto &b, const auto &c) -> decltype(dsga::f(a, b, c)) { return dsga::f(a, b, c); }

template <typename T, typename G> auto lane1(G g) { return [g](rng &r) { return std::tuple<T>(g(r)); }; }

// two lanes with frequent ties and near ties
template <typename T>
std::tuple<T, T> close_pair(rng &r)
{
	T a = gen<T>(r), b = gen<T>(r);
	switch (r.below(5))
	{
		case 0: b = a; break;
		case 1:
			if constexpr (std::is_floating_point_v<T>) b = std::nextafter(a, r.coin() ? std::numeric_limits<T>::max() : std::numeric_limits<T>::lowest());
			else if constexpr (!std::is_same_v<T, bool>) b = a < std::numeric_limits<T>::max() ? static_cast<T>(a + 1) : static_cast<T>(a - 1);
			break;
		case 2:
			if constexpr (std::is_floating_point_v<T>) b = -a;
			break;
	}
	if (r.coin()) std::swap(a, b);
	return { a, b };
}

template <typename A> struct vector_of { template <typename T> using type = dsga::basic_vector<T, count_of<A>>; };
template <typename A> requires std::is_arithmetic_v<A> struct vector_of<A> { template <typename T> using type = T; };
template <typename T, typename A> using output_for = typename vector_of<std::remove_cvref_t<A>>::template type<T>;

template <typename T> constexpr bool numeric = !std::is_same_v<T, bool>;

#if GROUP == 9
// equality of whole vectors, across kinds and convertible types
template <typename T, typename U, std::size_t N>
void whole(rng &r)
{
	if constexpr (std::is_same_v<T, U> || (numeric<T> && numeric<U> && std::is_same_v<std::common_type_t<T, U>, T>))
	{
		R.section(std::string("==/") + tname<T> + "/" + tname<U> + "/" + std::to_string(N));
		std::array<T, N> a; std::array<U, N> b;
		// mostly equal lanes: one difference decides
		for (std::size_t i = 0; i < N; ++i)
		{
			b[i] = gen<U>(r);
			a[i] = static_cast<T>(b[i]);
		}
		bool want = true;
		if (r.coin())
		{
			std::size_t i = r.below(N);
			if constexpr (std::is_floating_point_v<T>) a[i] = r.coin() ? std::nextafter(a[i], T(0)) : r.coin() ? -a[i] : gen<T>(r);
			else if constexpr (numeric<T>) a[i] = r.coin() ? static_cast<T>(static_cast<std::make_unsigned_t<T>>(a[i]) ^ (std::make_unsigned_t<T>(1) << r.below(sizeof(T) * 8))) : gen<T>(r);
			else a[i] = !a[i];
		}
		for (std::size_t i = 0; i < N; ++i)
			want = want && a[i] == static_cast<T>(b[i]);
		for_kinds<Vec, CView, Swz, VV>([&](auto k) {
			constexpr kind K = k;
			constexpr kind K2 = std::array{ Vec, CView, Swz, VV }[(K + N + sizeof(U)) % 4];
			holder<K, T, N> x(a); holder<K2, U, N> y(b);
			R.saw(mix(hash_arr(a), hash_arr(b)) + K);
			if constexpr (requires { x.obj() == y.obj(); x.obj() != y.obj(); })
			{
				bool eq = x.obj() == y.obj(), ne = x.obj() != y.obj();
				if (eq != want || ne == want)
					R.fail(R.sec + ":" + kname(K), "== is " + show(eq) + " and != is " + show(ne) + " for " + show(a) + " and " + show(b));
				if constexpr (requires { y.obj() == x.obj(); y.obj() != x.obj(); })
				{
					if ((y.obj() == x.obj()) != want || (y.obj() != x.obj()) == want)
						R.fail(R.sec + ":" + kname(K) + ":exchanged", "== or != is wrong for " + show(b) + " and " + show(a));
				}
				else
					R.fail(R.sec + ":" + kname(K) + ":exchanged:rejected", "== is not accepted with its sides exchanged");
				bool self = x.obj() == x.obj();
				bool selfwant = true;
				for (auto v : a) selfwant = selfwant && v == v;
				if (self != selfwant)
					R.fail(R.sec + ":" + kname(K) + ":self", "x == x is " + show(self) + " for " + show(a));
			}
			else
				R.fail(R.sec + ":" + kname(K) + ":rejected", "== is not accepted");
		});
		// one lane and a scalar, the wider type on either side
		if constexpr (N == 1)
			for_kinds<Vec, CVec, Swz, View, CView, VSwz, CVSwz, VV, SwzA, SwzD, VSwzA, VSwzD>([&](auto k) {
				constexpr kind K = k;
				holder<K, T, 1> x(a); holder<K, U, 1> y(b);
				R.saw(mix(hash_arr(a), hash_arr(b)) + 77 + K);
				if ((x.obj() == b[0]) != want || (x.obj() != b[0]) == want || (b[0] == x.obj()) != want || (b[0] != x.obj()) == want)
					R.fail(R.sec + ":scalar:" + kname(K), "comparison with a scalar is wrong for " + show(a) + " and " + show(b));
				if ((y.obj() == a[0]) != want || (y.obj() != a[0]) == want || (a[0] == y.obj()) != want || (a[0] != y.obj()) == want)
					R.fail(R.sec + ":wider scalar:" + kname(K), "comparison with a scalar of a wider type is wrong for " + show(b) + " and " + show(a));
			});
	}
}

template <std::size_t N>
void reductions(rng &r)
{
	R.section("any all none/" + std::to_string(N));
	auto a = arr<bool, N>([&] { return r.below(3) != 0; });
	if (r.coin()) a.fill(r.coin());
	if (r.below(3) == 0) { bool b = r.coin(); a.fill(b); a[r.below(N)] = !b; }
	bool any = false, all = true;
	for (bool b : a) { any = any || b; all = all && b; }
	for_kinds<Vec, CVec, Swz, View, CView, VSwz, CVSwz, VV, SwzA, SwzD, VSwzA, VSwzD>([&](auto k) {
		holder<k, bool, N> x(a);
		R.saw(hash_arr(a) + k);
		if (dsga::any(x.obj()) != any) R.fail(R.sec + ":any:" + kname(k), "any is wrong for " + show(a));
		if (dsga::all(x.obj()) != all) R.fail(R.sec + ":all:" + kname(k), "all is wrong for " + show(a));
		if (dsga::none(x.obj()) != !any) R.fail(R.sec + ":none:" + kname(k), "none is wrong for " + show(a));
	});
	if (dsga::any(a[0]) != a[0] || dsga::all(a[0]) != a[0] || dsga::none(a[0]) == a[0])
		R.fail(R.sec + ":scalar", "any, all or none of a scalar is wrong");
}

template <typename T>
void group(rng &r)
{
	if constexpr (numeric<T>)
	{
		check<0, bool, T, T>(r, "lessThan", close_pair<T>, CALL2(lessThan), [](T a, T b) { return a < b; }, exactly{});
		check<0, bool, T, T>(r, "lessThanEqual", close_pair<T>, CALL2(lessThanEqual), [](T a, T b) { return a <= b; }, exactly{});
		check<0, bool, T, T>(r, "greaterThan", close_pair<T>, CALL2(greaterThan), [](T a, T b) { return a > b; }, exactly{});
		check<0, bool, T, T>(r, "greaterThanEqual", close_pair<T>, CALL2(greaterThanEqual), [](T a, T b) { return a >= b; }, exactly{});
	}
	else
	{
		check<0, bool, bool>(r, "compNot", lane1<bool>(gen<bool>), CALL1(compNot), [](bool a) { return !a; }, exactly{});
		check<0, bool, bool>(r, "logicalNot", lane1<bool>(gen<bool>), CALL1(logicalNot), [](bool a) { return !a; }, exactly{});
		check<0, bool, bool, bool>(r, "compAnd", close_pair<bool>, CALL2(compAnd), [](bool a, bool b) { return a && b; }, exactly{});
		check<0, bool, bool, bool>(r, "compOr", close_pair<bool>, CALL2(compOr), [](bool a, bool b) { return a || b; }, exactly{});
		for_sizes([&](auto n) { reductions<n>(r); });
	}
	check<0, bool, T, T>(r, "equal", close_pair<T>, CALL2(equal), [](T a, T b) { return a == b; }, exactly{});
	check<0, bool, T, T>(r, "notEqual", close_pair<T>, CALL2(notEqual), [](T a, T b) { return !(a == b); }, exactly{});
	for_sizes([&](auto n) {
		for_types<bool, int, unsigned, long long, unsigned long long, unsigned long, float, double>([&](auto u) { whole<T, typename decltype(u)::type, n>(r); });
	});
}
#elif GROUP == 10
// the exact result of rounding functions, by way of a wider type in which every argument is exact
template <typename T>
void group(rng &r)
{
	if constexpr (std::is_floating_point_v<T>)
	{
		auto any = lane1<T>(gen<T>);
		auto not_inf = lane1<T>([](rng &r) { T v; do v = gen<T>(r); while (std::isinf(v)); return v; });
		auto not_nan = lane1<T>([](rng &r) { T v; do v = gen<T>(r); while (std::isnan(v)); return v; });
		check<0, T, T>(r, "floor", any, CALL1(floor), [](T a) { return static_cast<T>(std::floor(static_cast<long double>(a))); }, by_value{});
		check<0, T, T>(r, "ceil", any, CALL1(ceil), [](T a) { return static_cast<T>(std::ceil(static_cast<long double>(a))); }, by_value{});
		check<0, T, T>(r, "trunc", any, CALL1(trunc), [](T a) { return static_cast<T>(std::trunc(static_cast<long double>(a))); }, by_value{});
		check<0, T, T>(r, "round", any, CALL1(round), [](T a) { return static_cast<T>(std::round(static_cast<long double>(a))); }, by_value{});
		check<0, T, T>(r, "roundEven", any, CALL1(roundEven), [](T a) { return static_cast<T>(std::nearbyint(static_cast<long double>(a))); }, by_value{});
		check<0, T, T>(r, "fract", not_inf, CALL1(fract), [](T a) { return static_cast<T>(a - static_cast<T>(std::floor(static_cast<long double>(a)))); }, by_value{});
		check<0, T, T>(r, "abs", any, CALL1(abs), [](T a) { return std::fabs(a); }, by_value{});
		check<0, T, T>(r, "sign", not_nan, CALL1(sign), [](T a) { return a > 0 ? T(1) : a < 0 ? T(-1) : T(0); }, by_value{});
		check<0, T, T>(r, "modf fraction", not_inf, [](const auto &a) { output_for<T, decltype(a)> w{}; return dsga::modf(a, w); },
			[](T a) { return static_cast<T>(a - static_cast<T>(std::trunc(static_cast<long double>(a)))); }, by_value{});
		check<0, T, T>(r, "modf whole", any, [](const auto &a) { output_for<T, decltype(a)> w{}; (void)dsga::modf(a, w); return w; },
			[](T a) { return static_cast<T>(std::trunc(static_cast<long double>(a))); }, by_value{});
	}
	else if constexpr (std::is_same_v<T, int> || std::is_same_v<T, long long>)
	{
		auto g = lane1<T>([](rng &r) { T v; do v = gen<T>(r); while (v == std::numeric_limits<T>::min()); return v; });
		check<0, T, T>(r, "abs", g, CALL1(abs), [](T a) { return a < 0 ? static_cast<T>(-a) : a; }, exactly{});
		check<0, T, T>(r, "sign", lane1<T>(gen<T>), CALL1(sign), [](T a) { return static_cast<T>((a > 0) - (a < 0)); }, exactly{});
	}
}
#elif GROUP == 11
template <typename T>
std::tuple<T, T, T> clamp_lane(rng &r)
{
	T v[3];
	do for (T &x : v) x = r.below(3) ? gen_mod<T>(r) : gen<T>(r); while (isnan_(v[0]) || isnan_(v[1]) || isnan_(v[2]));
	if (r.below(4) == 0) v[2] = v[1];
	if (r.below(4) == 0) v[0] = r.coin() ? v[1] : v[2];
	if (v[2] < v[1]) std::swap(v[1], v[2]);
	return { v[0], v[1], v[2] };
}

// min and max return one of their arguments; which one matters only when neither is smaller
struct one_of
{
	template <typename T, typename I> bool operator ()(T got, T want, const I &in) const
	{
		if (isnan_(std::get<0>(in)) || isnan_(std::get<1>(in)))
			return same(got, std::get<0>(in)) || same(got, std::get<1>(in));
		return same_val(got, want) && (same(got, std::get<0>(in)) || same(got, std::get<1>(in)));
	}
};

template <int K>
struct near
{
	template <typename T, typename I> bool operator ()(T got, T want, const I &in) const
	{
		if (isnan_(want)) return isnan_(got);
		T big = std::fabs(want);
		if constexpr (K == 0)		// mix: error relative to the larger product
		{
			T x = std::get<0>(in), y = std::get<1>(in), a = std::get<2>(in);
			big = std::max({ std::fabs(x), std::fabs(y), std::fabs(x * (1 - a)), std::fabs(y * a) });
			return std::fabs(got - want) <= 8 * std::numeric_limits<T>::epsilon() * big + std::numeric_limits<T>::min();
		}
		else
			return std::fabs(got - want) <= K * std::numeric_limits<T>::epsilon();
	}
};

template <typename T>
void group(rng &r)
{
	if constexpr (numeric<T>)
	{
		auto mn = [](T a, T b) { return b < a ? b : a; };
		auto mx = [](T a, T b) { return b < a ? a : b; };
		check<0, T, T, T>(r, "min", close_pair<T>, CALL2(min), mn, one_of{});
		check<0, T, T, T>(r, "max", close_pair<T>, CALL2(max), mx, one_of{});
		check<2, T, T, T>(r, "min", close_pair<T>, CALL2(min), mn, one_of{});
		check<2, T, T, T>(r, "max", close_pair<T>, CALL2(max), mx, one_of{});
		auto cl = [](T x, T lo, T hi) { return x < lo ? lo : hi < x ? hi : x; };
		check<0, T, T, T, T>(r, "clamp", clamp_lane<T>, CALL3(clamp), cl, by_value{});
		check<6, T, T, T, T>(r, "clamp", clamp_lane<T>, CALL3(clamp), cl, by_value{});
	}
	auto sel = [](rng &r) { return std::tuple<T, T, bool>(gen<T>(r), gen<T>(r), r.coin()); };
	check<0, T, T, T, bool>(r, "mix select", sel, CALL3(mix), [](T x, T y, bool b) { return b ? y : x; }, exactly{});
	if constexpr (std::is_floating_point_v<T>)
	{
		auto mixable = [](rng &r) {
			T x = gen_mod<T>(r), y = gen_mod<T>(r), a = r.below(4) ? static_cast<T>(r.unit()) : gen_mod<T>(r, T(3));
			if (r.below(4) == 0) { x *= T(1e15); y *= T(1e-12); }
			if (r.below(5) == 0) a = static_cast<T>(r.below(2));
			if (r.below(6) == 0) y = x;
			return std::tuple<T, T, T>(x, y, a); };
		auto mix_model = [](T x, T y, T a) { return static_cast<T>(static_cast<long double>(x) * (1 - static_cast<long double>(a)) + static_cast<long double>(y) * static_cast<long double>(a)); };
		check<0, T, T, T, T>(r, "mix", mixable, CALL3(mix), mix_model, near<0>{});
		check<4, T, T, T, T>(r, "mix", mixable, CALL3(mix), mix_model, near<0>{});
		// at the ends mix is exact
		auto ends = [](rng &r) { T x = gen_mod<T>(r), y = gen_mod<T>(r); return std::tuple<T, T, T>(x, y, static_cast<T>(r.below(2))); };
		check<0, T, T, T, T>(r, "mix ends", ends, CALL3(mix), [](T x, T y, T a) { return a == 0 ? x : y; }, by_value{});
		auto stepping = [](rng &r) { std::tuple<T, T> t; do t = close_pair<T>(r); while (isnan_(std::get<0>(t)) || isnan_(std::get<1>(t))); return t; };
		auto st = [](T e, T x) { return x < e ? T(0) : T(1); };
		check<0, T, T, T>(r, "step", stepping, CALL2(step), st, by_value{});
		check<1, T, T, T>(r, "step", stepping, CALL2(step), st, by_value{});
		auto smooth = [](rng &r) {
			T a = gen_mod<T>(r), b = gen_mod<T>(r), x = gen_mod<T>(r, T(150));
			while (!(a < b)) { a = gen_mod<T>(r); b = gen_mod<T>(r); }
			if (r.below(3) == 0) x = r.coin() ? a : b;
			else if (r.coin()) x = a + (b - a) * static_cast<T>(r.unit());
			return std::tuple<T, T, T>(a, b, x); };
		auto sm = [](T a, T b, T x) { long double t = (static_cast<long double>(x) - a) / (static_cast<long double>(b) - a); t = t < 0 ? 0 : t > 1 ? 1 : t; return static_cast<T>(t * t * (3 - 2 * t)); };
		// the rounding error of x - a and b - a, relative to b - a, is carried into the result
		auto smooth_ok = [](T got, T want, const std::tuple<T, T, T> &in) {
			auto [a, b, x] = in;
			if (x <= a) return got == T(0);
			if (x >= b) return got == T(1);
			return got >= 0 && got <= T(1) + 4 * std::numeric_limits<T>::epsilon() && std::fabs(got - want) <= 24 * std::numeric_limits<T>::epsilon(); };
		check<0, T, T, T, T>(r, "smoothstep", smooth, CALL3(smoothstep), sm, smooth_ok);
		check<3, T, T, T, T>(r, "smoothstep", smooth, CALL3(smoothstep), sm, smooth_ok);
		// the quotient is rounded before its floor is taken: exact where that does not matter
		auto mod_lane = [](rng &r) {
			T x = static_cast<T>(r.range(-4000, 4000)) / T(8), y;
			do y = static_cast<T>(r.range(-200, 200)) / T(8); while (y == 0);
			return std::tuple<T, T>(x, y); };
		auto md = [](T x, T y) { return x - y * std::floor(x / y); };
		check<0, T, T, T>(r, "mod", mod_lane, CALL2(mod), md, by_value{});
		check<2, T, T, T>(r, "mod", mod_lane, CALL2(mod), md, by_value{});
		auto mod_any = [](rng &r) {
			T x = gen_mod<T>(r, T(1000)), y;
			do y = gen_mod<T>(r); while (std::fabs(y) < T(0.01));
			if (r.below(3) == 0) { x = std::ldexp(x, static_cast<int>(r.range(-40, 40))); y = std::ldexp(y, static_cast<int>(r.range(-40, 40))); }
			return std::tuple<T, T>(x, y); };
		auto mod_ok = [](T got, T want, const std::tuple<T, T> &in) {
			T tol = 8 * std::numeric_limits<T>::epsilon() * (std::fabs(std::get<0>(in)) + std::fabs(std::get<1>(in)));
			T d = std::fabs(got - want), y = std::fabs(std::get<1>(in));
			return d <= tol || std::fabs(d - y) <= tol; };
		check<0, T, T, T>(r, "mod any", mod_any, CALL2(mod), md, mod_ok);
		auto three = [](rng &r) { return r.coin() ? std::tuple<T, T, T>(gen<T>(r), gen<T>(r), gen<T>(r)) : std::tuple<T, T, T>(gen_mod<T>(r), gen_mod<T>(r), gen_mod<T>(r)); };
		check<0, T, T, T, T>(r, "fma", three, CALL3(fma), [](T a, T b, T c) { return std::fma(a, b, c); }, by_value{});
		// cancellation shows whether the product was rounded
		auto cancel = [](rng &r) { T a = gen_mod<T>(r), b = gen_mod<T>(r); return std::tuple<T, T, T>(a, b, -(a * b)); };
		check<0, T, T, T, T>(r, "fma cancel", cancel, CALL3(fma), [](T a, T b, T c) { return std::fma(a, b, c); }, by_value{});
	}
}
#elif GROUP == 12
template <typename T>
void group(rng &r)
{
	if constexpr (std::is_floating_point_v<T>)
	{
		using L = long double;
		using lim = std::numeric_limits<T>;
		auto finite = lane1<T>([](rng &r) -> T { if (r.below(20) == 0) return lim::quiet_NaN(); T v; do v = gen<T>(r); while (std::fabs(v) > T(1e6) || std::isinf(v)); return v; });
		auto angle = lane1<T>([](rng &r) -> T { if (r.below(4) == 0) return gen<T>(r); T v; do v = gen<T>(r); while (std::fabs(v) > T(1e6) || std::isinf(v)); return v; });
		// of every magnitude: the largest results, those which overflow, and those which vanish
		constexpr T log_max = static_cast<T>(lim::max_exponent * 0.6931471805599453);
		auto big = lane1<T>([](rng &r) -> T { T v; do v = gen<T>(r); while (std::fabs(v) > lim::max() / 1000); return v; });
		auto unit = lane1<T>([](rng &r) -> T { T v; switch (r.below(10)) { case 8: v = std::exp(static_cast<T>(-r.unit()) * log_max); return r.coin() ? v : -v; case 9: v = gen<T>(r); return std::fabs(v) <= 1 ? v : 1 / v; case 0: return r.coin() ? T(1) : T(-1); case 1: return T(0); case 2: return static_cast<T>(r.range(-8, 8)) / 8; case 3: v = std::nextafter(T(1), T(0)); return r.coin() ? v : -v; case 4: return static_cast<T>((r.unit() * 2 - 1) * 1e-3); default: return static_cast<T>(r.unit() * 2 - 1); } });
		auto small = lane1<T>([](rng &r) -> T { switch (r.below(6)) { case 0: return gen<T>(r); case 1: return static_cast<T>((r.unit() * 2 - 1) * 1.01) * log_max; default: break; } return r.below(4) ? static_cast<T>((r.unit() * 2 - 1) * 20) : static_cast<T>((r.unit() * 2 - 1) * 1e-4); });
		auto above1 = lane1<T>([](rng &r) -> T { if (r.below(5) == 0) { T v = std::fabs(gen<T>(r)); return v < 1 ? 1 + v : v; } return r.below(5) == 0 ? T(1) : static_cast<T>(1 + std::exp((r.unit() * 2 - 1) * 12)); });
		auto positive = lane1<T>([](rng &r) -> T { switch (r.below(7)) { case 6: return std::fabs(gen<T>(r)); case 0: return lim::infinity(); case 1: return lim::denorm_min() * static_cast<T>(r.range(1, 1000)); case 2: return static_cast<T>(1 + (r.unit() * 2 - 1) * 1e-3); case 3: return T(0); default: return static_cast<T>(std::exp((r.unit() * 2 - 1) * 80)); } });
#define REF(f) [](T a) { return static_cast<T>(std::f(static_cast<L>(a))); }
		check<0, T, T>(r, "radians", big, CALL1(radians), [](T a) { return static_cast<T>(static_cast<L>(a) * std::numbers::pi_v<L> / 180); }, within<4>{});
		check<0, T, T>(r, "degrees", big, CALL1(degrees), [](T a) { return static_cast<T>(static_cast<L>(a) * 180 / std::numbers::pi_v<L>); }, within<4>{});
		check<0, T, T>(r, "sin", angle, CALL1(sin), REF(sin), within<4>{});
		check<0, T, T>(r, "cos", angle, CALL1(cos), REF(cos), within<4>{});
		check<0, T, T>(r, "tan", angle, CALL1(tan), REF(tan), within<4>{});
		check<0, T, T>(r, "asin", unit, CALL1(asin), REF(asin), within<4>{});
		check<0, T, T>(r, "acos", unit, CALL1(acos), REF(acos), within<4>{});
		check<0, T, T>(r, "atan", lane1<T>(gen<T>), CALL1(atan), REF(atan), within<4>{});
		auto two = [](rng &r) { return r.below(3) == 0 ? std::tuple<T, T>(gen<T>(r), gen<T>(r)) : std::tuple<T, T>(gen_mod<T>(r), gen_mod<T>(r)); };
		check<0, T, T, T>(r, "atan2", two, CALL2(atan), [](T y, T x) { return static_cast<T>(std::atan2(static_cast<L>(y), static_cast<L>(x))); }, within<4>{});
		check<0, T, T>(r, "sinh", small, CALL1(sinh), REF(sinh), within<4>{});
		check<0, T, T>(r, "cosh", small, CALL1(cosh), REF(cosh), within<4>{});
		check<0, T, T>(r, "tanh", small, CALL1(tanh), REF(tanh), within<4>{});
		check<0, T, T>(r, "asinh", angle, CALL1(asinh), REF(asinh), within<4>{});
		check<0, T, T>(r, "acosh", above1, CALL1(acosh), REF(acosh), within<4>{});
		check<0, T, T>(r, "atanh", unit, CALL1(atanh), REF(atanh), within<4>{});
		auto powers = [](rng &r) { T b = r.below(6) == 0 ? T(0) : static_cast<T>(std::exp((r.unit() * 2 - 1) * 10)), e = r.below(3) == 0 ? static_cast<T>(r.range(1, 8)) : static_cast<T>((r.unit() * 2 - 1) * 9);
			if (r.below(4) == 0) { do b = std::fabs(gen<T>(r)); while (!(b > 0)); e = r.coin() ? gen<T>(r) : static_cast<T>((r.unit() * 2 - 1) * 1.01) * log_max / std::log(b); }
			// whole and half exponents of any base, where a shorter way to the power would overflow or vanish
			else if (r.below(4) == 0) { do b = std::fabs(gen<T>(r)); while (!(b > 0)); e = static_cast<T>(r.range(-8, 8)) / 2; }
			if (b == 0) e = std::fabs(e) + T(0.5); return std::tuple<T, T>(b, e); };
		check<0, T, T, T>(r, "pow", powers, CALL2(pow), [](T b, T e) { return static_cast<T>(std::pow(static_cast<L>(b), static_cast<L>(e))); }, within<4>{});
		auto exponents = lane1<T>([](rng &r) -> T { switch (r.below(8)) { case 5: return gen<T>(r); case 6: return static_cast<T>(r.range(lim::min_exponent - lim::digits - 4, lim::max_exponent + 2)); case 7: return static_cast<T>((r.unit() * 2 - 1) * 1.05) * log_max; case 0: return static_cast<T>(r.range(-160, 160)); case 1: return -lim::infinity(); case 2: return T(2000); default: return static_cast<T>((r.unit() * 2 - 1) * 80); } });
		check<0, T, T>(r, "exp", exponents, CALL1(exp), REF(exp), within<4>{});
		check<0, T, T>(r, "exp2", exponents, CALL1(exp2), REF(exp2), within<4>{});
		check<0, T, T>(r, "log", positive, CALL1(log), REF(log), within<4>{});
		check<0, T, T>(r, "log2", positive, CALL1(log2), REF(log2), within<4>{});
	}
}
#elif GROUP == 13
// every binade, with mantissas at both ends and in between
template <typename T>
T any_magnitude(rng &r)
{
	using lim = std::numeric_limits<T>;
	switch (r.below(16))
	{
		case 0: return std::array<T, 8>{ T(0), lim::infinity(), lim::max(), lim::min(), lim::denorm_min(), T(1), T(-1), lim::quiet_NaN() }[r.below(8)];
		case 1: return -std::ldexp(T(1) + static_cast<T>(r.unit()), static_cast<int>(r.range(lim::min_exponent - 1, lim::max_exponent - 2)));
		case 2: { T s = static_cast<T>(r.range(1, 2048)); return s * s; }
		case 3: return std::ldexp(T(1), static_cast<int>(r.range(lim::min_exponent - lim::digits, lim::max_exponent - 1)));
		case 4: return std::ldexp(static_cast<T>(r.unit()), lim::min_exponent - 1);		// subnormal
		default:
		{
			T m = r.below(4) == 0 ? (r.coin() ? T(1) + lim::epsilon() * static_cast<T>(r.below(4)) : T(2) - lim::epsilon() * static_cast<T>(1 + r.below(4))) : T(1) + static_cast<T>(r.unit());
			if (m >= T(2)) m = T(2) - lim::epsilon();
			return std::ldexp(m, static_cast<int>(r.range(lim::min_exponent - lim::digits, lim::max_exponent - 1)));
		}
	}
}

template <typename T>
void group(rng &r)
{
	if constexpr (std::is_floating_point_v<T>)
	{
		using L = long double;
		auto g = lane1<T>(any_magnitude<T>);
		auto pos = lane1<T>([](rng &r) { T v; do v = any_magnitude<T>(r); while (!(v > 0)); return v; });
		auto ref = [](T a) { return static_cast<T>(1 / std::sqrt(static_cast<L>(a))); };
		check<0, T, T>(r, "sqrt", g, CALL1(sqrt), [](T a) { return a < 0 ? std::numeric_limits<T>::quiet_NaN() : std::sqrt(a); }, within<1>{});
		check<0, T, T>(r, "inversesqrt", g, CALL1(inversesqrt), [ref](T a) { return a < 0 ? std::numeric_limits<T>::quiet_NaN() : ref(a == 0 ? T(0) : a); }, within<3>{});
		check<0, T, T>(r, "fast_inversesqrt", pos, CALL1(fast_inversesqrt), ref, within<4>{});
		check<0, T, T>(r, "fast_inversesqrt special", lane1<T>([](rng &r) { return r.coin() ? std::numeric_limits<T>::quiet_NaN() : static_cast<T>(-1 - r.unit()); }), CALL1(fast_inversesqrt),
			[](T) { return std::numeric_limits<T>::quiet_NaN(); }, exactly{});
	}
}
#elif GROUP == 14
template <typename T>
void group(rng &r)
{
	using std::bit_cast;
	if constexpr (std::is_floating_point_v<T>)
	{
		using I = std::conditional_t<sizeof(T) == 4, int, long long>;
		using U = std::conditional_t<sizeof(T) == 4, unsigned, unsigned long long>;
		auto any = lane1<T>([](rng &r) { return r.coin() ? gen<T>(r) : bit_cast<T>(static_cast<U>(r.next())); });
		auto bits = [](rng &r) { return static_cast<I>(r.below(4) ? bit_cast<I>(static_cast<U>(r.next())) : bit_cast<I>(gen<T>(r))); };
		auto ubits = [bits](rng &r) { return static_cast<U>(bits(r)); };
		// NaN payloads included: bits, not values
		auto bitwise = [](T got, T want, const auto &) { return bits_of(got) == bits_of(want); };
		if constexpr (sizeof(T) == 4)
		{
			check<0, I, T>(r, "floatBitsToInt", any, CALL1(floatBitsToInt), [](T a) { return bit_cast<I>(a); }, exactly{});
			check<0, U, T>(r, "floatBitsToUint", any, CALL1(floatBitsToUint), [](T a) { return bit_cast<U>(a); }, exactly{});
			check<0, T, I>(r, "intBitsToFloat", lane1<I>(bits), CALL1(intBitsToFloat), [](I a) { return bit_cast<T>(a); }, bitwise);
			check<0, T, U>(r, "uintBitsToFloat", lane1<U>(ubits), CALL1(uintBitsToFloat), [](U a) { return bit_cast<T>(a); }, bitwise);
			check<0, I, I>(r, "int round trip", lane1<I>(bits), [](const auto &a) -> decltype(dsga::floatBitsToInt(dsga::intBitsToFloat(a))) { return dsga::floatBitsToInt(dsga::intBitsToFloat(a)); }, [](I a) { return a; }, exactly{});
		}
		else
		{
			check<0, I, T>(r, "doubleBitsToLongLong", any, CALL1(doubleBitsToLongLong), [](T a) { return bit_cast<I>(a); }, exactly{});
			check<0, U, T>(r, "doubleBitsToUlongLong", any, CALL1(doubleBitsToUlongLong), [](T a) { return bit_cast<U>(a); }, exactly{});
			check<0, T, I>(r, "longLongBitsToDouble", lane1<I>(bits), CALL1(longLongBitsToDouble), [](I a) { return bit_cast<T>(a); }, bitwise);
			check<0, T, U>(r, "ulongLongBitsToDouble", lane1<U>(ubits), CALL1(ulongLongBitsToDouble), [](U a) { return bit_cast<T>(a); }, bitwise);
			check<0, I, I>(r, "long round trip", lane1<I>(bits), [](const auto &a) -> decltype(dsga::doubleBitsToLongLong(dsga::longLongBitsToDouble(a))) { return dsga::doubleBitsToLongLong(dsga::longLongBitsToDouble(a)); }, [](I a) { return a; }, exactly{});
		}
		// isnan() and isinf() have an overload for each kind of storage
		for_sizes([&](auto nn) {
			constexpr std::size_t N = nn;
			auto a = arr<T, N>([&] { return std::get<0>(any(r)); });
			std::array<bool, N> nan{}, inf{};
			for (std::size_t i = 0; i < N; ++i) { nan[i] = std::fpclassify(a[i]) == FP_NAN; inf[i] = std::fpclassify(a[i]) == FP_INFINITE; }
			[&]<std::size_t ...K>(std::index_sequence<K...>) {
				([&] {
					holder<static_cast<kind>(K), T, N> h(a);
					std::array<bool, N> got{};
					const std::string how = std::string("isnan and isinf of ") + kname(static_cast<kind>(K));
					R.section(how + "/" + tname<T>);
					R.saw(mix(hash_arr(a), hash_str(how.c_str())));
					if (take<bool, N>(dsga::isnan(std::as_const(h.obj())), got, how.c_str()) && got != nan) R.fail(R.sec + ":isnan", "isnan of " + show(a) + " gives " + show(got));
					if (take<bool, N>(dsga::isinf(std::as_const(h.obj())), got, how.c_str()) && got != inf) R.fail(R.sec + ":isinf", "isinf of " + show(a) + " gives " + show(got));
				}(), ...);
			}(std::make_index_sequence<12>{});
		});
		check<0, bool, T>(r, "isnan", any, CALL1(isnan), [](T a) { constexpr U e = std::numeric_limits<T>::has_infinity ? bit_cast<U>(std::numeric_limits<T>::infinity()) : 0; return (bit_cast<U>(a) & ~(U(1) << (sizeof(U) * 8 - 1))) > e; }, exactly{});
		check<0, bool, T>(r, "isinf", any, CALL1(isinf), [](T a) { constexpr U e = bit_cast<U>(std::numeric_limits<T>::infinity()); return (bit_cast<U>(a) & ~(U(1) << (sizeof(U) * 8 - 1))) == e; }, exactly{});
		auto fin = lane1<T>([](rng &r) { T v; do v = r.coin() ? gen<T>(r) : bit_cast<T>(static_cast<U>(r.next())); while (!std::isfinite(v)); return v; });
		auto fr = [](const auto &a) {
			if constexpr (std::is_arithmetic_v<std::remove_cvref_t<decltype(a)>>) { int e = 0; return dsga::frexp(a, e); }
			else { dsga::basic_vector<int, count_of<decltype(a)>> e; return dsga::frexp(a, e); } };
		auto ex = [](const auto &a) {
			if constexpr (std::is_arithmetic_v<std::remove_cvref_t<decltype(a)>>) { int e = 0; (void)dsga::frexp(a, e); return e; }
			else { dsga::basic_vector<int, count_of<decltype(a)>> e; (void)dsga::frexp(a, e); return e; } };
		// the significand and exponent from the representation
		auto exponent = [](T a) {
			if (a == 0) return 0;
			constexpr int digits = std::numeric_limits<T>::digits, bias = std::numeric_limits<T>::max_exponent - 1;
			U b = bit_cast<U>(a) & ~(U(1) << (sizeof(U) * 8 - 1));
			int e = static_cast<int>(b >> (digits - 1));
			if (e) return e - bias + 1;
			return static_cast<int>(std::bit_width(b)) - (digits - 1) - bias + 1; };
		check<0, int, T>(r, "frexp exponent", fin, ex, exponent, exactly{});
		check<0, T, T>(r, "frexp significand", fin, fr, [exponent](T a) { return static_cast<T>(scalbnl(static_cast<long double>(a), -exponent(a))); }, exactly{});
		check<0, T, T>(r, "frexp special", lane1<T>([](rng &r) { return r.coin() ? std::numeric_limits<T>::quiet_NaN() : (r.coin() ? 1 : -1) * std::numeric_limits<T>::infinity(); }), fr, [](T a) { return a; }, exactly{});
		auto scaled = [](rng &r) { T v = gen<T>(r); if (r.coin()) v = bit_cast<T>(static_cast<U>(r.next())); return std::tuple<T, int>(v, static_cast<int>(r.below(3) ? r.range(-60, 60) : r.range(-2200, 2200))); };
		check<0, T, T, int>(r, "ldexp", scaled, CALL2(ldexp), [](T a, int e) { return static_cast<T>(scalbnl(static_cast<long double>(a), e)); }, exactly{});
		check<0, T, T>(r, "ldexp of frexp", fin, [](const auto &a) {
			if constexpr (std::is_arithmetic_v<std::remove_cvref_t<decltype(a)>>) { int e = 0; auto m = dsga::frexp(a, e); return dsga::ldexp(m, e); }
			else { dsga::basic_vector<int, count_of<decltype(a)>> e; auto m = dsga::frexp(a, e); return dsga::ldexp(m, e); } }, [](T a) { return a; }, exactly{});
	}
	else if constexpr (numeric<T>)
	{
		using U = std::make_unsigned_t<T>;
		auto any = lane1<T>([](rng &r) { return r.coin() ? gen<T>(r) : static_cast<T>(r.next()); });
		check<0, T, T>(r, "byteswap", any, CALL1(byteswap), [](T a) { U u = static_cast<U>(a), o = 0; for (std::size_t i = 0; i < sizeof(T); ++i) o = static_cast<U>((o << 8) | ((u >> (8 * i)) & 0xff)); return static_cast<T>(o); }, exactly{});
		check<0, T, T>(r, "byteswap twice", any, [](const auto &a) -> decltype(dsga::byteswap(dsga::byteswap(a))) { return dsga::byteswap(dsga::byteswap(a)); }, [](T a) { return a; }, exactly{});
		R.section("to_underlying");
		enum class e : T { a = std::numeric_limits<T>::max(), b = 3, c = std::numeric_limits<T>::min() };
		for (e v : { e::a, e::b, e::c })
		{
			R.saw(static_cast<u64>(static_cast<T>(v)));
			if (dsga::to_underlying(v) != static_cast<T>(v) || !std::is_same_v<decltype(dsga::to_underlying(v)), T>)
				R.fail(R.sec, "to_underlying is not the enumerator's value");
		}
	}
}
#endif

int main(int argc, char **argv)
{
	R.start(argc, argv);
	rng r(R.seed);
	for (u64 c = 0; c < R.cases; ++c)
	{
		R.cur_case = c;
#ifdef ELEM
		group<ELEM>(r);
#else
		for_types<bool, int, unsigned, long long, unsigned long long, unsigned long, float, double>([&](auto t) { group<typename decltype(t)::type>(r); });
#endif
	}
	return R.finish();
}
