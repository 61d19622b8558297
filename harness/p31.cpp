// P31: the ordering helpers (examples/compare.hxx) order vectors and matrices lexicographically by lane.
//   ELEM, ELEM2 element types of the two sides
#include "kinds.hpp"
#include <compare>
#include <optional>
#include "compare.hxx"
using namespace mon;
using X = ELEM;
using Y = ELEM2;
using CT = std::common_type_t<X, Y>;
#if defined(__has_feature)
#define HAS_ASAN __has_feature(address_sanitizer)
#else
#define HAS_ASAN 0
#endif
#if defined(__SANITIZE_ADDRESS__) || HAS_ASAN
constexpr bool strict = true;			// lanes which are too far apart overflow: known finding, looked at without a sanitizer only
#else
constexpr bool strict = false;
#endif

// less -1, equal 0, greater 1, unordered 2: from the exact values of two lanes
template <typename P, typename Q>
int cmp1(P a, Q b)
{
	if constexpr (std::is_integral_v<P> && std::is_integral_v<Q>)
		return std::cmp_less(a, b) ? -1 : std::cmp_greater(a, b) ? 1 : 0;
	else
	{
		CT x = static_cast<CT>(a), y = static_cast<CT>(b);		// lanes of a different nature are compared as their common type
		return x < y ? -1 : x > y ? 1 : x == y ? 0 : 2;
	}
}

template <typename P, typename Q>
bool far_apart(P a, Q b)
{
	if constexpr (std::is_integral_v<P> && std::is_integral_v<Q> && std::is_signed_v<P> && std::is_signed_v<Q>)
	{
		std::common_type_t<P, Q> d;
		return __builtin_sub_overflow(static_cast<std::common_type_t<P, Q>>(a), static_cast<std::common_type_t<P, Q>>(b), &d);
	}
	else return false;
}

template <std::size_t N>
int model(const std::array<X, N> &a, const std::array<Y, N> &b, const std::array<int, N> &prio, const std::array<int, N> &dir)
{
	for (std::size_t i = 0; i < N; ++i)
		if (isnan_(a[i]) || isnan_(b[i])) return 2;
	for (std::size_t i = 0; i < N; ++i)
		if (int c = cmp1(a[prio[i]], b[prio[i]])) return c * dir[i];
	return 0;
}

template <typename O>
int order(O o)
{
	if (o < 0) return -1;
	if (o > 0) return 1;
	if (o == 0) return 0;
	return 2;
}

template <typename E>
E near_or_any(rng &r)
{
	switch (r.below(4))
	{
		case 0: return gen<E>(r);
		case 1: { const E t[] = { E(0), E(1), E(2), static_cast<E>(E(0) - E(1)), std::numeric_limits<E>::max(), std::numeric_limits<E>::lowest() }; return t[r.below(6)]; }
		default: return static_cast<E>(r.below(3));
	}
}

template <std::size_t N, kind K1, kind K2>
void pair_of(rng &r)
{
	std::array<X, N> a;
	std::array<Y, N> b;
	for (std::size_t i = 0; i < N; ++i)
	{
		a[i] = near_or_any<X>(r);
		// often the same value, or the next one, on both sides: the later lanes have to decide
		if (r.below(3)) { if constexpr (std::is_same_v<X, Y>) b[i] = a[i]; else b[i] = static_cast<Y>(a[i] > X(-1000) && a[i] < X(1000) ? a[i] : X(1)); if (r.below(4) == 0 && b[i] != std::numeric_limits<Y>::max()) b[i] = static_cast<Y>(b[i] + Y(1)); }
		else b[i] = near_or_any<Y>(r);
	}
	bool far = false;
	std::array<bool, N> fars;
	for (std::size_t i = 0; i < N; ++i) far = (fars[i] = far_apart(a[i], b[i]) || far_apart(b[i], a[i])) || far;
	if (far && strict) { R.count("far apart lanes, not compared here"); return; }
	holder<K1, X, N> ha(a);
	holder<K2, Y, N> hb(b);
	const auto &x = ha.obj();
	const auto &y = hb.obj();
	std::array<int, N> id, up, pr, dr;
	for (std::size_t i = 0; i < N; ++i) { id[i] = static_cast<int>(i); up[i] = 1; pr[i] = static_cast<int>(i); dr[i] = r.below(3) ? 1 : -1; }
	for (std::size_t i = N; i > 1; --i) std::swap(pr[i - 1], pr[r.below(i)]);
	const int want = model(a, b, id, up), back = want == 2 ? 2 : -want;
	const std::string in = show(a) + " and " + show(b);
	// the lane which decides is too far apart for its difference: the known finding
	auto deciding = [&](const std::array<int, N> &prio) { for (int p : prio) if (cmp1(a[p], b[p])) return bool(fars[p]); return false; };
	const bool far1 = deciding(id), far2 = deciding(pr);
	auto bad = [&](const char *how, int g, int w, bool excused) {
		if (g != w) R.fail(excused ? std::string("far-apart-signed-lanes/") + tname<X> + "," + tname<Y> : R.sec + ":" + how, std::string(how) + " is " + std::to_string(g) + ", should be " + std::to_string(w) + " for " + in);
	};
	R.saw(mix(hash_arr(a), mix(hash_arr(b), static_cast<u64>(K1 * 8 + K2))), want != 0);
	if (far) R.count("far apart lanes");
	const auto o = x <=> y;
	if constexpr (std::is_integral_v<X> && std::is_integral_v<Y>) static_assert(std::is_same_v<decltype(x <=> y), std::strong_ordering>);
	else static_assert(std::is_same_v<decltype(x <=> y), std::partial_ordering>);
	bad("<=>", order(o), want, far1);
	bad("<=> the other way about", order(y <=> x), back, far1);
	bad("<", x < y, want == -1, far1);
	bad(">", x > y, want == 1, far1);
	bad("<=", x <= y, want == -1 || want == 0, far1);
	bad(">=", x >= y, want == 1 || want == 0, far1);
	if constexpr (std::is_same_v<X, Y>) bad("== beside <=>", x == y, want == 0, far1);
	// the same with the priorities of the lanes exchanged and some of them downwards
	{
		const auto w0 = dsga::default_comparison_weights<N>();
		dsga::basic_vector<int, N> w;
		for (std::size_t i = 0; i < N; ++i) w[pr[i]] = w0[i] * dr[i];
		const int wp = model(a, b, pr, dr);
		bad("weighted_compare", order(dsga::weighted_compare(x, y, w)), wp, far2);
		bad("weighted_compare with the default", order(dsga::weighted_compare(x, y, w0)), want, far1);
	}
	if (!ha.guards() || !hb.guards() || !std::equal(a.begin(), a.end(), ha.read().begin(), [](X p, X q) { return same(p, q); })) R.fail(R.sec + ":arguments", "comparison wrote to its arguments " + in);
	if (R.evals % 9973 == 1) R.sample(in + " order " + std::to_string(want));
}

template <std::size_t N>
void containers(rng &r)
{
	if constexpr (std::is_same_v<X, Y>)
	{
		const std::size_t n = 2 + r.below(40);
		std::vector<std::array<X, N>> m;
		std::vector<dsga::basic_vector<X, N>> v;
		std::set<dsga::basic_vector<X, N>> s;
		std::set<std::array<X, N>> ms;
		for (std::size_t k = 0; k < n; ++k)
		{
			std::array<X, N> a;
			for (auto &e : a)
			{
				do e = r.below(3) ? static_cast<X>(r.range(0, 2)) : near_or_any<X>(r); while (isnan_(e));
				if constexpr (std::is_floating_point_v<X>) e += X(0);			// one zero only, so that arrays and vectors order alike
				else if constexpr (std::is_signed_v<X>) e = static_cast<X>(e / 2);		// near enough to be subtracted
			}
			m.push_back(a);
			dsga::basic_vector<X, N> x{};
			std::memcpy(&x, a.data(), sizeof x);
			v.push_back(x);
			const bool isnew = s.insert(x).second, mnew = ms.insert(a).second;
			if (isnew != mnew) R.fail(R.sec + ":set insertion", "a set of vectors and a set of arrays disagree about " + show(a));
			if (r.below(4) == 0) { if (s.erase(v[r.below(v.size())]) != 0) { /* mirrored below */ } ms.clear(); for (auto &q : s) ms.insert(dsga::to_array(q)); }
		}
		std::stable_sort(v.begin(), v.end());
		std::stable_sort(m.begin(), m.end());
		R.saw(mix(hash_arr(m[0]), hash_arr(m[n - 1])));
		for (std::size_t k = 0; k < n; ++k)
			if (std::memcmp(&v[k], m[k].data(), sizeof v[k])) { R.fail(R.sec + ":sort", "sorted vectors differ from sorted arrays at " + show(m[k])); break; }
		auto it = ms.begin();
		for (auto &q : s) if (std::memcmp(&q, it++->data(), sizeof q)) { R.fail(R.sec + ":set order", "an ordered set of vectors is out of order"); break; }
	}
}

template <std::size_t C, std::size_t Rw>
void matrices(rng &r)
{
	if constexpr (std::is_floating_point_v<X> && std::is_floating_point_v<Y>)
	{
		std::array<X, C * Rw> a;
		std::array<Y, C * Rw> b;
		for (std::size_t i = 0; i < C * Rw; ++i)
		{
			a[i] = r.below(8) ? static_cast<X>(r.range(0, 2)) : near_or_any<X>(r);
			b[i] = r.below(12) ? static_cast<Y>(a[i]) : near_or_any<Y>(r);
		}
		dsga::basic_matrix<X, C, Rw> x;
		dsga::basic_matrix<Y, C, Rw> y;
		std::memcpy(&x, a.data(), sizeof a);
		std::memcpy(&y, b.data(), sizeof b);
		int want = 0;
		std::array<int, Rw> id, up;
		for (std::size_t i = 0; i < Rw; ++i) { id[i] = static_cast<int>(i); up[i] = 1; }
		for (std::size_t c = 0; c < C && want == 0; ++c)
		{
			std::array<X, Rw> p;
			std::array<Y, Rw> q;
			std::copy_n(a.begin() + c * Rw, Rw, p.begin());
			std::copy_n(b.begin() + c * Rw, Rw, q.begin());
			want = model(p, q, id, up);
		}
		R.saw(mix(hash_arr(a), hash_arr(b)), want != 0);
		const std::string in = show(a) + " and " + show(b);
		R.check(order(x <=> y) == want, "<=>", "matrices order " + std::to_string(order(x <=> y)) + " should be " + std::to_string(want) + ": " + in);
		R.check((x < y) == (want == -1) && (x > y) == (want == 1) && (x <= y) == (want == -1 || want == 0) && (x >= y) == (want == 1 || want == 0), "relations", "a relation of matrices is wrong: " + in);
	}
}

int main(int argc, char **argv)
{
	R.start(argc, argv);
	rng r(R.seed);
	static_assert(dsga::default_comparison_weights<4>()[0] > dsga::default_comparison_weights<4>()[1] + dsga::default_comparison_weights<4>()[2] + dsga::default_comparison_weights<4>()[3]);
	for (R.cur_case = 0; R.cur_case < R.cases; ++R.cur_case)
		for_sizes([&](auto n) {
			constexpr std::size_t N = n;
			const std::string w = std::string("order/") + tname<X> + "," + tname<Y> + "/" + std::to_string(N);
			R.section(w + "/vec"); pair_of<N, Vec, Vec>(r); pair_of<N, CVec, Vec>(r);
			R.section(w + "/swizzle"); pair_of<N, Swz, Vec>(r); pair_of<N, Vec, VSwz>(r);
			R.section(w + "/view"); pair_of<N, View, CView>(r); pair_of<N, VV, Swz>(r);
			if (r.below(4) == 0) { R.section(w + "/containers"); containers<N>(r); }
			if constexpr (N > 1) { R.section(w + "/matrix"); matrices<N, 2>(r); matrices<N, 3>(r); matrices<N, 4>(r); }
		});
	return R.finish();
}
