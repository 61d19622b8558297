// P22: iterators obey the laws of random-access iterators, visit the logical lanes, and write exactly one lane; standard
// algorithms over them do what they do over an array.
//   ELEM element type    WHAT 0: walks    1: algorithms
#include "kinds.hpp"
#include <iterator>
#include <numeric>
#include <ranges>
using namespace mon;
using T = ELEM;

T value(rng &r)
{
	T v = gen_mod<T>(r, std::is_same_v<T, bool> ? T(1) : T(60));
	return v;
}

struct pos_model { long p; };

// a long random walk of one iterator type between b and e; at[i] is the address of logical position i
template <typename It, typename P, std::size_t N>
__attribute__((noinline)) void walk(rng &r, const It b, const It e, const std::array<P, N> &at, const char *what)
{
	using D = std::iter_difference_t<It>;
	auto bad = [&](const char *how, long p) { R.fail(R.sec + ":" + what + ":" + how, std::string("an iterator from ") + what + " breaks a law at position " + std::to_string(p) + ": " + how); };
	constexpr long n = static_cast<long>(N);
	if (e - b != static_cast<D>(n) || b - e != static_cast<D>(-n)) bad("end - begin", 0);
	It i = b, j = b;
	long p = 0, q = 0;
	for (int step = 0; step < 40; ++step)
	{
		R.saw(mix(mix(static_cast<u64>(p * 8 + q), step), hash_str(what)), true);
		It &x = r.coin() ? i : j;
		long &px = &x == &i ? p : q;
		const long to = r.range(0, n);
		const char *op = "";
		switch (r.below(14))
		{
			case 0: if (px < n) { op = "++i"; It &back = ++x; if (&back != &x) bad("++i returns", px); ++px; } break;
			case 1: if (px > 0) { op = "--i"; It &back = --x; if (&back != &x) bad("--i returns", px); --px; } break;
			case 2: if (px < n) { op = "i++"; It old = x++; if (!(old == b + static_cast<D>(px))) bad("i++ returns", px); ++px; } break;
			case 3: if (px > 0) { op = "i--"; It old = x--; if (!(old == b + static_cast<D>(px))) bad("i-- returns", px); --px; } break;
			case 4: { op = "i += n"; It &back = (x += static_cast<D>(to - px)); if (&back != &x) bad("i += n returns", px); px = to; } break;
			case 5: { op = "i -= n"; It &back = (x -= static_cast<D>(px - to)); if (&back != &x) bad("i -= n returns", px); px = to; } break;
			case 6: op = "i + n"; { It t = x + static_cast<D>(to - px); x = t; px = to; } break;
			case 7: op = "n + i"; { It t = static_cast<D>(to - px) + x; x = t; px = to; } break;
			case 8: op = "i - n"; { It t = x - static_cast<D>(px - to); x = t; px = to; } break;
			case 9: op = "copy"; i = j; p = q; break;
			case 10: op = "construct"; { It t(i); It u(std::move(t)); It w{}; w = u; j = w; q = p; } break;
			case 11: op = "std::next"; x = std::next(x, static_cast<D>(to - px)); px = to; break;
			case 12: op = "from end"; x = e - static_cast<D>(n - to); px = to; break;
			default: op = "swap"; { using std::swap; swap(i, j); std::swap(p, q); } break;
		}
		for (auto [it, pp] : { std::pair<const It &, long>(i, p), std::pair<const It &, long>(j, q) })
		{
			if (it - b != static_cast<D>(pp) || e - it != static_cast<D>(n - pp) || std::distance(b, it) != static_cast<D>(pp)) bad(op, pp);
			if ((it == e) != (pp == n) || (it != e) == (pp == n) || (it == b) != (pp == 0)) bad("==", pp);
			if (pp < n)
			{
				if (std::addressof(*it) != at[static_cast<std::size_t>(pp)]) bad("*", pp);
				if constexpr (requires { it.operator->(); }) { if (it.operator->() != at[static_cast<std::size_t>(pp)]) bad("->", pp); }
				if (std::addressof(*(b + static_cast<D>(pp))) != std::addressof(*it)) bad("+", pp);
			}
			const long k = r.range(0, n - 1);
			if (std::addressof(it[static_cast<D>(k - pp)]) != at[static_cast<std::size_t>(k)]) bad("[]", pp);
		}
		if (i - j != static_cast<D>(p - q)) bad("i - j", p);
		if ((i == j) != (p == q) || (i != j) != (p != q) || (i < j) != (p < q) || (i > j) != (p > q) || (i <= j) != (p <= q) || (i >= j) != (p >= q)) bad("comparison", p);
		if ((i <=> j == 0) != (p == q) || (i <=> j < 0) != (p < q)) bad("<=>", p);
	}
}

// mutable iterators convert to constant ones, and compare with them
template <typename It, typename CIt>
void mixed(It b, It e, CIt cb, CIt ce, long n, const char *what)
{
	R.saw(hash_str(what));
	for (long k = 0; k <= n; ++k)
	{
		using D = std::iter_difference_t<It>;
		CIt c = b + static_cast<D>(k), d;
		d = b + static_cast<D>(k);
		if (!(c == cb + static_cast<D>(k)) || !(d == c) || !(cb + static_cast<D>(k) == b + static_cast<D>(k)) || !(b + static_cast<D>(k) == c) || ce - c != static_cast<D>(n - k) || (k < n && !(c < ce)))
			R.fail(R.sec + ":" + what + ":mixed", "a constant iterator made from a mutable one is elsewhere");
	}
	(void) e;
}

template <typename V, typename P, std::size_t N>
void walks(rng &r, V &v, const std::array<P, N> &at, bool writable)
{
	const auto &c = std::as_const(v);
	using CP = const std::remove_pointer_t<P> *;
	std::array<P, N> back = at;
	std::reverse(back.begin(), back.end());
	std::array<CP, N> cat, cback;
	std::copy(at.begin(), at.end(), cat.begin());
	std::copy(back.begin(), back.end(), cback.begin());
	if constexpr (std::is_const_v<std::remove_reference_t<decltype(*v.begin())>>) { walk(r, v.begin(), v.end(), cat, "begin"); walk(r, v.rbegin(), v.rend(), cback, "rbegin"); }
	else
	{
		walk(r, v.begin(), v.end(), at, "begin");
		walk(r, v.rbegin(), v.rend(), back, "rbegin");
		mixed(v.begin(), v.end(), v.cbegin(), v.cend(), N, "begin");
	}
	if (writable == std::is_const_v<std::remove_reference_t<decltype(*v.begin())>>)
		R.fail(R.sec + ":const", writable ? "no writable iterator" : "a writable iterator of lanes which are constant");
	walk(r, v.cbegin(), v.cend(), cat, "cbegin");
	walk(r, v.crbegin(), v.crend(), cback, "crbegin");
	walk(r, c.begin(), c.end(), cat, "begin const");
	walk(r, c.rbegin(), c.rend(), cback, "rbegin const");
	walk(r, c.cbegin(), c.cend(), cat, "cbegin const");
	walk(r, c.crbegin(), c.crend(), cback, "crbegin const");
	walk(r, std::make_reverse_iterator(v.end()), std::make_reverse_iterator(v.begin()), std::conditional_t<std::is_const_v<std::remove_reference_t<decltype(*v.begin())>>, std::array<CP, N>, std::array<P, N>>(
		[&] { std::conditional_t<std::is_const_v<std::remove_reference_t<decltype(*v.begin())>>, std::array<CP, N>, std::array<P, N>> x; std::copy(back.begin(), back.end(), x.begin()); return x; }()), "reversed begin");
	std::size_t n = 0;
	for (const auto &x : v) { if (n >= N || std::addressof(x) != at[n]) R.fail(R.sec + ":for", "range-for visits other lanes"); ++n; }
	R.check(n == N && std::size(v) == N && std::ranges::size(v) == N && static_cast<std::size_t>(std::ranges::distance(c)) == N, "count", "iteration has another number of lanes");
	using It = decltype(v.begin());
	R.check(std::random_access_iterator<It> && std::random_access_iterator<decltype(v.cbegin())> && std::is_convertible_v<It, decltype(v.cbegin())> && !std::is_convertible_v<decltype(c.begin()), T *>, "concept", "not random-access iterators");
}

template <kind K, std::size_t N>
__attribute__((noinline)) void one_walk(rng &r)
{
	R.section(std::string("walk/") + kname(K) + "/" + std::to_string(N) + "/" + tname<T>);
	holder<K, T, N> h(arr<T, N>([&] { return value(r); }));
	auto before = h.read();
	auto &v = h.obj();
	std::array<T *, N> at;
	for (std::size_t i = 0; i < N; ++i) at[i] = h.raw() + h.lane(i);
	walks(r, v, at, h.writable);
	R.check(hash_arr(h.read()) == hash_arr(before) && h.guards(), "wrote", "walking changed a lane");
	// one lane at a time through mutable iterators
	if constexpr (kwritable(K))
		for (int step = 0; step < 4; ++step)
		{
			const std::size_t k = r.below(N);
			T x = value(r);
			switch (r.below(5))
			{
				case 0: v.begin()[static_cast<int>(k)] = x; break;
				case 1: *(v.begin() + static_cast<int>(k)) = x; break;
				case 2: *(v.rbegin() + static_cast<int>(N - 1 - k)) = x; break;
				case 3: v.rbegin()[static_cast<int>(N - 1 - k)] = x; break;
				default: { auto i = v.end(); for (std::size_t n = N; n > k; --n) --i; *i = x; break; }
			}
			before[k] = x;
			R.saw(mix(hash_arr(before), k), true);
			R.check(hash_arr(h.read()) == hash_arr(before) && h.guards(), "write", "writing lane " + std::to_string(k) + " through an iterator gives " + show(h.read()) + " want " + show(before));
		}
}

#if WHAT == 1
template <kind K, std::size_t N>
__attribute__((noinline)) void algorithms(rng &r)
{
	R.section(std::string("algorithms/") + kname(K) + "/" + std::to_string(N) + "/" + tname<T>);
	auto a = arr<T, N>([&] { return r.below(3) ? T(r.range(0, 4)) : value(r); });
	auto b = arr<T, N>([&] { return r.below(3) ? T(r.range(0, 4)) : value(r); });
	holder<K, T, N> h(a);
	const auto &c = std::as_const(h.obj());
	T x = a[r.below(N)];
	auto judge = [&](bool ok, const char *what) {
		R.saw(mix(hash_arr(a), hash_str(what)), varied(a));
		if (!ok) R.fail(R.sec + ":" + what, std::string(what) + " differs over " + show(a));
	};
	judge(std::accumulate(c.begin(), c.end(), 0.0) == std::accumulate(a.begin(), a.end(), 0.0), "accumulate");
	judge(std::equal(c.begin(), c.end(), a.begin(), a.end()) && std::ranges::equal(c, a), "equal");
	judge(std::lexicographical_compare(c.begin(), c.end(), b.begin(), b.end()) == std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end()), "lexicographical_compare");
	judge(std::min_element(c.begin(), c.end()) - c.begin() == std::min_element(a.begin(), a.end()) - a.begin(), "min_element");
	judge(std::max_element(c.rbegin(), c.rend()) - c.rbegin() == std::max_element(a.rbegin(), a.rend()) - a.rbegin(), "max_element reverse");
	judge(std::find(c.begin(), c.end(), x) - c.begin() == std::find(a.begin(), a.end(), x) - a.begin(), "find");
	judge(std::count(c.crbegin(), c.crend(), x) == std::count(a.begin(), a.end(), x), "count");
	judge(std::is_sorted_until(c.begin(), c.end()) - c.begin() == std::is_sorted_until(a.begin(), a.end()) - a.begin(), "is_sorted_until");
	judge(std::adjacent_find(c.begin(), c.end()) - c.begin() == std::adjacent_find(a.begin(), a.end()) - a.begin(), "adjacent_find");
	{ std::array<T, N> o{}, w{}; std::partial_sum(c.begin(), c.end(), o.begin()); std::partial_sum(a.begin(), a.end(), w.begin()); judge(o == w, "partial_sum"); }
	{ std::vector<T> o(c.rbegin(), c.rend()), w(a.rbegin(), a.rend()); judge(o == w, "vector"); }
	{ std::array<T, N> o{}, w{}; auto k = static_cast<long>(r.below(N + 1)); std::rotate_copy(c.begin(), c.begin() + static_cast<int>(k), c.end(), o.begin()); std::rotate_copy(a.begin(), a.begin() + k, a.end(), w.begin()); judge(o == w, "rotate_copy"); }
	{ std::size_t n = 0; bool ok = true; for (auto v : c | std::views::reverse) ok = ok && same(T(v), a[N - 1 - n++]); judge(ok && n == N, "views::reverse"); }
	if constexpr (kwritable(K))
	{
		auto on = [&](const char *what, auto f) {
			auto m = a;
			h.load(a);
			f(h.obj());
			f(m);
			R.saw(mix(hash_arr(a), hash_str(what)), varied(a));
			if (hash_arr(h.read()) != hash_arr(m) || !h.guards())
				R.fail(R.sec + ":" + what, std::string(what) + " over " + show(a) + " gives " + show(h.read()) + " want " + show(m) + (h.guards() ? "" : " and changes other lanes"));
		};
		using D = int;
		const D k = static_cast<D>(r.below(N + 1));
		on("sort", [](auto &v) { std::sort(v.begin(), v.end()); });
		on("sort reverse", [](auto &v) { std::sort(v.rbegin(), v.rend()); });
		on("ranges::sort", [](auto &v) { std::ranges::sort(v, std::greater{}); });
		on("stable_sort", [](auto &v) { std::stable_sort(v.begin(), v.end()); });
		on("reverse", [](auto &v) { std::reverse(v.begin(), v.end()); });
		on("ranges::reverse", [](auto &v) { std::ranges::reverse(v); });
		on("rotate", [&](auto &v) { std::rotate(v.begin(), v.begin() + k, v.end()); });
		on("next_permutation", [](auto &v) { std::next_permutation(v.begin(), v.end()); });
		on("prev_permutation", [](auto &v) { std::prev_permutation(v.begin(), v.end()); });
		on("nth_element", [&](auto &v) { std::nth_element(v.begin(), v.begin() + k, v.end()); std::sort(v.begin(), v.begin() + k); std::sort(v.begin() + k, v.end()); });
		on("partial_sort", [&](auto &v) { std::partial_sort(v.begin(), v.begin() + k, v.end()); std::sort(v.begin() + k, v.end()); });
		on("make_heap", [](auto &v) { std::make_heap(v.begin(), v.end()); std::sort_heap(v.begin(), v.end()); });
		on("unique", [](auto &v) { auto e = std::unique(v.begin(), v.end()); std::fill(e, v.end(), T(1)); });
		on("remove", [&](auto &v) { auto e = std::remove(v.begin(), v.end(), x); std::fill(e, v.end(), T(1)); });
		on("copy", [&](auto &v) { std::copy(b.begin(), b.end(), v.begin()); });
		on("copy_backward", [&](auto &v) { std::copy_backward(v.begin(), v.begin() + (N - 1), v.end()); });
		on("shift_left", [&](auto &v) { std::fill(std::shift_left(v.begin(), v.end(), k), v.end(), T(1)); });
		on("fill", [&](auto &v) { std::fill(v.rbegin(), v.rbegin() + k, x); });
		on("transform", [](auto &v) { std::transform(v.begin(), v.end(), v.rbegin(), [](T y) { return y; }); });
		on("iota", [](auto &v) { T n = T(0); std::generate(v.begin(), v.end(), [&] { auto o = n; n = T(1); return o; }); });
		on("swap_ranges", [&](auto &v) { auto t = b; std::swap_ranges(v.begin(), v.end(), t.begin()); });
		on("iter_swap", [&](auto &v) { std::iter_swap(v.begin(), v.end() - 1); });
		on("stable_partition", [&](auto &v) { std::stable_partition(v.begin(), v.end(), [&](T y) { return y < x; }); });
		on("replace", [&](auto &v) { std::replace(v.begin(), v.end(), x, b[0]); });
		on("inplace_merge", [&](auto &v) { std::sort(v.begin(), v.begin() + k); std::sort(v.begin() + k, v.end()); std::inplace_merge(v.begin(), v.begin() + k, v.end()); });
		on("ranges::rotate", [&](auto &v) { std::ranges::rotate(v, v.begin() + k); });
		on("partial_sum in place", [](auto &v) { std::partial_sum(v.begin(), v.end(), v.begin()); });
	}
}
#endif

template <std::size_t N>
void repeated(rng &r)
{
	if constexpr (N >= 2)
	{
		R.section("walk/repeated/" + std::to_string(N) + "/" + tname<T>);
		auto a = arr<T, N>([&] { return value(r); });
		struct { T pre; dsga::basic_vector<T, N> v; T post; } h{};
		std::memcpy(&h.v, a.data(), sizeof a);
		T *p = reinterpret_cast<T *>(&h.v);
		dsga::basic_view<true, T, N> view(p);
		walks(r, h.v.yxxy, std::array<T *, 4>{ p + 1, p, p, p + 1 }, false);
		walks(r, view.xyxx, std::array<T *, 4>{ p, p + 1, p, p }, false);
		walks(r, h.v.yyx, std::array<T *, 3>{ p + 1, p + 1, p }, false);
		walks(r, view.yy, std::array<T *, 2>{ p + 1, p + 1 }, false);
	}
}

template <std::size_t C, std::size_t W>
void matrix(rng &r)
{
	if constexpr (std::is_floating_point_v<T>)
	{
		R.section("walk/matrix/" + std::to_string(C) + "x" + std::to_string(W) + "/" + tname<T>);
		dsga::basic_matrix<T, C, W> m{};
		std::array<dsga::basic_vector<T, W> *, C> at;
		for (std::size_t i = 0; i < C; ++i) at[i] = reinterpret_cast<dsga::basic_vector<T, W> *>(&m) + i;
		walks(r, m, at, true);
	}
}

int main(int argc, char **argv)
{
	R.start(argc, argv);
	rng r(R.seed);
	for (u64 c = 0; c < R.cases; ++c)
	{
		R.cur_case = c;
		for_sizes([&](auto nn) {
			constexpr std::size_t N = nn;
			for_kinds<Vec, CVec, Swz, View, CView, VSwz, CVSwz, VV, SwzA, SwzD, VSwzA, VSwzD>([&](auto kk) {
#if WHAT == 0
				one_walk<kk, N>(r);
#else
				algorithms<kk, N>(r);
#endif
			});
#if WHAT == 0
			repeated<N>(r);
			if constexpr (N >= 2) { matrix<N, 2>(r); matrix<N, 3>(r); matrix<N, 4>(r); }
#endif
		});
		if (c == 0) R.sample("walks of 40 moves from begin, cbegin, rbegin, crbegin of every storage kind and size, or 40 algorithms over them");
	}
	return R.finish();
}
