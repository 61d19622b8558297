// P23: min, max, sum, query, apply, swizzle(), set(), shift, cshift, size and length of every kind of vector.
#include <functional>
#include <memory>
#include "kinds.hpp"
using namespace mon;

#ifndef ELEM
#define ELEM int
#endif
using E = ELEM;
using L = long double;

template <std::size_t N>
void fp(std::array<E, N> a, u64 extra = 0)
{
	u64 h = extra;
	bool differ = N == 1;
	for (std::size_t i = 0; i < N; ++i) { h = mix(h, bits_of(a[i])); differ = differ || (i && !same(a[i], a[0])); }
	R.saw(h, differ);
}

// nothing but what the operation is for may have changed
template <typename H, std::size_t N>
void untouched(H &h, const std::array<E, N> &a, const char *what)
{
	if (!std::ranges::equal(h.read(), a, [](E x, E y) { return bits_of(x) == bits_of(y); }) || !h.guards())
		R.fail(R.sec + ":" + what + ":changed", std::string(what) + " changed its object or what lies around it; it held " + show(a));
}

template <std::size_t N>
struct log_of
{
	std::array<E, 8> seen{};
	std::size_t calls = 0;
	void add(E v) { if (calls < 8) seen[calls] = v; ++calls; }
	bool matches(const std::array<E, N> &a) const
	{
		if (calls != N) return false;
		for (std::size_t i = 0; i < N; ++i)
			if (bits_of(seen[i]) != bits_of(a[i])) return false;
		return true;
	}
};

static void *active_log = nullptr;
template <std::size_t N> E free_op(E v) { static_cast<log_of<N> *>(active_log)->add(v); return static_cast<E>(v == E(0) ? E(1) : E(0)); }
template <std::size_t N> bool free_pred(const E &v) { static_cast<log_of<N> *>(active_log)->add(v); return v == E(0); }

// a function object which may only be moved, and counts in its own state
template <std::size_t N>
struct only_moved
{
	log_of<N> *log;
	std::unique_ptr<int> count = std::make_unique<int>(0);
	E operator()(const E &v) { log->add(v); return static_cast<E>((*count)++ + (v == v ? 0 : 0)); }
};

template <kind K, std::size_t N, typename V>
void callables(V &&v, holder<K, E, N> &h, const std::array<E, N> &a, const std::string &form)
{
	auto inputs = show(a) + " " + form;
	// apply: by value, by reference, stateful, move-only, function pointer, std::function
	{
		log_of<N> log; int n = 0; std::array<E, N> want;
		for (std::size_t i = 0; i < N; ++i) want[i] = static_cast<E>(i + 1);
		judge<E, N>(v.apply([&](E x) { log.add(x); return static_cast<E>(++n); }), want, "apply by value", inputs);
		R.check(log.matches(a), "apply by value:calls", "called " + std::to_string(log.calls) + " times or out of order on " + inputs);
	}
	{
		log_of<N> log; std::array<E, N> want;
		for (std::size_t i = 0; i < N; ++i) want[i] = a[i];
		judge<E, N>(v.apply([&](const E &x) { log.add(x); return x; }), want, "apply by reference", inputs);
		R.check(log.matches(a), "apply by reference:calls", "called " + std::to_string(log.calls) + " times or out of order on " + inputs);
	}
	{
		log_of<N> log; std::array<E, N> want;
		for (std::size_t i = 0; i < N; ++i) want[i] = static_cast<E>(i);
		judge<E, N>(v.apply(only_moved<N>{ &log }), want, "apply move-only", inputs);
		R.check(log.matches(a), "apply move-only:calls", "called " + std::to_string(log.calls) + " times or out of order on " + inputs);
	}
	{
		log_of<N> log; active_log = &log; std::array<E, N> want;
		for (std::size_t i = 0; i < N; ++i) want[i] = a[i] == E(0) ? E(1) : E(0);
		judge<E, N>(v.apply(&free_op<N>), want, "apply function pointer", inputs);
		R.check(log.matches(a), "apply function pointer:calls", "called " + std::to_string(log.calls) + " times or out of order on " + inputs);
	}
	{
		log_of<N> log; int n = 0; std::array<E, N> want;
		std::function<E(E)> f = [&](E x) { log.add(x); return n++ % 2 ? x : E(0); };
		for (std::size_t i = 0; i < N; ++i) want[i] = i % 2 ? a[i] : E(0);
		judge<E, N>(v.apply(f), want, "apply std::function", inputs);
		R.check(log.matches(a), "apply std::function:calls", "called " + std::to_string(log.calls) + " times or out of order on " + inputs);
	}
	// query
	{
		log_of<N> log; int n = 0; std::array<bool, N> want;
		for (std::size_t i = 0; i < N; ++i) want[i] = i % 2 == 0;
		judge<bool, N>(v.query([&](E x) { log.add(x); return n++ % 2 == 0; }), want, "query stateful", inputs);
		R.check(log.matches(a), "query stateful:calls", "called " + std::to_string(log.calls) + " times or out of order on " + inputs);
	}
	{
		log_of<N> log; std::array<bool, N> want;
		for (std::size_t i = 0; i < N; ++i) want[i] = !(a[i] < E(3));
		judge<bool, N>(v.query([&](const E &x) { log.add(x); return !(x < E(3)); }), want, "query by reference", inputs);
		R.check(log.matches(a), "query by reference:calls", "called " + std::to_string(log.calls) + " times or out of order on " + inputs);
	}
	{
		log_of<N> log; active_log = &log; std::array<bool, N> want;
		for (std::size_t i = 0; i < N; ++i) want[i] = a[i] == E(0);
		judge<bool, N>(v.query(&free_pred<N>), want, "query function pointer", inputs);
		R.check(log.matches(a), "query function pointer:calls", "called " + std::to_string(log.calls) + " times or out of order on " + inputs);
	}
	untouched(h, a, "apply and query");
	fp(a, hash_str(form.c_str()));
}

template <kind K, std::size_t N, typename V>
void shifts(V &&v, holder<K, E, N> &h, const std::array<E, N> &a, int by, const std::string &form)
{
	auto inputs = show(a) + " by " + std::to_string(by) + " " + form;
	std::array<E, N> moved{}, turned{};
	for (std::size_t i = 0; i < N; ++i)
	{
		const long long from = static_cast<long long>(i) + by;
		moved[i] = from >= 0 && from < static_cast<long long>(N) ? a[static_cast<std::size_t>(from)] : E(0);
		long long turn = from % static_cast<long long>(N);
		if (turn < 0) turn += N;
		turned[i] = a[static_cast<std::size_t>(turn)];
	}
	judge<E, N>(v.shift(by), moved, "shift", inputs);
	judge<E, N>(v.cshift(by), turned, "cshift", inputs);
	untouched(h, a, "shift");
	fp(a, mix(static_cast<u64>(static_cast<unsigned>(by)), 5));
}

template <kind K, std::size_t N, typename V>
void totals(V &&v, holder<K, E, N> &h, const std::array<E, N> &a, const std::string &form)
{
	static_assert(!std::is_same_v<E, bool>);
	auto inputs = show(a) + " " + form;
	auto lo = v.min(), hi = v.max(), total = v.sum();
	R.check(std::is_same_v<decltype(lo), E> && std::is_same_v<decltype(hi), E> && std::is_same_v<decltype(total), E>, "totals:type", "min, max or sum has another type than the lanes");
	E want_lo = a[0], want_hi = a[0];
	for (E x : a) { if (x < want_lo) want_lo = x; if (x > want_hi) want_hi = x; }
	R.check(same_val(lo, want_lo), "min", "got " + show(lo) + " for " + inputs);
	R.check(same_val(hi, want_hi), "max", "got " + show(hi) + " for " + inputs);
	if constexpr (std::is_floating_point_v<E>)
	{
		L want = 0, mag = 0;
		bool whole = true;
		for (E x : a) { want += x; mag += std::fabs(static_cast<L>(x)); whole = whole && x == std::trunc(x) && std::fabs(static_cast<L>(x)) < 0x1p20L; }
		const L tol = whole ? 0 : mag * std::numeric_limits<E>::epsilon() * N;
		if (mag < std::numeric_limits<E>::max() / 2)
			R.check(std::fabs(static_cast<L>(total) - want) <= tol, "sum", "got " + show(total) + " for " + inputs);
	}
	else
	{
		E want = 0;
		for (E x : a) want = static_cast<E>(want + x);
		R.check(total == want, "sum", "got " + show(total) + " for " + inputs);
	}
	untouched(h, a, "min, max and sum");
	fp(a, 77);
}

// an index of a type of its own
struct place { unsigned char at; constexpr operator std::size_t() const { return at; } };

template <kind K, std::size_t N, typename V>
void dynamic(rng &r, V &&v, holder<K, E, N> &h, const std::array<E, N> &a)
{
	std::size_t p[4];
	for (auto &q : p) q = r.below(N);
	auto inputs = show(a) + " at " + std::to_string(p[0]) + std::to_string(p[1]) + std::to_string(p[2]) + std::to_string(p[3]);
	auto one = dsga::swizzle(v, static_cast<int>(p[0]));
	if constexpr (!std::is_same_v<decltype(one), E>)
		R.fail(R.sec + ":swizzle 1:type", "swizzle() with one index is not a scalar");
	else
		R.check(bits_of(one) == bits_of(a[p[0]]), "swizzle 1", "got " + show(one) + " for " + inputs);
	R.check(bits_of(E(dsga::swizzle(v, place{ static_cast<unsigned char>(p[1]) }))) == bits_of(a[p[1]]), "swizzle 1 of a class", inputs);
	judge<E, 2>(dsga::swizzle(v, p[0], p[1]), std::array<E, 2>{ a[p[0]], a[p[1]] }, "swizzle 2", inputs);
	judge<E, 3>(dsga::swizzle(v, static_cast<unsigned>(p[0]), static_cast<long long>(p[1]), static_cast<short>(p[2])), std::array<E, 3>{ a[p[0]], a[p[1]], a[p[2]] }, "swizzle 3", inputs);
	judge<E, 4>(dsga::swizzle(v, p[0], static_cast<char>(p[1]), static_cast<int>(p[2]), place{ static_cast<unsigned char>(p[3]) }),
				std::array<E, 4>{ a[p[0]], a[p[1]], a[p[2]], a[p[3]] }, "swizzle 4", inputs);
	untouched(h, a, "swizzle");
	fp(a, p[0] * 64 + p[1] * 16 + p[2] * 4 + p[3]);
}

template <kind K, std::size_t N>
void sizes(holder<K, E, N> &h)
{
	auto &v = h.obj();
	using V = std::remove_cvref_t<decltype(v)>;
	R.check(v.size() == N && V::size() == N && V::size.value == N && std::as_const(v).size() == N, "size", "size is not " + std::to_string(N));
	R.check(v.length() == static_cast<int>(N) && std::is_same_v<decltype(v.length()), int>, "length", "length() is not " + std::to_string(N));
	R.check(std::tuple_size_v<V> == N, "tuple_size", "tuple_size is not " + std::to_string(N));
	R.check(std::size(v) == N && std::ranges::size(v) == N && static_cast<std::size_t>(std::ranges::distance(v)) == N, "ranges::size", "std::size is not " + std::to_string(N));
	auto &b = v.as_base();
	R.check(b.size() == N && b.length() == static_cast<int>(N), "base size", "the base's size is not " + std::to_string(N));
	R.saw(N);
}

template <kind K, std::size_t N>
void setters(rng &r, holder<K, E, N> &h)
{
	auto go = [&]<typename U>(type_c<U>, const char *name) {
		auto old = std::array<E, N>{};
		for (std::size_t i = 0; i < N; ++i) old[i] = marker<E>(i);
		std::array<U, N> u; std::array<E, N> want;
		for (std::size_t i = 0; i < N; ++i)
		{
			// (conversions which do not fit are not defined)
			if constexpr (std::is_same_v<U, E> || std::is_integral_v<U>) u[i] = gen<U>(r);
			else if constexpr (std::is_integral_v<E>) u[i] = r.coin() ? gen_mod<U>(r, U(100)) : gen_mod<U>(r, sizeof(E) == 8 ? U(9e15) : U(2e9));
			else do u[i] = gen<U>(r); while (std::isfinite(u[i]) && std::fabs(u[i]) > std::numeric_limits<E>::max());
			if constexpr (std::is_floating_point_v<U> && std::is_unsigned_v<E> && !std::is_same_v<E, bool>) u[i] = std::fabs(u[i]);
			want[i] = static_cast<E>(u[i]);
		}
		auto check = [&](const char *way) {
			auto got = h.read();
			for (std::size_t i = 0; i < N; ++i)
				if (!same(got[i], want[i])) { R.fail(R.sec + ":set:" + name + way, "set() left " + show(got) + " want " + show(want)); break; }
			R.check(h.guards(), std::string("set:guards:") + name + way, "set() wrote outside its lanes");
			fp(want, hash_str(name));
		};
		h.load(old);
		[&]<std::size_t ...Is>(std::index_sequence<Is...>) { h.obj().set(u[Is]...); }(std::make_index_sequence<N>{});
		check("");
		h.load(old);
		[&]<std::size_t ...Is>(std::index_sequence<Is...>) { h.obj().as_base().set(u[Is]...); }(std::make_index_sequence<N>{});
		check(" through the base");
		// its own lanes as arguments, rotated
		h.load(old);
		for (std::size_t i = 0; i < N; ++i) want[i] = old[(i + 1) % N];
		[&]<std::size_t ...Is>(std::index_sequence<Is...>) { auto &o = h.obj(); o.set(o[(Is + 1) % N]...); }(std::make_index_sequence<N>{});
		check(" own lanes");
	};
	go(type_c<E>{}, "same");
	go(type_c<int>{}, "int");
	if constexpr (!std::is_same_v<E, bool>)
		go(type_c<double>{}, "double");
}

int main(int argc, char **argv)
{
	R.start(argc, argv);
	rng r(R.seed);
	for (u64 c = 0; c < R.cases; ++c)
	{
		R.cur_case = c;
		for_sizes([&](auto n) {
			constexpr std::size_t N = n;
			std::array<E, N> any, tame;
			for (auto &x : any) x = gen<E>(r);
			for (auto &x : tame) { do x = r.below(3) ? gen_mod<E>(r) : gen_finite<E>(r); while (x != x); if constexpr (std::is_integral_v<E> && std::is_signed_v<E>) x /= 8; }
			if (r.below(4) == 0) tame[r.below(N)] = tame[0];
			const int near[] = { 0, 1, -1, 2, -2, 3, -3, 4, -4, 5, -5, 7, -8, INT_MAX, INT_MIN, INT_MAX - 1, INT_MIN + 1, INT_MIN + 2, INT_MIN + 3 };
			const int by = r.below(4) ? near[r.below(std::size(near))] : static_cast<int>(r.next());
			auto name = [&](const char *what, kind k) { R.section(std::string(what) + "/" + kname(k) + "/" + std::to_string(N) + "/" + tname<E>); };
			for_kinds<Vec, CVec, Swz, View, CView, VSwz, CVSwz, VV, SwzA, SwzD, VSwzA, VSwzD>([&](auto kk) {
				constexpr kind K = kk;
				holder<K, E, N> h(any);
				auto &v = h.obj();
				name("functions", K);
				if (r.coin()) callables<K, N>(v, h, any, "");
				else callables<K, N>(std::as_const(v).as_base(), h, any, "through the base");
				name("shifts", K);
				if (r.coin()) shifts<K, N>(v, h, any, by, "");
				else shifts<K, N>(std::as_const(v).as_base(), h, any, by, "through the base");
				name("swizzle()", K);
				dynamic<K, N>(r, v, h, any);
				if constexpr (!std::is_same_v<E, bool>)
				{
					h.load(tame);
					name("totals", K);
					if (r.coin()) totals<K, N>(v, h, tame, "");
					else totals<K, N>(std::as_const(v).as_base(), h, tame, "through the base");
				}
				if (R.cur_case < 4) { name("sizes", K); sizes<K, N>(h); }
				if constexpr (kwritable(K)) { name("set", K); setters<K, N>(r, h); }
			});
			if (R.cur_case < 2 && N == 3)
				R.sample("lanes " + show(any) + " shifted by " + std::to_string(by));
		});
	}
	return R.finish();
}
