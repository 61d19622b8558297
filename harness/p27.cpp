// P27: threads which only read shared objects, and threads which write disjoint lanes, never race and see the values of sequential execution.
// To be built with a thread sanitizer, which watches every access; this program compares every value.
//   ELEM element type    WHAT 0: readers of shared objects beside writers of the lanes around    1: writers of disjoint lanes    2: private objects
#include <atomic>
#include <deque>
#include <functional>
#include <memory>
#include <thread>
#include "funcs.hpp"
using namespace mon;
using T = ELEM;

// Tickets show how the steps of the threads interleaved. Relaxed, so that they order nothing.
std::atomic<unsigned> ticket, gate;
struct step_log { std::vector<std::pair<unsigned, int>> at; };
void note(step_log &l, int what) { l.at.push_back({ ticket.fetch_add(1, std::memory_order_relaxed), what }); }
void delay(rng &r)
{
	switch (r.below(24))
	{
		case 0: std::this_thread::yield(); break;
		case 1: std::this_thread::sleep_for(std::chrono::microseconds(r.below(60))); break;
		case 2: case 3: for (volatile u64 i = r.below(400); i > 0; i = i - 1) {} break;
		default: break;
	}
}
// start together; relaxed too
void wait_for(unsigned n)
{
	gate.fetch_add(1, std::memory_order_relaxed);
	while (gate.load(std::memory_order_relaxed) < n) std::this_thread::yield();
}

struct finding { std::string key, text; };

template <typename F>
void run_threads(unsigned n, rng &r, F &&body)
{
	std::vector<step_log> logs(n);
	std::vector<std::vector<finding>> bad(n);
	std::vector<rng> seeds;
	for (unsigned i = 0; i < n; ++i) seeds.push_back(rng(r.next()));
	ticket.store(0);
	gate.store(0);
	{
		std::vector<std::thread> t;
		for (unsigned i = 0; i < n; ++i)
			t.emplace_back([&, i] { wait_for(n); body(i, seeds[i], logs[i], bad[i]); });
		for (auto &x : t) x.join();
	}
	for (auto &b : bad) for (auto &f : b) R.fail(f.key, f.text);
	// the interleaving, as the sequence of threads and steps in windows of eight
	std::vector<std::pair<unsigned, u64>> all;
	for (unsigned i = 0; i < n; ++i) for (auto &[k, w] : logs[i].at) all.push_back({ k, mix(i, static_cast<u64>(w)) });
	std::sort(all.begin(), all.end());
	u64 h = 0;
	unsigned switches = 0;
	for (std::size_t i = 0; i < all.size(); ++i)
	{
		if (i && all[i].second != all[i - 1].second) ++switches;
		h = mix(h, all[i].second);
		if (i % 8 == 7) { R.saw(h); h = 0; }
	}
	R.counters["switches between threads or steps"] += switches;
}

T value(rng &r)
{
	if constexpr (std::is_same_v<T, bool>) return r.coin();
	else if constexpr (std::is_floating_point_v<T>) return gen_mod<T>(r);
	else { T v; do v = gen_mod<T>(r, T(30)); while (v == 0); return v; }
}

template <typename F, std::size_t N> constexpr bool works()
{
	using V = const dsga::basic_vector<T, N> &;
	if constexpr (F::arity == 1) return requires (V a) { F::f(a); };
	else if constexpr (F::arity == 2) return requires (V a, V b) { F::f(a, b); };
	else return requires (V a, V b, V c) { F::f(a, b, c); };
}

//
// shared operands: every storage kind, in four sets of lanes, one for each domain of the operations
//

template <kind K, std::size_t N> struct operands { holder<K, T, N> h[5][3]; };

template <std::size_t N>
struct world_of
{
	std::tuple<operands<Vec, N>, operands<CVec, N>, operands<Swz, N>, operands<View, N>, operands<CView, N>, operands<VSwz, N>, operands<CVSwz, N>, operands<VV, N>> o;
	template <kind K> auto &get() { return std::get<static_cast<std::size_t>(K)>(o); }
	explicit world_of(rng &r)
	{
		for (int d = 0; d < 5; ++d)
		{
			std::array<std::array<T, N>, 3> in;
			for (auto &a : in) for (auto &v : a) v = value(r);
			if constexpr (!std::is_same_v<T, bool>)
				for (std::size_t i = 0; i < N; ++i)
				{
					if (d == PosFirst) in[0][i] = static_cast<T>(0.5 + static_cast<double>(r.below(1000)) / 64);
					if (d == ShiftCount) in[1][i] = static_cast<T>(r.below(31));
					if (d == Ordered23) { in[1][i] = static_cast<T>(r.range(1, 10)); in[2][i] = static_cast<T>(r.range(10, 20)); }
					if (d == Ordered12) { in[0][i] = static_cast<T>(r.range(1, 9)); in[1][i] = static_cast<T>(r.range(10, 20)); }
				}
			std::apply([&](auto &...k) { auto fill = [&](auto &x) { for (std::size_t j = 0; j < 3; ++j) x.h[d][j].load(in[j]); }; (fill(k), ...); }, o);
		}
	}
};

#if defined(ELEM_IS_FLOAT) && ELEM_IS_FLOAT
using mat33 = dsga::basic_matrix<T, 3, 3>;
using mat24 = dsga::basic_matrix<T, 2, 4>;
struct matrices
{
	mat33 a, b; mat24 c; dsga::basic_matrix<T, 4, 2> d; dsga::basic_matrix<T, 4, 4> e;
	dsga::basic_vector<T, 3> v3; dsga::basic_vector<T, 4> v4;
	explicit matrices(rng &r)
	{
		auto fill = [&](auto &m) { for (std::size_t i = 0; i < sizeof(m) / sizeof(T); ++i) reinterpret_cast<T *>(&m)[i] = gen_mod<T>(r); };
		fill(a); fill(b); fill(c); fill(d); fill(e); fill(v3); fill(v4);
	}
};
#endif

struct world
{
	world_of<1> w1; world_of<2> w2; world_of<3> w3; world_of<4> w4;
#if defined(ELEM_IS_FLOAT) && ELEM_IS_FLOAT
	matrices m;
	explicit world(rng &r) : w1(r), w2(r), w3(r), w4(r), m(r) {}
#else
	explicit world(rng &r) : w1(r), w2(r), w3(r), w4(r) {}
#endif
	template <std::size_t N> auto &of() { if constexpr (N == 1) return w1; else if constexpr (N == 2) return w2; else if constexpr (N == 3) return w3; else return w4; }
};

struct entry { std::string name; std::vector<u64> (*run)(world &); };
std::vector<entry> entries;

template <typename V> std::vector<u64> bits_only(const V &v) { std::string s; std::vector<u64> b; describe(v, s, b); return b; }

template <typename F, std::size_t N, kind KA, kind KB, kind KC>
std::vector<u64> run_entry(world &w)
{
	auto &x = w.of<N>();
	const auto &a = std::as_const(x.template get<KA>().h[F::dom][0].obj());
	if constexpr (F::arity == 1) return bits_only(F::f(a));
	else
	{
		const auto &b = std::as_const(x.template get<KB>().h[F::dom][1].obj());
		if constexpr (F::arity == 2) return bits_only(F::f(a, b));
		else return bits_only(F::f(a, b, std::as_const(x.template get<KC>().h[F::dom][2].obj())));
	}
}

constexpr u64 name_hash(const char *s) { u64 h = 1469598103934665603ull; for (; *s; ++s) h = (h ^ static_cast<unsigned char>(*s)) * 1099511628211ull; return h ^ (h >> 29); }

template <typename F, std::size_t N, std::size_t salt>
void add_at()
{
	if constexpr (works<F, N>())
	{
		constexpr u64 h = name_hash(F::name) / 7 + salt * 1000003 + N * 31;
		constexpr kind a = static_cast<kind>(h % 8), b = static_cast<kind>(h / 8 % 8), c = static_cast<kind>(h / 64 % 8);
		entries.push_back({ std::string(F::name) + "/" + std::to_string(N) + "/" + kname(a) + "," + kname(b) + "," + kname(c), &run_entry<F, N, a, b, c> });
	}
}

template <typename F>
void add()
{
	constexpr std::size_t first = name_hash(F::name) % 4 + 1;
	// every function at two or more sizes, one with a swizzle as its first operand
	add_at<F, first, 0>(); add_at<F, first % 4 + 1, 1>();
	if constexpr (!works<F, first>() && !works<F, first % 4 + 1>()) { add_at<F, (first + 1) % 4 + 1, 2>(); add_at<F, (first + 2) % 4 + 1, 3>(); }
	constexpr std::size_t n = works<F, 3>() ? 3 : works<F, 2>() ? 2 : 1;
	if constexpr (works<F, n>())
		entries.push_back({ std::string(F::name) + "/" + std::to_string(n) + "/swizzles", &run_entry<F, n, Swz, VSwz, Swz> });
}
template <typename ...F> void add_all() { (add<F>(), ...); }

template <typename M> std::vector<u64> raw_bits(const M &m) { std::vector<u64> b; for (std::size_t i = 0; i < sizeof(m) / sizeof(T); ++i) b.push_back(bits_of(reinterpret_cast<const T *>(&m)[i])); return b; }

void all_entries()
{
	add_all<MON_FUNCTIONS1>();
	add_all<MON_FUNCTIONS2>();
	add_all<MON_FUNCTIONS3>();
#define K_(w) const auto &v = std::as_const(w.template of<4>().template get<Vec>().h[0][0].obj()); const auto &c = std::as_const(w.template of<4>().template get<CView>().h[0][1].obj()); (void)v; (void)c;
#define OP(name, ...) entries.push_back({ name, [](world &w) -> std::vector<u64> { K_(w) __VA_ARGS__ } })
	OP("copy", const auto x = v; const dsga::basic_vector<T, 4> y(c); return bits_only(x.x + y.w););
	OP("view copy", auto x = c; return bits_only(x););
	OP("const view of a vector", dsga::basic_view<false, T, 4> x(v.data()); return bits_only(x););
	OP("view_vector copy", auto x = w.of<4>().get<VV>().h[0][0].s.v; return bits_only(x););
	OP("iterate", std::vector<u64> b; for (auto x : v) b.push_back(bits_of(x)); for (auto i = c.rbegin(); i != c.rend(); ++i) b.push_back(bits_of(T(*i))); return b;);
	OP("get", using std::get; return bits_only(dsga::basic_vector<T, 2>(get<1>(v), get<3>(c))););
	OP("data and sequence", std::vector<u64> b; [&]<std::size_t ...Is>(std::index_sequence<Is...>) { (b.push_back(bits_of(T(c.data()[Is]))), ...); }(c.sequence()); return b;);
	OP("swizzle by number", return bits_only(dsga::swizzle(c, 3, 3, 0, 1)););
	OP("sort a copy", std::array<T, 4> x{}; std::copy(c.begin(), c.end(), x.begin()); std::sort(x.begin(), x.end()); return bits_only(x););
#if defined(ELEM_IS_FLOAT) && ELEM_IS_FLOAT
#undef K_
#define K_(w) const auto &m = w.m;
	OP("matrix product", return raw_bits(m.a * m.b););
	OP("matrix product nonsquare", return raw_bits(m.c * m.d););
	OP("matrix vector", return raw_bits(m.a * m.v3););
	OP("vector matrix", return raw_bits(m.v4 * m.c););
	OP("transpose", return raw_bits(dsga::transpose(m.c)););
	OP("inverse", return raw_bits(dsga::inverse(m.e)););
	OP("inverse3", return raw_bits(dsga::inverse(m.a)););
	OP("determinant", return { bits_of(dsga::determinant(m.e)), bits_of(dsga::determinant(m.b)) };);
	OP("compMult", return raw_bits(dsga::matrixCompMult(m.a, m.b)););
	OP("row", return raw_bits(m.c.row(3)););
	OP("column swizzle", return bits_only(dsga::basic_vector<T, 3>(m.c[1].wzx)););
	OP("compare", return { m.a == m.b, m.a != m.a };);
	OP("scale", return raw_bits(m.e * T(3) + m.e / T(4) - T(1)););
	OP("matrix copy", const auto x = m.e; return raw_bits(x););
	OP("matrix resize", const mat33 x(m.e); return raw_bits(x););
	OP("matrix iterate", std::vector<u64> b; for (const auto &col : m.d) b.push_back(bits_of(T(col.y))); return b;);
	OP("matrix array", return bits_only(dsga::to_array(m.c)););
	OP("matrix negate", auto x = -m.a; ++x; return raw_bits(x););
#endif
}

#if WHAT == 0

// write every lane of the holder which its object does not name, and the memory around, through the library
template <typename H>
void write_around(H &h, rng &r, int step)
{
	const T k = guard_value<T>(static_cast<std::size_t>(step) % 50);
	dsga::basic_view<true, T, 2> before(h.pre()), after(h.post());
	before[step % 2] = k;
	after.set(k, T(k));
	if constexpr (H::base_lanes == 4 && (H::K_ == Swz || H::K_ == VSwz))
	{
		auto write = [&](auto &v) {
			constexpr std::size_t N = count_of<decltype(h.obj())>;
			if constexpr (std::is_same_v<T, bool>) { if constexpr (N == 1) v.x[0] = k; else if constexpr (N == 2) v.zx[0] = k; else if constexpr (N == 3) v.y[0] = k; }
			else if constexpr (N == 1) { v.x = k; v.yw += T(1); v.y = 1; v.w = 2; }
			else if constexpr (N == 2) { v.xz = dsga::basic_vector<T, 2>(k, T(1)); ++v.z; v.x = 3; v.z = T(4); }
			else if constexpr (N == 3) { v.y = k; v.y = 5; }
		};
		write(h.s.v);
	}
	else if constexpr (H::K_ == CVSwz)
	{
		dsga::basic_view<true, T, 4> all(h.raw());
		constexpr std::size_t N = count_of<decltype(h.obj())>;
		if constexpr (N == 1) all.x[0] = k; else if constexpr (N == 2) all.z[0] = k; else if constexpr (N == 3) all.y[0] = k;
	}
	(void)r;
}

void cases(rng &r)
{
	R.section(std::string("readers/") + tname<T>);
	auto owner = std::make_unique<world>(r);
	world &w = *owner;
	std::vector<std::vector<u64>> want;
	for (auto &e : entries) want.push_back(e.run(w));
	run_threads(7, r, [&](unsigned id, rng &g, step_log &l, std::vector<finding> &bad) {
		if (id < 5)
		{
			// in another order in each thread
			std::vector<std::size_t> order(entries.size());
			for (std::size_t i = 0; i < order.size(); ++i) order[i] = i;
			for (std::size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[g.below(i)]);
			for (std::size_t i : order)
			{
				note(l, static_cast<int>(i));
				if (entries[i].run(w) != want[i] && bad.size() < 5) bad.push_back({ R.sec + ":" + entries[i].name, entries[i].name + " gives another result while other threads run" });
				delay(g);
			}
		}
		else
			for (int step = 0; step < 120; ++step)
			{
				note(l, step % 16);
				auto around = [&](auto &x) {
					std::apply([&](auto &...k) { auto each = [&](auto &q) { for (int d = 0; d < 5; ++d) for (int j = 0; j < 3; ++j) if ((d * 3 + j + static_cast<int>(id)) % 2) write_around(q.h[d][j], g, step); }; (each(k), ...); }, x.o);
				};
				around(w.w1); around(w.w2); around(w.w3); around(w.w4);
				delay(g);
			}
	});
	for (std::size_t i = 0; i < entries.size(); ++i)
		if (entries[i].run(w) != want[i]) R.fail(R.sec + ":" + entries[i].name + ":after", entries[i].name + " gives another result after the threads ran");
	if (R.cur_case == 0) { R.sample(std::to_string(entries.size()) + " operations such as " + entries[0].name + " and " + entries[entries.size() / 2].name + " on shared operands in five threads"); }
}

#elif WHAT == 1

template <std::size_t N> using fresh = dsga::basic_vector<T, N>;

// a random operation on a target of N lanes which this thread owns
template <std::size_t N, typename D>
__attribute__((noinline)) int operate(D &d, std::array<T, N> &m, rng &r)
{
	const T k = static_cast<T>(r.below(20));
	const std::size_t at = r.below(N);
	std::array<T, N> in;
	for (auto &x : in) x = static_cast<T>(r.below(20));
	// keep numbers small
	for (std::size_t i = 0; i < N; ++i)
		if constexpr (!std::is_same_v<T, bool>)
			if (m[i] > T(1000) || (std::is_signed_v<T> && m[i] < static_cast<T>(-1000))) { d[i] = k; m[i] = k; }
	auto with = [&](auto f) { for (std::size_t i = 0; i < N; ++i) m[i] = static_cast<T>(f(m[i], i)); };
	const int op = static_cast<int>(r.below(24));
	if constexpr (std::is_same_v<T, bool>)
	{
		switch (op % 6)
		{
			case 0: d[at] = k; m[at] = k; break;
			case 1: [&]<std::size_t ...Is>(std::index_sequence<Is...>) { d.set(in[Is]...); }(std::make_index_sequence<N>{}); m = in; break;
			case 2: for (auto &x : d) x = !x; with([](bool x, std::size_t) { return !x; }); break;
			case 3: std::reverse(d.begin(), d.end()); std::reverse(m.begin(), m.end()); break;
			case 4: *(d.end() - 1) = k; m[N - 1] = k; break;
			default: { const auto x = dsga::compNot(d); for (std::size_t i = 0; i < N; ++i) { if constexpr (N == 1) d[i] = x; else d[i] = x[i]; } with([](bool x, std::size_t) { return !x; }); break; }
		}
	}
	else
	{
		fresh<N> s;
		for (std::size_t i = 0; i < N; ++i) s[i] = in[i];
		switch (op)
		{
			case 0: d = s; m = in; break;
			case 1: d += s; with([&](T x, std::size_t i) { return x + in[i]; }); break;
			case 2: d -= s; with([&](T x, std::size_t i) { return x - in[i]; }); break;
			case 3: d *= s; with([&](T x, std::size_t i) { return x * in[i]; }); break;
			case 4: d += k; with([&](T x, std::size_t) { return x + k; }); break;
			case 5: ++d; with([](T x, std::size_t) { return x + T(1); }); break;
			case 6: d--; with([](T x, std::size_t) { return x - T(1); }); break;
			case 7: d[at] = k; m[at] = k; break;
			case 8: [&]<std::size_t ...Is>(std::index_sequence<Is...>) { d.set(in[Is]...); }(std::make_index_sequence<N>{}); m = in; break;
			case 9: for (auto &x : d) x += k; with([&](T x, std::size_t) { return x + k; }); break;
			case 10: std::reverse(d.begin(), d.end()); std::reverse(m.begin(), m.end()); break;
			case 11: std::sort(d.begin(), d.end()); std::sort(m.begin(), m.end()); break;
			case 12: std::fill(d.rbegin(), d.rend(), k); m.fill(k); break;
			case 13: d = fresh<N>(d + s); with([&](T x, std::size_t i) { return x + in[i]; }); break;
			case 14: d = fresh<N>(dsga::min(d, k)); with([&](T x, std::size_t) { return k < x ? k : x; }); break;
			case 15: d = fresh<N>(d.cshift(1)); std::rotate(m.begin(), m.begin() + (N > 1), m.end()); break;
			case 16: d = fresh<N>(d.apply([&](T x) { return static_cast<T>(x + k); })); with([&](T x, std::size_t) { return x + k; }); break;
			case 17: { T sum = 0; for (T x : m) sum = static_cast<T>(sum + x); d[at] = d.sum(); m[at] = sum; break; }
			case 18: d += d; with([](T x, std::size_t) { return x + x; }); break;
			case 19: { auto i = d.begin(); i += static_cast<std::ptrdiff_t>(at); *i = k; m[at] = k; break; }
			case 20:
				if constexpr (std::is_floating_point_v<T>) { dsga::modf(fresh<N>(s + T(0.5)), d); m = in; }
				break;
			case 21:
				if constexpr (std::is_same_v<T, int>) { if constexpr (requires { dsga::frexp(dsga::basic_vector<float, N>(1.0f), d); }) { dsga::frexp(dsga::basic_vector<float, N>(1.0f), d); m.fill(1); } }
				break;
			case 22: d /= T(2); with([](T x, std::size_t) { return x / T(2); }); break;
			default: if constexpr (N == 1) { d = k; m.fill(k); } else { std::copy(in.begin(), in.end(), d.begin()); m = in; } break;
		}
	}
	return op;
}

// a target which may be handed to a thread
struct owned
{
	std::function<int(rng &)> act;
	std::function<bool(std::string &)> agrees;
};

template <std::size_t N, typename D>
owned own(D &d)
{
	auto m = std::make_shared<std::array<T, N>>();
	for (std::size_t i = 0; i < N; ++i) (*m)[i] = d[i];
	owned o;
	o.act = [&d, m](rng &r) { return operate<N>(d, *m, r); };
	o.agrees = [&d, m](std::string &s) {
		for (std::size_t i = 0; i < N; ++i)
			if (!same_val(T(std::as_const(d)[i]), (*m)[i])) { s = "lane " + std::to_string(i) + " is " + show(T(std::as_const(d)[i])) + " and the model has " + show(*m); return false; }
		return true;
	};
	return o;
}

constexpr unsigned THREADS = 5;

struct shared_lanes
{
	dsga::basic_vector<T, 4> v[3];
	dsga::basic_vector<T, 3> v3;
	dsga::view_vector<T, 4> vv;
	T memory[32];
	dsga::basic_view<true, T, 4> split_view;
	std::deque<dsga::basic_view<true, T, 1>> one;
	std::deque<dsga::basic_view<true, T, 2>> two;
	std::deque<dsga::basic_view<true, T, 3>> three;
	std::deque<dsga::basic_view<true, T, 4>> four;
#if defined(ELEM_IS_FLOAT) && ELEM_IS_FLOAT
	dsga::basic_matrix<T, 4, 4> m;
	dsga::basic_matrix<T, 3, 2> m32;
#endif
	std::vector<owned> of[THREADS];

	explicit shared_lanes(rng &r) : memory(), split_view(memory)
	{
		auto fill = [&](T *p, std::size_t n) { for (std::size_t i = 0; i < n; ++i) p[i] = static_cast<T>(r.below(20)); };
		for (auto &x : v) fill(reinterpret_cast<T *>(&x), 4);
		fill(reinterpret_cast<T *>(&v3), 3);
		fill(&vv[0], 4);
		fill(memory, 32);
		auto give = [&](owned o) { of[r.below(THREADS)].push_back(std::move(o)); };
		// one vector in four ways, each part to some thread
		give(own<1>(v[0].x)); give(own<2>(v[0].wy)); give(own<1>(v[0].z));
		give(own<2>(v[1].xz)); give(own<2>(v[1].yw));
		give(own<3>(v[2].wxy)); give(own<1>(v[2].z));
		give(own<1>(v3.y)); give(own<2>(v3.zx));
		give(own<2>(vv.zy)); give(own<1>(vv.x)); give(own<1>(vv.w));
		give(own<3>(split_view.zxw)); give(own<1>(split_view.y));
		// the rest of the memory in adjacent runs
		for (std::size_t i = 4; i < 32;)
		{
			std::size_t n = 1 + r.below(4);
			if (i + n > 32) n = 32 - i;
			T *p = memory + i;
			i += n;
			if (n == 1) { one.emplace_back(p); give(own<1>(one.back())); }
			if (n == 2) { two.emplace_back(p); give(own<2>(two.back())); }
			if (n == 3) { three.emplace_back(p); give(own<3>(three.back())); }
			// a run of four as two swizzles of one view object
			if (n == 4) { four.emplace_back(p); if (r.coin()) give(own<4>(four.back())); else { give(own<2>(four.back().wx)); give(own<2>(four.back().yz)); } }
		}
#if defined(ELEM_IS_FLOAT) && ELEM_IS_FLOAT
		fill(reinterpret_cast<T *>(&m), 16);
		fill(reinterpret_cast<T *>(&m32), 6);
		give(own<4>(m[0])); give(own<2>(m[1].wx)); give(own<2>(m[1].zy)); give(own<3>(m[2].yzx)); give(own<1>(m[2].w)); give(own<4>(m[3]));
		give(own<2>(m32[0])); give(own<1>(m32[1].x)); give(own<1>(m32[1].y)); give(own<2>(m32[2]));
#endif
		for (auto &o : of) if (o.empty()) { one.emplace_back(new_lane()); o.push_back(own<1>(one.back())); }
	}
	std::deque<T> more;
	T *new_lane() { more.push_back(T(1)); return &more.back(); }
	shared_lanes(const shared_lanes &) = delete;
};

void all_cases(rng &r)
{
	R.section(std::string("writers/") + tname<T>);
	auto owner = std::make_unique<shared_lanes>(r);
	shared_lanes &w = *owner;
	run_threads(THREADS, r, [&](unsigned id, rng &g, step_log &l, std::vector<finding> &bad) {
		std::string s;
		for (int step = 0; step < 400 && bad.empty(); ++step)
		{
			const std::size_t which = g.below(w.of[id].size());
			auto &o = w.of[id][which];
			const int op = o.act(g);
			note(l, op);
			if (!o.agrees(s)) bad.push_back({ R.sec + ":step " + std::to_string(op), "after operation " + std::to_string(op) + " while other threads write other lanes: " + s });
			delay(g);
		}
		for (auto &o : w.of[id])
			if (bad.empty() && !o.agrees(s)) bad.push_back({ R.sec + ":end", "at the end: " + s });
	});
	if (R.cur_case == 0) R.sample("2000 operations by five threads on lanes of shared vectors, views, swizzles and matrices which no other thread uses");
}
void cases(rng &r) { all_cases(r); }

#else

// every thread has objects of its own: nothing hidden is shared
void cases(rng &r)
{
	R.section(std::string("private objects/") + tname<T>);
	constexpr unsigned n = 6;
	std::vector<u64> seeds;
	for (unsigned i = 0; i < n; ++i) seeds.push_back(r.next());
	std::vector<std::vector<std::vector<u64>>> want(n), got(n);
	auto pass = [&](unsigned id, rng &g, step_log *l, std::vector<std::vector<u64>> &out) {
		rng mine(seeds[id]);
		auto w = std::make_unique<world>(mine);
		for (std::size_t i = 0; i < entries.size(); ++i)
		{
			out.push_back(entries[i].run(*w));
			if (l) { note(*l, static_cast<int>(i)); delay(g); }
		}
	};
	// the threads go first, so that whatever is made on first use is made by them
	run_threads(n, r, [&](unsigned id, rng &g, step_log &l, std::vector<finding> &) { pass(id, g, &l, got[id]); });
	for (unsigned i = 0; i < n; ++i) { rng g(1); pass(i, g, nullptr, want[i]); }
	for (unsigned i = 0; i < n; ++i)
		for (std::size_t j = 0; j < entries.size(); ++j)
			if (got[i][j] != want[i][j]) R.fail(R.sec + ":" + entries[j].name, entries[j].name + " on objects of one thread gives another result while other threads run it on theirs");
	if (R.cur_case == 0) R.sample(std::to_string(entries.size()) + " operations on private objects in six threads at once");
}

#endif

int main(int argc, char **argv)
{
	R.start(argc, argv);
	rng r(R.seed);
#if WHAT != 1
	all_entries();
#endif
	for (u64 c = 0; c < R.cases; ++c)
	{
		R.cur_case = c;
		cases(r);
	}
	return R.finish();
}
