// P26: random histories over a shared pool of vectors, views, view_vectors, matrices and plain memory, with views aliasing
// all of them, against a model which is nothing but cells. Every cell of the pool is compared after every step.
//   ELEM element type    LANES number of lanes of the operands (1 to 4)
#ifndef ELEM_IS_FLOAT
#define ELEM_IS_FLOAT 0
#endif
#include <deque>
#include <memory>
#include <numeric>
#include <stdexcept>
#include "kinds.hpp"
using namespace mon;
using T = ELEM;
constexpr std::size_t N = LANES;

struct storage { T *at; int length; int cell; };

template <std::size_t L>
struct objects
{
	dsga::basic_vector<T, L> v[3];
	dsga::view_vector<T, L> w[2];
	dsga::basic_view<true, T, L> a[3];
	dsga::basic_view<false, T, L> c[2];
	int v_cell[3], w_cell[2], a_cell[3], c_cell[2];
};

template <std::size_t L> using cells = std::array<int, L>;

struct pool
{
	rng &r;
	std::unique_ptr<T[]> memory;
	objects<LANES> o;
	std::conditional_t<LANES == 4, char, objects<4>> four_apart;
#if ELEM_IS_FLOAT
	dsga::basic_matrix<T, 3, LANES> mats[2];
	dsga::basic_matrix<T, 4, 4> square;
	int m_cell[2], s_cell;
#endif
	std::vector<storage> stores;
	std::vector<T> model;
	std::deque<std::string> log;

	explicit pool(rng &g) : r(g), memory(new T[18]), o(), four_apart()
	{
		add(memory.get(), 18);
		fill(o);
		if constexpr (LANES != 4) fill(four_apart);
#if ELEM_IS_FLOAT
		for (int i = 0; i < 2; ++i) m_cell[i] = add(reinterpret_cast<T *>(&mats[i]), 3 * LANES);
		s_cell = add(reinterpret_cast<T *>(&square), 16);
#endif
		for (auto &s : stores)
			for (int i = 0; i < s.length; ++i) { T x = value(); model.push_back(x); std::memcpy(s.at + i, &x, sizeof(T)); }
		views(o);
		if constexpr (LANES != 4) views(four_apart);
	}
	pool(const pool &) = delete;

	auto &four() { if constexpr (LANES == 4) return o; else return four_apart; }

	T value() { return static_cast<T>(r.below(40)) ; }

	int add(T *p, int n)
	{
		const int c = stores.empty() ? 0 : stores.back().cell + stores.back().length;
		stores.push_back({ p, n, c });
		return c;
	}
	template <typename O> void fill(O &x)
	{
		for (int i = 0; i < 3; ++i) x.v_cell[i] = add(reinterpret_cast<T *>(&x.v[i]), static_cast<int>(x.v[i].size()));
		for (int i = 0; i < 2; ++i) x.w_cell[i] = add(&x.w[i][0], static_cast<int>(x.w[i].size()));
	}
	// somewhere which holds n lanes in a row
	std::pair<T *, int> somewhere(int n)
	{
		for (;;)
		{
			auto &s = stores[r.below(3) ? r.below(stores.size()) : 0];
			if (s.length < n) continue;
			const int off = static_cast<int>(r.below(static_cast<u64>(s.length - n + 1)));
			return { s.at + off, s.cell + off };
		}
	}
	template <typename O> void views(O &x)
	{
		const int n = static_cast<int>(x.v[0].size());
		for (int i = 0; i < 3; ++i) { auto [p, c] = somewhere(n); x.a[i].reset(p); x.a_cell[i] = c; }
		for (int i = 0; i < 2; ++i) { auto [p, c] = somewhere(n); x.c[i].reset(p); x.c_cell[i] = c; }
	}

	template <std::size_t L> static cells<L> run_of(int c) { cells<L> x; std::iota(x.begin(), x.end(), c); return x; }
	template <std::size_t L> static cells<L> pick(int c, std::array<int, L> at) { for (auto &x : at) x += c; return at; }
	template <std::size_t L> std::array<T, L> get(const cells<L> &c) const { std::array<T, L> a; for (std::size_t i = 0; i < L; ++i) a[i] = model[static_cast<std::size_t>(c[i])]; return a; }
	template <std::size_t L> void put(const cells<L> &c, const std::array<T, L> &a) { for (std::size_t i = 0; i < L; ++i) model[static_cast<std::size_t>(c[i])] = a[i]; }

	void say(std::string s) { log.push_back(std::move(s)); if (log.size() > 6) log.pop_front(); }

	// everything is where the model has it
	void compare(const char *what)
	{
		u64 h = hash_str(what);
		for (auto &s : stores)
			for (int i = 0; i < s.length; ++i)
			{
				T x; std::memcpy(&x, s.at + i, sizeof(T));
				h = mix(h, bits_of(x));
				if (!same_val(x, model[static_cast<std::size_t>(s.cell + i)]))
				{
					std::string steps;
					for (auto &l : log) steps += l + "; ";
					R.fail(R.sec + ":" + what, "cell " + std::to_string(s.cell + i) + " holds " + show(x) + " and the model " + show(model[static_cast<std::size_t>(s.cell + i)]) + " after: " + steps);
					std::memcpy(s.at + i, &model[static_cast<std::size_t>(s.cell + i)], sizeof(T));
				}
			}
		R.saw(h);
	}

	// keep the numbers where every operation is exact; a plain store which views must show
	void tame()
	{
		for (auto &s : stores)
			for (int i = 0; i < s.length; ++i)
			{
				T &m = model[static_cast<std::size_t>(s.cell + i)];
				if (m > T(1500) || (std::is_signed_v<T> && m < static_cast<T>(-1500))) { m = value(); std::memcpy(s.at + i, &m, sizeof(T)); }
			}
	}

	//
	// operands of N lanes: f(object, its cells, its name)
	//

	template <std::size_t L = N> static auto &swz_a(auto &v) { if constexpr (L == 1) return v.z; else if constexpr (L == 2) return v.wy; else if constexpr (L == 3) return v.zxw; else return v.yxwz; }
	template <std::size_t L = N> static auto &swz_b(auto &v) { if constexpr (L == 1) return v.x; else if constexpr (L == 2) return v.xz; else if constexpr (L == 3) return v.wyx; else return v.wzyx; }
	template <std::size_t L = N> static auto &swz_r(auto &v) { if constexpr (L == 1) return v.w; else if constexpr (L == 2) return v.zz; else if constexpr (L == 3) return v.yyx; else return v.wwxy; }
	template <std::size_t L = N> static constexpr cells<L> at_a() { if constexpr (L == 1) return { 2 }; else if constexpr (L == 2) return { 3, 1 }; else if constexpr (L == 3) return { 2, 0, 3 }; else return { 1, 0, 3, 2 }; }
	template <std::size_t L = N> static constexpr cells<L> at_b() { if constexpr (L == 1) return { 0 }; else if constexpr (L == 2) return { 0, 2 }; else if constexpr (L == 3) return { 3, 1, 0 }; else return { 3, 2, 1, 0 }; }
	template <std::size_t L = N> static constexpr cells<L> at_r() { if constexpr (L == 1) return { 3 }; else if constexpr (L == 2) return { 2, 2 }; else if constexpr (L == 3) return { 1, 1, 0 }; else return { 3, 3, 0, 1 }; }

	template <typename F> void source(F &&f)
	{
		const std::size_t i = r.below(3), j = r.below(2);
		auto &q = four();
		switch (r.below(9))
		{
			case 0: f(o.v[i], run_of<N>(o.v_cell[i]), "vector"); break;
			case 1: f(o.w[j], run_of<N>(o.w_cell[j]), "view_vector"); break;
			case 2: f(o.a[i], run_of<N>(o.a_cell[i]), "view"); break;
			case 3: f(o.c[j], run_of<N>(o.c_cell[j]), "const view"); break;
			case 4: f(swz_a(q.v[i]), pick<N>(q.v_cell[i], at_a()), "swizzle"); break;
			case 5: f(std::as_const(swz_r(q.v[i])), pick<N>(q.v_cell[i], at_r()), "repeated swizzle"); break;
			case 6: f(swz_b(q.a[i]), pick<N>(q.a_cell[i], at_b()), "view swizzle"); break;
			case 7: f(std::as_const(swz_r(q.c[j])), pick<N>(q.c_cell[j], at_r()), "const view swizzle"); break;
			default: f(std::as_const(o.v[i]), run_of<N>(o.v_cell[i]), "const vector"); break;
		}
	}
	template <typename F> void target(F &&f)
	{
		const std::size_t i = r.below(3), j = r.below(2);
		auto &q = four();
		switch (r.below(6))
		{
			case 0: f(o.v[i], run_of<N>(o.v_cell[i]), "vector"); break;
			case 1: f(o.w[j], run_of<N>(o.w_cell[j]), "view_vector"); break;
			case 2: f(o.a[i], run_of<N>(o.a_cell[i]), "view"); break;
			case 3: f(swz_b(q.v[i]), pick<N>(q.v_cell[i], at_b()), "swizzle"); break;
			case 4: f(swz_a(q.a[i]), pick<N>(q.a_cell[i], at_a()), "view swizzle"); break;
			default: f(swz_a(q.v[i]), pick<N>(q.v_cell[i], at_a()), "other swizzle"); break;
		}
	}
};

template <typename F> std::array<T, N> lanewise(const std::array<T, N> &a, F &&f) { std::array<T, N> o; for (std::size_t i = 0; i < N; ++i) o[i] = static_cast<T>(f(a[i], i)); return o; }

std::string cells_text(const cells<N> &c) { std::string s = "["; for (int x : c) s += std::to_string(x) + " "; s.back() = ']'; return s; }

using fresh = dsga::basic_vector<T, N>;

// one operation with a target and a source
template <typename D, typename S>
__attribute__((noinline)) void binary(pool &p, D &d, const cells<N> &dc, const char *dn, S &s, const cells<N> &sc, const char *sn, int op)
{
	rng &r = p.r;
	const auto was = p.get(dc), from = p.get(sc);
	const T k = p.value();
	const std::size_t at = r.below(N), other = r.below(N);
	static const char *names[] = { "=", "+=", "-=", "*=", "= s + k", "= k - s", "= d + s * k", "set", "= min", "= max", "= copy", "= shift", "= cshift", "= apply", "[] = []", "compare", "= mix", "= clamp", "sum", "dot" };
	p.say(std::string(dn) + cells_text(dc) + " " + names[op] + " " + sn + cells_text(sc) + " k=" + show(k) + " at=" + std::to_string(at) + std::to_string(other));
	auto want = was;
	std::array<T, N> got = was;
	bool reads = false;
	switch (op)
	{
		case 0: d = fresh(s); want = from; break;
		case 1: d += s; want = lanewise(was, [&](T x, std::size_t i) { return x + from[i]; }); break;
		case 2: d -= s; want = lanewise(was, [&](T x, std::size_t i) { return x - from[i]; }); break;
		case 3: d *= s; want = lanewise(was, [&](T x, std::size_t i) { return x * from[i]; }); break;
		case 4: d = fresh(s + k); want = lanewise(from, [&](T x, std::size_t) { return x + k; }); break;
		case 5: d = fresh(k - s); want = lanewise(from, [&](T x, std::size_t) { return k - x; }); break;
		case 6: d = fresh(d + s * k); want = lanewise(was, [&](T x, std::size_t i) { return x + from[i] * k; }); break;
		case 7: [&]<std::size_t ...Is>(std::index_sequence<Is...>) { d.set(s[(Is + at) % N]...); }(std::make_index_sequence<N>{}); want = lanewise(was, [&](T, std::size_t i) { return from[(i + at) % N]; }); break;
		case 8: d = fresh(dsga::min(d, s)); want = lanewise(was, [&](T x, std::size_t i) { return from[i] < x ? from[i] : x; }); break;
		case 9: d = fresh(dsga::max(d, s)); want = lanewise(was, [&](T x, std::size_t i) { return x < from[i] ? from[i] : x; }); break;
		case 10: { fresh c(s); c[at] = k; const fresh e = c; d = e; want = from; want[at] = k; break; }
		case 11: { const int by = static_cast<int>(r.range(-5, 5)); d = fresh(s.shift(by)); want = lanewise(was, [&](T, std::size_t i) { const int q = static_cast<int>(i) + by; return q >= 0 && q < static_cast<int>(N) ? from[static_cast<std::size_t>(q)] : T(0); }); break; }
		case 12: { const int by = static_cast<int>(r.range(-9, 9)); d = fresh(s.cshift(by)); want = lanewise(was, [&](T, std::size_t i) { return from[static_cast<std::size_t>(((static_cast<int>(i) + by) % static_cast<int>(N) + static_cast<int>(N)) % static_cast<int>(N))]; }); break; }
		case 13: d = fresh(s.apply([&](T x) { return static_cast<T>(x + k); })); want = lanewise(from, [&](T x, std::size_t) { return x + k; }); break;
		case 14: d[at] = s[other]; want[at] = from[other]; break;
		case 15:
		{
			bool equal = true;
			for (std::size_t i = 0; i < N; ++i) equal = equal && was[i] == from[i];
			if ((d == s) != equal || (s != d) == equal) R.fail(R.sec + ":compare", "== is wrong");
			reads = true;
			for (std::size_t i = 0; i < N; ++i) got[i] = std::as_const(d)[i];
			break;
		}
		case 16:
			if constexpr (std::is_floating_point_v<T>) { d = fresh(dsga::mix(d, s, T(2))); want = lanewise(was, [&](T x, std::size_t i) { return x * (T(1) - T(2)) + from[i] * T(2); }); }
			break;
		case 17: d = fresh(dsga::clamp(s, T(5), T(20))); want = lanewise(from, [&](T x, std::size_t) { return x < T(5) ? T(5) : T(20) < x ? T(20) : x; }); break;
		case 18:
		{
			T sum = 0;
			for (T x : from) sum = static_cast<T>(sum + x);
			d[at] = s.sum(); want[at] = sum;
			break;
		}
		default:
		{
			T sum = 0;
			for (std::size_t i = 0; i < N; ++i) sum = static_cast<T>(sum + was[i] * from[i]);
			const T real = static_cast<T>(dsga::innerProduct(d, s));
			d[at] = real; want[at] = sum;
			break;
		}
	}
	p.put(dc, want);
	if (reads)
		for (std::size_t i = 0; i < N; ++i)
			if (!same_val(got[i], was[i])) R.fail(R.sec + ":read", "read " + show(got) + " where the model holds " + show(was));
}
constexpr int BINARY = 20;

// one operation with a target alone
template <typename D>
__attribute__((noinline)) void unary(pool &p, D &d, const cells<N> &dc, const char *dn, int op)
{
	rng &r = p.r;
	const auto was = p.get(dc);
	const T k = p.value();
	const std::size_t at = r.below(N);
	static const char *names[] = { "++", "--", "post ++", "post --", "+= k", "*= k", "reverse", "sort", "for +=", "[] =", "set", "iterator", "rotate", "self =", "self +=", "fill", "accumulate" };
	p.say(std::string(dn) + cells_text(dc) + " " + names[op] + " k=" + show(k) + " at=" + std::to_string(at));
	auto want = was;
	auto add = [&](T by) { want = lanewise(was, [&](T x, std::size_t) { return x + by; }); };
	auto returned = [&](const fresh &got, const std::array<T, N> &due, const char *what) {
		for (std::size_t i = 0; i < N; ++i) if (!same_val(T(got[i]), due[i])) R.fail(R.sec + ":returned:" + what, "returned other lanes than " + show(due));
	};
	switch (op)
	{
		case 0: returned(fresh(++d), lanewise(was, [](T x, std::size_t) { return x + T(1); }), "++"); add(T(1)); break;
		case 1: returned(fresh(--d), lanewise(was, [](T x, std::size_t) { return x - T(1); }), "--"); add(static_cast<T>(-1)); break;
		case 2: returned(fresh(d++), was, "post ++"); add(T(1)); break;
		case 3: returned(fresh(d--), was, "post --"); add(static_cast<T>(-1)); break;
		case 4: d += k; add(k); break;
		case 5: d *= k; want = lanewise(was, [&](T x, std::size_t) { return x * k; }); break;
		case 6: std::reverse(d.begin(), d.end()); std::reverse(want.begin(), want.end()); break;
		case 7: std::sort(d.begin(), d.end()); std::sort(want.begin(), want.end()); break;
		case 8: for (auto &e : d) e += k; add(k); break;
		case 9: d[at] = k; want[at] = k; break;
		case 10: [&]<std::size_t ...Is>(std::index_sequence<Is...>) { d.set(static_cast<T>(k + T(Is))...); }(std::make_index_sequence<N>{}); want = lanewise(was, [&](T, std::size_t i) { return k + T(i); }); break;
		case 11: { auto i = d.begin() + static_cast<int>(at); *i = k; auto j = d.rbegin(); *j += T(1); want[at] = k; want[N - 1] += T(1); break; }
		case 12: std::rotate(d.begin(), d.begin() + static_cast<int>(at), d.end()); std::rotate(want.begin(), want.begin() + static_cast<std::ptrdiff_t>(at), want.end()); break;
		case 13: { const fresh c(d); d = c; break; }
		case 14: d += d; want = lanewise(was, [](T x, std::size_t) { return x + x; }); break;
		case 15: std::fill(d.begin(), d.end(), k); want.fill(k); break;
		default:
		{
			const T sum = std::accumulate(d.cbegin(), d.cend(), T(0)), due = std::accumulate(was.begin(), was.end(), T(0));
			if (!same_val(sum, due)) R.fail(R.sec + ":accumulate", "got " + show(sum) + " want " + show(due));
			break;
		}
	}
	p.put(dc, want);
}
constexpr int UNARY = 17;

// operations on whole objects: copies, swaps, resets, matrices
__attribute__((noinline)) void whole(pool &p)
{
	rng &r = p.r;
	auto &o = p.o;
	const std::size_t i = r.below(3), j = r.below(3);
	auto cs = [](int c) { return pool::run_of<N>(c); };
	switch (r.below(ELEM_IS_FLOAT ? 18 : 10))
	{
		case 0: p.say("vector = vector"); o.v[i] = o.v[j]; p.put(cs(o.v_cell[i]), p.get(cs(o.v_cell[j]))); break;
		case 1: p.say("vector = moved vector"); { auto t = o.v[j]; o.v[i] = std::move(t); } p.put(cs(o.v_cell[i]), p.get(cs(o.v_cell[j]))); break;
		case 2: { p.say("vectors swap"); if (r.coin()) o.v[i].swap(o.v[j]); else std::swap(o.v[i], o.v[j]); auto a = p.get(cs(o.v_cell[i])), b = p.get(cs(o.v_cell[j])); p.put(cs(o.v_cell[i]), b); p.put(cs(o.v_cell[j]), a); break; }
		case 3: p.say("view_vector = view_vector"); o.w[i % 2] = o.w[j % 2]; p.put(cs(o.w_cell[i % 2]), p.get(cs(o.w_cell[j % 2]))); break;
		case 4: p.say("view_vector = moved copy"); { auto t = o.w[j % 2]; ++t; o.w[i % 2] = std::move(t); } p.put(cs(o.w_cell[i % 2]), lanewise(p.get(cs(o.w_cell[j % 2])), [](T x, std::size_t) { return x + T(1); })); break;
		case 5:
		{
			p.say("views swap at " + std::to_string(o.a_cell[i]) + " and " + std::to_string(o.a_cell[j]));
			const int d = std::abs(o.a_cell[i] - o.a_cell[j]);
			bool thrown = false;
			try { if (r.coin()) o.a[i].swap(o.a[j]); else swap(o.a[i], o.a[j]); } catch (const std::range_error &) { thrown = true; }
			if (thrown != (d > 0 && d < static_cast<int>(N))) R.fail(R.sec + ":view swap", "views " + std::to_string(d) + " apart" + (thrown ? " were refused" : " were accepted"));
			if (!thrown) { auto a = p.get(cs(o.a_cell[i])), b = p.get(cs(o.a_cell[j])); p.put(cs(o.a_cell[i]), b); p.put(cs(o.a_cell[j]), a); }
			break;
		}
		case 6: { auto [at, c] = p.somewhere(static_cast<int>(N)); p.say("view reset to " + std::to_string(c)); o.a[i].reset(at); o.a_cell[i] = c; break; }
		case 7: { auto [at, c] = p.somewhere(static_cast<int>(N)); p.say("const view reset to " + std::to_string(c)); o.c[i % 2].reset(at); o.c_cell[i % 2] = c; break; }
		case 8: { auto [at, c] = p.somewhere(4); p.say("four-lane view reset to " + std::to_string(c)); p.four().a[i].reset(at); p.four().a_cell[i] = c; break; }
		case 9:
		{
			// a copy of a view refers to the same memory
			p.say("copy of a view written");
			auto copy = o.a[i];
			copy[N - 1] = T(9);
			p.model[static_cast<std::size_t>(o.a_cell[i]) + N - 1] = T(9);
			break;
		}
#if ELEM_IS_FLOAT
		case 10: case 11:
		{
			const std::size_t m = r.below(2), col = r.below(3);
			const int c = p.m_cell[m] + static_cast<int>(col * N);
			p.say("matrix column " + std::to_string(col) + " = view");
			p.mats[m][col] = fresh(o.a[i]);
			p.put(cs(c), p.get(cs(o.a_cell[i])));
			break;
		}
		case 12:
		{
			const std::size_t m = r.below(2), col = r.below(3);
			p.say("vector = matrix column; column += vector");
			o.v[i] = p.mats[m][col];
			auto x = p.get(cs(p.m_cell[m] + static_cast<int>(col * N)));
			p.put(cs(o.v_cell[i]), x);
			p.mats[m][col] += o.v[j];
			auto y = p.get(cs(o.v_cell[j]));
			p.put(cs(p.m_cell[m] + static_cast<int>(col * N)), lanewise(x, [&](T a, std::size_t q) { return a + y[q]; }));
			break;
		}
		case 13: { p.say("matrices swap"); p.mats[0].swap(p.mats[1]); for (int q = 0; q < static_cast<int>(3 * N); ++q) std::swap(p.model[static_cast<std::size_t>(p.m_cell[0] + q)], p.model[static_cast<std::size_t>(p.m_cell[1] + q)]); break; }
		case 14:
		{
			p.say("matrix = matrix - matrix * 2");
			p.mats[0] = p.mats[0] - p.mats[1] * T(2);
			for (int q = 0; q < static_cast<int>(3 * N); ++q) p.model[static_cast<std::size_t>(p.m_cell[0] + q)] -= T(2) * p.model[static_cast<std::size_t>(p.m_cell[1] + q)];
			break;
		}
		case 15:
		{
			p.say("square = transpose(square)");
			p.square = dsga::transpose(p.square);
			for (int a = 0; a < 4; ++a) for (int b = 0; b < a; ++b) std::swap(p.model[static_cast<std::size_t>(p.s_cell + 4 * a + b)], p.model[static_cast<std::size_t>(p.s_cell + 4 * b + a)]);
			break;
		}
		case 16:
		{
			p.say("vector4 = square * vector4");
			auto &q = p.four();
			std::array<T, 4> x = p.get(pool::run_of<4>(q.v_cell[j])), y{};
			for (int a = 0; a < 4; ++a) for (int b = 0; b < 4; ++b) y[static_cast<std::size_t>(b)] += p.model[static_cast<std::size_t>(p.s_cell + 4 * a + b)] * x[static_cast<std::size_t>(a)];
			q.v[i] = p.square * q.v[j];
			p.put(pool::run_of<4>(q.v_cell[i]), y);
			break;
		}
		case 17:
		{
			const std::size_t col = r.below(4), row = r.below(4);
			p.say("square column swizzle and row");
			const auto line = p.square.row(row);
			for (std::size_t q = 0; q < 4; ++q) if (!same_val(T(line[q]), p.model[static_cast<std::size_t>(p.s_cell) + 4 * q + row])) R.fail(R.sec + ":row", "row() differs from the model");
			p.square[col].wy = dsga::basic_vector<T, 2>(T(3), T(4));
			p.model[static_cast<std::size_t>(p.s_cell) + 4 * col + 3] = T(3);
			p.model[static_cast<std::size_t>(p.s_cell) + 4 * col + 1] = T(4);
			break;
		}
#endif
		default: break;
	}
}

int main(int argc, char **argv)
{
	R.start(argc, argv);
	rng r(R.seed);
	for (u64 c = 0; c < R.cases; ++c)
	{
		R.cur_case = c;
		auto owner = std::make_unique<pool>(r);
		pool &p = *owner;
		R.section(std::string("start/") + tname<T>);
		p.compare("start");
		for (int step = 0; step < 250; ++step)
		{
			p.tame();
			const u64 what = r.below(10);
			if (what < 6)
			{
				R.section("two operands/" + std::to_string(N) + "/" + tname<T>);
				const int op = static_cast<int>(r.below(BINARY));
				p.target([&](auto &d, const cells<N> &dc, const char *dn) {
					p.source([&](auto &s, const cells<N> &sc, const char *sn) { binary(p, d, dc, dn, s, sc, sn, op); });
				});
				p.compare("two operands");
			}
			else if (what < 8)
			{
				R.section("one operand/" + std::to_string(N) + "/" + tname<T>);
				const int op = static_cast<int>(r.below(UNARY));
				p.target([&](auto &d, const cells<N> &dc, const char *dn) { unary(p, d, dc, dn, op); });
				p.compare("one operand");
			}
			else
			{
				R.section("whole objects/" + std::to_string(N) + "/" + tname<T>);
				whole(p);
				p.compare("whole objects");
			}
		}
		if (c < 2) { std::string s; for (auto &l : p.log) s += l + "; "; R.sample("a history of 250 steps ended with: " + s); }
	}
	return R.finish();
}
