// P03: when the source of an assignment, compound assignment, swap or in-place function shares storage with its target, the
// outcome is as if the source had been read completely before anything was written.
//   WHAT 0 vectors and their swizzles   1 overlapping views at every offset   2 view-backed vectors, matrices, functions, swap
#include "kinds.hpp"
using namespace mon;

#ifndef ELEM
#define ELEM int
#endif
using T = ELEM;
constexpr bool is_int = std::is_integral_v<T>;
constexpr std::size_t ML = 16;		// lanes of memory under observation
using memory = std::array<T, ML>;

T small(rng &r) { return static_cast<T>(r.range(1, 9)); }

memory fill(rng &r)
{
	memory m;
	for (std::size_t i = 0; i < ML; ++i)
		m[i] = static_cast<T>(small(r) + (r.below(3) ? T(0) : static_cast<T>(10 * r.below(5))));
	return m;
}

enum op_t { Assign, Add, Sub, Mul, Div, And, Or, Xor, Shl, Shr, Mod, OPS };
constexpr const char *op_name[] = { "=", "+=", "-=", "*=", "/=", "&=", "|=", "^=", "<<=", ">>=", "%=" };

template <op_t O, typename D, typename S>
void apply(D &d, S &s)
{
	if constexpr (O == Assign) d = s;
	else if constexpr (O == Add) d += s;
	else if constexpr (O == Sub) d -= s;
	else if constexpr (O == Mul) d *= s;
	else if constexpr (O == Div) d /= s;
	else if constexpr (O == And) d &= s;
	else if constexpr (O == Or) d |= s;
	else if constexpr (O == Xor) d ^= s;
	else if constexpr (O == Shl) d <<= s;
	else if constexpr (O == Shr) d >>= s;
	else d %= s;
}

template <typename T>
T model_op(op_t o, T a, T b)
{
	switch (o)
	{
		case Assign: return b;
		case Add: return static_cast<T>(a + b);
		case Sub: return static_cast<T>(a - b);
		case Mul: return static_cast<T>(a * b);
		case Div: return static_cast<T>(a / b);
		default: break;
	}
	if constexpr (std::is_integral_v<T>)
		switch (o)
		{
			case And: return static_cast<T>(a & b);
			case Or: return static_cast<T>(a | b);
			case Xor: return static_cast<T>(a ^ b);
			case Shl: return static_cast<T>(a << b);
			case Shr: return static_cast<T>(a >> b);
			case Mod: return static_cast<T>(a % b);
			default: break;
		}
	return T(0);
}

struct idx4 { std::size_t n, at[4]; };

__attribute__((noinline)) void judge_memory(const memory &before, const memory &got, op_t o, const idx4 &d, const idx4 &s, const char *what)
{
	memory want = before;
	for (std::size_t i = 0; i < d.n; ++i)
		want[d.at[i]] = model_op(o, before[d.at[i]], before[s.at[s.n == 1 ? 0 : i]]);
	R.saw(mix(mix(hash_str(what), o), hash_arr(before)));
	if (got != want)
		R.fail(R.sec + ":" + what + op_name[o], std::string(what) + " with " + op_name[o] + " on " + show(before) + " gives " + show(got) + " want " + show(want));
}

// load() puts memory in place, store() takes it back out; d and s are the two ends
template <op_t O, typename Load, typename Store, typename D, typename S>
__attribute__((noinline)) void one_op(rng &r, Load &load, Store &store, D &d, S &s, const idx4 &di, const idx4 &si, const char *what)
{
	memory m = fill(r);
	if constexpr (O == Shl || O == Shr)
		for (auto &v : m) v = static_cast<T>(r.range(0, 7));
	load(m);
	apply<O>(d, s);
	judge_memory(m, store(), O, di, si, what);
}

template <typename Load, typename Store, typename D, typename S>
__attribute__((noinline)) void all_ops(rng &r, Load &load, Store &store, D &d, S &s, const idx4 &di, const idx4 &si, const char *what)
{
	if constexpr (requires { d = s; } && count_of<D> == count_of<S>)
		one_op<Assign>(r, load, store, d, s, di, si, what);
	one_op<Sub>(r, load, store, d, s, di, si, what);
	if constexpr (!is_int || WHAT == 0)
	{
		one_op<Add>(r, load, store, d, s, di, si, what);
		one_op<Mul>(r, load, store, d, s, di, si, what);
		one_op<Div>(r, load, store, d, s, di, si, what);
	}
	if constexpr (is_int)
	{
		one_op<And>(r, load, store, d, s, di, si, what);
		one_op<Or>(r, load, store, d, s, di, si, what);
		one_op<Xor>(r, load, store, d, s, di, si, what);
		one_op<Shl>(r, load, store, d, s, di, si, what);
		one_op<Shr>(r, load, store, d, s, di, si, what);
		one_op<Mod>(r, load, store, d, s, di, si, what);
	}
}

template <typename Load, typename Store, typename A, typename B>
void swizzle_pairs(rng &r, Load &load, Store &store, A &a, B &b, std::size_t ao, std::size_t bo)
{
	// ao, bo: where lane 0 of each end sits in the memory
#define PAIR(dn, sn, n, dl, sl) all_ops(r, load, store, a.dn, b.sn, dl, sl, "." #dn " from ." #sn);
#define L2(a0, a1, o) idx4{ 2, { a0 + o, a1 + o } }
#define L3(a0, a1, a2, o) idx4{ 3, { a0 + o, a1 + o, a2 + o } }
#define L4(a0, a1, a2, a3, o) idx4{ 4, { a0 + o, a1 + o, a2 + o, a3 + o } }
#define D2S(sn, s0, s1) \
	PAIR(xy, sn, 2, L2(0, 1, ao), L2(s0, s1, bo)) PAIR(yx, sn, 2, L2(1, 0, ao), L2(s0, s1, bo)) PAIR(wz, sn, 2, L2(3, 2, ao), L2(s0, s1, bo)) PAIR(zx, sn, 2, L2(2, 0, ao), L2(s0, s1, bo))
#define D3S(sn, s0, s1, s2) \
	PAIR(xyz, sn, 3, L3(0, 1, 2, ao), L3(s0, s1, s2, bo)) PAIR(zyx, sn, 3, L3(2, 1, 0, ao), L3(s0, s1, s2, bo)) PAIR(yzw, sn, 3, L3(1, 2, 3, ao), L3(s0, s1, s2, bo))
#define D4S(sn, s0, s1, s2, s3) \
	PAIR(wzyx, sn, 4, L4(3, 2, 1, 0, ao), L4(s0, s1, s2, s3, bo)) PAIR(yzwx, sn, 4, L4(1, 2, 3, 0, ao), L4(s0, s1, s2, s3, bo)) \
	all_ops(r, load, store, a, b.sn, L4(0, 1, 2, 3, ao), L4(s0, s1, s2, s3, bo), "whole from ." #sn);
	D2S(yx, 1, 0) D2S(xx, 0, 0) D2S(zy, 2, 1) D2S(xw, 0, 3)
	D3S(zxy, 2, 0, 1) D3S(yyy, 1, 1, 1) D3S(wzx, 3, 2, 0)
	D4S(wzyx, 3, 2, 1, 0) D4S(yxwz, 1, 0, 3, 2) D4S(xxxx, 0, 0, 0, 0) D4S(wxyz, 3, 0, 1, 2)
	// one lane of the target as the right hand side
#define ONE(sn, s0) \
	all_ops(r, load, store, a, b.sn, L4(0, 1, 2, 3, ao), idx4{ 1, { s0 + bo } }, "whole from ." #sn); \
	all_ops(r, load, store, a.zyx, b.sn, L3(2, 1, 0, ao), idx4{ 1, { s0 + bo } }, ".zyx from ." #sn);
	ONE(x, 0) ONE(y, 1) ONE(w, 3)
}

#if WHAT == 2
memory rest{};

template <std::size_t C, std::size_t N>
void fill_matrix(rng &r, dsga::basic_matrix<T, C, N> &m, T (&a)[C][N])
{
	for (std::size_t i = 0; i < C; ++i)
		for (std::size_t j = 0; j < N; ++j)
		{
			a[i][j] = small(r);
			m[i][j] = a[i][j];
		}
}

template <std::size_t C, std::size_t N>
void judge_matrix(const dsga::basic_matrix<T, C, N> &m, const T (&want)[C][N], const char *what)
{
	u64 h = hash_str(what);
	for (std::size_t i = 0; i < C; ++i)
		for (std::size_t j = 0; j < N; ++j)
			h = mix(h, bits_of(want[i][j]));
	R.saw(h);
	for (std::size_t i = 0; i < C; ++i)
		for (std::size_t j = 0; j < N; ++j)
			if (m[i][j] != want[i][j])
			{
				R.fail(R.sec + ":" + what, std::string(what) + ": element " + std::to_string(i) + "," + std::to_string(j) + " is " + show(m[i][j]) + " want " + show(want[i][j]));
				return;
			}
}

template <std::size_t N, typename T>
void square(rng &r)
{
	if constexpr (!std::is_integral_v<T>)
	{
		dsga::basic_matrix<T, N, N> m;
		T a[N][N], w[N][N];
		fill_matrix(r, m, a);
		m = dsga::transpose(m);
		for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j) w[i][j] = a[j][i];
		judge_matrix(m, w, "m = transpose(m)");
		fill_matrix(r, m, a);
		m = m * m;
		for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j) { w[i][j] = 0; for (std::size_t k = 0; k < N; ++k) w[i][j] += a[k][j] * a[i][k]; }
		judge_matrix(m, w, "m = m * m");
		fill_matrix(r, m, a);
		m = m + dsga::transpose(m);
		for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j) w[i][j] = a[i][j] + a[j][i];
		judge_matrix(m, w, "m = m + transpose(m)");
		// columns
		fill_matrix(r, m, a);
		m[0] = m[N - 1].y * m[0];
		std::memcpy(w, a, sizeof w);
		for (std::size_t j = 0; j < N; ++j) w[0][j] = a[N - 1][1] * a[0][j];
		judge_matrix(m, w, "m[0] = m[last].y * m[0]");
		fill_matrix(r, m, a);
		m[0].xy = m[0].yx;
		std::memcpy(w, a, sizeof w);
		w[0][0] = a[0][1]; w[0][1] = a[0][0];
		judge_matrix(m, w, "m[0].xy = m[0].yx");
		fill_matrix(r, m, a);
		m[1] *= m[1].x;
		std::memcpy(w, a, sizeof w);
		for (std::size_t j = 0; j < N; ++j) w[1][j] = a[1][j] * a[1][0];
		judge_matrix(m, w, "m[1] *= m[1].x");
		fill_matrix(r, m, a);
		m[0] = m * m[0];
		std::memcpy(w, a, sizeof w);
		for (std::size_t j = 0; j < N; ++j) { w[0][j] = 0; for (std::size_t k = 0; k < N; ++k) w[0][j] += a[k][j] * a[0][k]; }
		judge_matrix(m, w, "m[0] = m * m[0]");
		fill_matrix(r, m, a);
		m[1] = m[1] * m;
		std::memcpy(w, a, sizeof w);
		for (std::size_t j = 0; j < N; ++j) { w[1][j] = 0; for (std::size_t k = 0; k < N; ++k) w[1][j] += a[1][k] * a[j][k]; }
		judge_matrix(m, w, "m[1] = m[1] * m");
		fill_matrix(r, m, a);
		swap(m[0], m[1]);
		std::memcpy(w, a, sizeof w);
		for (std::size_t j = 0; j < N; ++j) { w[0][j] = a[1][j]; w[1][j] = a[0][j]; }
		judge_matrix(m, w, "swap(m[0], m[1])");
	}
}

void matrices(rng &r)
{
	R.section("matrix");
	square<2, T>(r);
	square<3, T>(r);
	square<4, T>(r);
}

template <typename T>
void functions(rng &r)
{
	if constexpr (!std::is_integral_v<T>)
	{
		R.section("function");
		const int far = r.coin() ? 0 : static_cast<int>(r.range(-40, 40));
		auto value = [&] { return std::ldexp(static_cast<T>(r.range(-4000, 4000)) / T(16), far); };
		std::array<T, 4> a = arr<T, 4>(value), want, w2;
		auto judge4 = [&](const dsga::basic_vector<T, 4> &v, const std::array<T, 4> &w, const char *what) {
			std::array<T, 4> g; std::memcpy(g.data(), &v, sizeof g);
			R.saw(mix(hash_str(what), hash_arr(a)));
			if (g != w)
				R.fail(R.sec + ":" + what, std::string(what) + " of " + show(a) + " gives " + show(g) + " want " + show(w));
		};
		// the argument is also the place for the integral part
		dsga::basic_vector<T, 4> v; std::memcpy(&v, a.data(), sizeof v);
		auto f = dsga::modf(v, v);
		for (int i = 0; i < 4; ++i) { want[i] = a[i] - std::trunc(a[i]); w2[i] = std::trunc(a[i]); }
		judge4(f, want, "modf(v, v) fraction");
		judge4(v, w2, "modf(v, v) whole");
		// a permutation of the argument is the place for the integral part
		std::memcpy(&v, a.data(), sizeof v);
		dsga::basic_vector<T, 4> g = dsga::modf(v, v.wzyx);
		for (int i = 0; i < 4; ++i) { want[i] = a[i] - std::trunc(a[i]); w2[3 - i] = std::trunc(a[i]); }
		judge4(g, want, "modf(v, v.wzyx) fraction");
		judge4(v, w2, "modf(v, v.wzyx) whole");
		// cross product into an operand
		std::memcpy(&v, a.data(), sizeof v);
		dsga::basic_vector<T, 3> b(small(r), small(r), small(r));
		T k[3] = { b[0], b[1], b[2] };
		v.xyz = dsga::cross(v.xyz, b);
		want = a;
		want[0] = a[1] * k[2] - k[1] * a[2]; want[1] = a[2] * k[0] - k[2] * a[0]; want[2] = a[0] * k[1] - k[0] * a[1];
		judge4(v, want, "v.xyz = cross(v.xyz, b)");
		std::memcpy(&v, a.data(), sizeof v);
		v.zxy = dsga::max(v.xyz, v.yzx);
		want = a;
		want[2] = std::max(a[0], a[1]); want[0] = std::max(a[1], a[2]); want[1] = std::max(a[2], a[0]);
		judge4(v, want, "v.zxy = max(v.xyz, v.yzx)");
	}
}

template <std::size_t N>
void swap_vectors(rng &r)
{
	holder<Vec, T, N> a, b;
	auto x = arr<T, N>([&] { return gen<T>(r); }), y = arr<T, N>([&] { return gen<T>(r); });
	auto judge2 = [&](const std::array<T, N> &p, const std::array<T, N> &q, const char *what) {
		R.saw(mix(hash_str(what), hash_arr(x, hash_arr(y))));
		auto ga = a.read(), gb = b.read();
		for (std::size_t i = 0; i < N; ++i)
			if (!same(ga[i], p[i]) || !same(gb[i], q[i]))
			{
				R.fail(R.sec + ":" + what, std::string(what) + " of " + show(x) + " and " + show(y) + " gives " + show(ga) + " and " + show(gb));
				return;
			}
		R.check(a.guards() && b.guards(), std::string(what) + ":guards", "memory around the vectors changed");
	};
	a.load(x); b.load(y);
	a.s.v.swap(b.s.v);
	judge2(y, x, "member swap");
	a.load(x); b.load(y);
	swap(a.s.v, b.s.v);
	judge2(y, x, "free swap");
	a.load(x); b.load(y);
	std::swap(a.s.v, b.s.v);
	judge2(y, x, "std::swap");
	a.load(x); b.load(y);
	a.s.v.swap(a.s.v);
	judge2(x, y, "swap with itself");
	a.load(x); b.load(y);
	auto &self = a.s.v;
	a.s.v = self;
	judge2(x, y, "assign itself");
}

void swaps(rng &r)
{
	R.section("swap");
	swap_vectors<1>(r);
	swap_vectors<2>(r);
	swap_vectors<3>(r);
	swap_vectors<4>(r);
}
#endif

#if WHAT == 0
void run()
{
	rng r(R.seed);
	struct { T pre[4]; dsga::basic_vector<T, 4> v; dsga::basic_vector<T, 4> u; T post[4]; } s{};
	static_assert(sizeof s == sizeof(T) * ML);
	auto load = [&](const memory &m) { std::memcpy(static_cast<void *>(&s), m.data(), sizeof s); };
	auto store = [&] { memory m; std::memcpy(m.data(), &s, sizeof s); return m; };
	for (u64 c = 0; c < R.cases; ++c)
	{
		R.cur_case = c;
		R.section("vec4-itself");
		swizzle_pairs(r, load, store, s.v, s.v, 4, 4);
		R.section("vec4-another");
		swizzle_pairs(r, load, store, s.v, s.u, 4, 8);
		R.section("vec4-const-itself");
		swizzle_pairs(r, load, store, s.v, std::as_const(s.v), 4, 4);
	}
	R.sample("v.zyx *= v.yyy, v /= v.y, v = v.wzyx ... on one vec4, all 16 lanes of surrounding memory compared");
}
#elif WHAT == 1
void run()
{
	rng r(R.seed);
	T buf[ML] = {};
	auto load = [&](const memory &m) { std::memcpy(buf, m.data(), sizeof buf); };
	auto store = [&] { memory m; std::memcpy(m.data(), buf, sizeof buf); return m; };
	for (u64 c = 0; c < R.cases; ++c)
	{
		R.cur_case = c;
		for (int off = -4; off <= 4; ++off)
		{
			R.section("views-offset" + std::to_string(off));
			std::size_t ao = 6, bo = static_cast<std::size_t>(6 + off);
			dsga::basic_view<true, T, 4> a(buf + ao), b(buf + bo);
			dsga::basic_view<false, T, 4> k(buf + bo);
			swizzle_pairs(r, load, store, a, b, ao, bo);
			// whole views of the same type
			all_ops(r, load, store, a, k, L4(0, 1, 2, 3, ao), L4(0, 1, 2, 3, bo), "view from constant view");
			dsga::basic_view<true, T, 3> a3(buf + ao); dsga::basic_view<false, T, 3> k3(buf + bo);
			dsga::basic_view<true, T, 2> a2(buf + ao); dsga::basic_view<false, T, 2> k2(buf + bo);
			all_ops(r, load, store, a3, k3, L3(0, 1, 2, ao), L3(0, 1, 2, bo), "view3 from constant view3");
			all_ops(r, load, store, a2, k2, L2(0, 1, ao), L2(0, 1, bo), "view2 from constant view2");
			// the same memory through a temporary view
			{
				memory m = fill(r);
				load(m);
				dsga::basic_view<true, T, 4>(buf + ao) = dsga::basic_view<true, T, 4>(buf + bo).wzyx;
				judge_memory(m, store(), Assign, L4(0, 1, 2, 3, ao), L4(3, 2, 1, 0, bo), "temporary view from .wzyx");
				m = fill(r);
				load(m);
				dsga::basic_view<true, T, 4>(buf + ao).zxy = dsga::basic_view<true, T, 4>(buf + bo).yzw;
				judge_memory(m, store(), Assign, L3(2, 0, 1, ao), L3(1, 2, 3, bo), "temporary .zxy from .yzw");
				m = fill(r);
				load(m);
				dsga::basic_view<true, T, 4>(buf + ao) = dsga::basic_view<true, T, 4>(buf + bo);
				judge_memory(m, store(), Assign, L4(0, 1, 2, 3, ao), L4(0, 1, 2, 3, bo), "temporary view from view");
			}
			// set() from lanes of the overlapping view
			{
				memory m = fill(r);
				load(m);
				a.set(b[3], b[0], b[1], b[2]);
				judge_memory(m, store(), Assign, L4(0, 1, 2, 3, ao), L4(3, 0, 1, 2, bo), "set() from lanes");
				m = fill(r);
				load(m);
				a.wzyx.set(b[3], b[0], b[1], b[2]);
				judge_memory(m, store(), Assign, L4(3, 2, 1, 0, ao), L4(3, 0, 1, 2, bo), ".wzyx.set() from lanes");
			}
			// swap() of overlapping views is refused and changes nothing; of the same or of separate memory it exchanges
			auto swap_case = [&](auto &x, auto &y, std::size_t n, const char *what) {
				memory m = fill(r);
				load(m);
				bool threw = false;
				try { x.swap(y); } catch (const std::range_error &) { threw = true; }
				memory want = m;
				std::size_t dist = static_cast<std::size_t>(off < 0 ? -off : off);
				bool overlap = dist != 0 && dist < n;
				if (!overlap)
					for (std::size_t i = 0; i < n; ++i) { want[ao + i] = m[bo + i]; want[bo + i] = m[ao + i]; }
				R.saw(mix(hash_str(what), hash_arr(m)));
				if (threw != overlap)
					R.fail(R.sec + ":" + what + (threw ? ":refused" : ":accepted"), std::string(what) + " of views " + std::to_string(off) + " lanes apart");
				else if (store() != want)
					R.fail(R.sec + ":" + what, std::string(what) + " on " + show(m) + " gives " + show(store()) + " want " + show(want));
			};
			swap_case(a, b, 4, "swap4");
			dsga::basic_view<true, T, 3> b3(buf + bo);
			dsga::basic_view<true, T, 2> b2(buf + bo);
			swap_case(a3, b3, 3, "swap3");
			swap_case(a2, b2, 2, "swap2");
			dsga::basic_view<true, T, 1> a1(buf + ao), b1(buf + bo);
			swap_case(a1, b1, 1, "swap1");
			// the free function too
			{
				memory m = fill(r);
				load(m);
				bool threw = false;
				try { swap(a, b); } catch (const std::range_error &) { threw = true; }
				memory want = m;
				bool overlap = off != 0 && off > -4 && off < 4;
				if (!overlap)
					for (std::size_t i = 0; i < 4; ++i) { want[ao + i] = m[bo + i]; want[bo + i] = m[ao + i]; }
				R.saw(hash_arr(m));
				R.check(threw == overlap && store() == want, "free-swap", "swap(view, view) " + std::to_string(off) + " lanes apart: threw " + show(threw) + ", memory " + show(store()) + " want " + show(want));
			}
		}
	}
	R.sample("two views of 4 lanes -4..4 lanes apart in one buffer of 16: a.zyx *= b.yyy, a = b.wzyx, swap ...; whole buffer compared");
}
#else
// view-backed vectors and vectors seen through views of themselves
void run()
{
	rng r(R.seed);
	for (u64 c = 0; c < R.cases; ++c)
	{
		R.cur_case = c;
		{
			R.section("view_vector");
			dsga::view_vector<T, 4> v;
			auto load = [&](const memory &m) { std::memcpy(&v[0], m.data() + 4, 4 * sizeof(T)); rest = m; };
			auto store = [&] { memory m = rest; std::memcpy(m.data() + 4, &v[0], 4 * sizeof(T)); return m; };
			swizzle_pairs(r, load, store, v, v, 4, 4);
			dsga::basic_view<true, T, 4> w(&v[0]);
			swizzle_pairs(r, load, store, v, w, 4, 4);
			swizzle_pairs(r, load, store, w, v, 4, 4);
			all_ops(r, load, store, v, v, L4(0, 1, 2, 3, 4), L4(0, 1, 2, 3, 4), "itself");
		}
		{
			R.section("vector-through-view");
			dsga::basic_vector<T, 4> v{};
			dsga::basic_view<true, T, 4> w(v.data());
			auto load = [&](const memory &m) { std::memcpy(static_cast<void *>(&v), m.data() + 4, sizeof v); rest = m; };
			auto store = [&] { memory m = rest; std::memcpy(m.data() + 4, v.data(), sizeof v); return m; };
			swizzle_pairs(r, load, store, v, w, 4, 4);
			swizzle_pairs(r, load, store, w, v, 4, 4);
			dsga::basic_view<true, T, 3> tail(v.data() + 1);
			all_ops(r, load, store, tail, v.xyz, L3(1, 2, 3, 4), L3(0, 1, 2, 4), "tail view from .xyz");
			all_ops(r, load, store, v.xyz, tail, L3(0, 1, 2, 4), L3(1, 2, 3, 4), ".xyz from tail view");
			all_ops(r, load, store, v.zyx, tail, L3(2, 1, 0, 4), L3(1, 2, 3, 4), ".zyx from tail view");
		}
		if constexpr (!is_int)
		{
			matrices(r);
			functions<T>(r);
		}
		swaps(r);
	}
	R.sample("view-backed vector: v = v.wzyx, v.yx = v.xy, v /= v.y ...; matrices: m = transpose(m), m = m * m, m[0] = m[1].yxz");
}
#endif

int main(int argc, char **argv)
{
	R.start(argc, argv);
	run();
	return R.finish();
}
