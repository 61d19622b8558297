// P02: writing through a named swizzle changes exactly the lanes its name spells; names which repeat a letter, and swizzles of
// constant things, can not be written through at all.
//   WHAT 0   every writable name of vectors, main ways of writing;  WHAT 1  the same on views and view-backed vectors
//   WHAT 2   a choice of names, every way of writing, element type ELEM
//   WHAT 3   every name: what the library accepts as a write
#include "kinds.hpp"
#include "swz_names.inc"
using namespace mon;

#ifndef ELEM
#define ELEM float
#endif
using T = ELEM;
using A4 = std::array<T, 4>;

constexpr bool distinct_letters(const char *s)
{
	for (const char *p = s; *p; ++p)
		for (const char *q = p + 1; *q; ++q)
			if (*p == *q)
				return false;
	return true;
}

// what the base has to look like after a write
struct situation
{
	A4 before{}, after{}, src{};
	std::size_t size = 0;
};

__attribute__((noinline)) void expect(const A4 &base, const situation &s, bool guards, const char *name, const char *how)
{
	R.saw(mix(mix(hash_str(name), hash_str(how)), hash_arr(s.src, hash_arr(s.before))));
	for (std::size_t i = 0; i < s.size; ++i)
		if (!same(base[i], s.after[i]))
		{
			R.fail(R.sec + ":" + name + ":" + how, std::string(".") + name + " <- " + show(s.src) + " on " + show(s.before) + " gives " + show(base) + " want " + show(s.after));
			return;
		}
	if (!guards)
		R.fail(R.sec + ":" + name + ":" + how + ":guards", std::string("writing .") + name + " changed memory outside of the vector");
}

template <std::size_t Size, typename H>
struct target
{
	H h, other;
	rng r;
	target(u64 seed) : r(seed) {}

	situation prepare(const std::size_t *idx, std::size_t count)
	{
		situation s;
		s.size = Size;
		std::array<T, Size> b, o;
		for (std::size_t i = 0; i < Size; ++i) { b[i] = gen<T>(r); o[i] = gen<T>(r); }
		h.load(b);
		other.load(o);
		for (std::size_t i = 0; i < Size; ++i) s.before[i] = b[i];
		s.after = s.before;
		for (std::size_t i = 0; i < count; ++i) { s.src[i] = gen<T>(r); if (same(s.src[i], b[idx[i]]) && std::is_same_v<T, bool>) s.src[i] = !b[idx[i]]; s.after[idx[i]] = s.src[i]; }
		return s;
	}
	A4 base()
	{
		A4 a{};
		auto v = h.read();
		for (std::size_t i = 0; i < Size; ++i) a[i] = v[i];
		return a;
	}
};

template <std::size_t Size, std::size_t N, typename Tg, typename S, std::size_t ...Is>
__attribute__((noinline)) void write_swizzle(Tg &t, S &s, std::index_sequence<Is...>, const char *name)
{
	constexpr std::size_t idx[N] = { Is... };
	auto check = [&](const situation &q, const char *how) { expect(t.base(), q, t.h.guards(), name, how); };
	auto vec_of = [](const A4 &a) { dsga::basic_vector<T, N> v; std::memcpy(&v, a.data(), sizeof v); return v; };

	// another vector
	{
		auto q = t.prepare(idx, N);
		s = vec_of(q.src);
		check(q, "assign-vector");
	}
	// a const vector
	{
		auto q = t.prepare(idx, N);
		const auto v = vec_of(q.src);
		auto &res = (s = v);
		check(q, "assign-const-vector");
		if (static_cast<const void *>(&res) != static_cast<const void *>(&s))
			R.fail(R.sec + ":" + name + ":assign-returns", "assignment does not return the swizzle");
	}
	// component by component
	{
		auto q = t.prepare(idx, N);
		[&]<std::size_t ...Js>(std::index_sequence<Js...>) { s.set(q.src[Js]...); }(std::make_index_sequence<N>{});
		check(q, "set");
	}
	{
		auto q = t.prepare(idx, N);
		for (std::size_t i = 0; i < N; ++i) s[i] = q.src[i];
		check(q, "index");
	}
	if constexpr (N == 1 && !std::is_same_v<T, bool>)
	{
		auto q = t.prepare(idx, N);
		s = q.src[0];
		check(q, "assign-scalar");
	}
#if WHAT == 1 || WHAT == 2
	// a swizzle of a temporary view is still a way to the same memory
	if constexpr (requires { std::move(s) = vec_of(A4{}); })
	{
		{
			auto q = t.prepare(idx, N);
			std::move(s) = vec_of(q.src);
			check(q, "temporary-assign-vector");
		}
		{
			auto q = t.prepare(idx, N);
			for (std::size_t i = 0; i < N; ++i) std::move(s)[i] = q.src[i];
			check(q, "temporary-index");
		}
		if constexpr (N == 1 && !std::is_same_v<T, bool>)
		{
			auto q = t.prepare(idx, N);
			std::move(s) = q.src[0];
			check(q, "temporary-assign-scalar");
		}
	}
#endif
#if WHAT == 2
	// another kind of vector
	{
		auto q = t.prepare(idx, N);
		T buf[4];
		for (std::size_t i = 0; i < N; ++i) buf[i] = q.src[i];
		dsga::basic_view<true, T, N> w(buf);
		s = w;
		check(q, "assign-view");
	}
	{
		auto q = t.prepare(idx, N);
		dsga::basic_vector<T, 4> v4;
		T raw[4] = { guard_value<T>(0), guard_value<T>(1), guard_value<T>(2), guard_value<T>(3) };
		for (std::size_t i = 0; i < N; ++i) raw[swz_lanes<N>::at[i]] = q.src[i];
		std::memcpy(&v4, raw, sizeof raw);
		const auto &cv4 = v4;
		if constexpr (!std::is_same_v<std::remove_cvref_t<decltype(pick_swz<N>(cv4))>, std::remove_cvref_t<S>>)
		{
			s = pick_swz<N>(cv4);
			check(q, "assign-other-swizzle");
		}
	}
	{
		auto q = t.prepare(idx, N);
		std::size_t i = 0;
		for (auto &x : s) x = q.src[i++];
		check(q, "range-for");
	}
	{
		auto q = t.prepare(idx, N);
		std::size_t i = N;
		for (auto it = s.rbegin(); it != s.rend(); ++it) *it = q.src[--i];
		check(q, "reverse");
	}
	{
		auto q = t.prepare(idx, N);
		auto it = s.begin();
		for (std::size_t i = 0; i < N; ++i) it[i] = q.src[i];
		check(q, "iterator-index");
	}
	{
		auto q = t.prepare(idx, N);
		T *p = s.data();
		[&]<std::size_t ...Js>(std::index_sequence<Js...>) { std::size_t i = 0; ((p[Js] = q.src[i++]), ...); }(s.sequence());
		check(q, "data-sequence");
	}
	{
		auto q = t.prepare(idx, N);
		[&]<std::size_t ...Js>(std::index_sequence<Js...>) { ((dsga::get<Js>(s) = q.src[Js]), ...); }(std::make_index_sequence<N>{});
		check(q, "get");
	}
	if constexpr (!std::is_same_v<T, bool>)
	{
		// a compound assignment with an exact result
		auto q = t.prepare(idx, N);
		for (std::size_t i = 0; i < N; ++i) { T v = gen_mod<T>(t.r); if constexpr (std::is_floating_point_v<T>) v = std::floor(v); s[i] = v; T w = static_cast<T>(t.r.range(0, 50)); q.src[i] = w; q.after[idx[i]] = static_cast<T>(v + w); }
		s += vec_of(q.src);
		check(q, "plus-assign");
	}
	{
		// through the base class interface, as generic code does
		auto q = t.prepare(idx, N);
		auto &b = s.as_base();
		[&]<std::size_t ...Js>(std::index_sequence<Js...>) { b.set(q.src[Js]...); }(std::make_index_sequence<N>{});
		check(q, "base-set");
	}
#endif
}

// the same name on another vector: only the named lanes may move
template <std::size_t Size, std::size_t N, typename Tg, typename S, std::size_t ...Is>
__attribute__((noinline)) void same_name(Tg &t, S &s, S &o, std::index_sequence<Is...>, const char *name)
{
	constexpr std::size_t idx[N] = { Is... };
	auto take_other = [&](situation &q) { auto v = t.other.read(); q.after = q.before; q.src = {}; for (std::size_t i = 0; i < N; ++i) { q.src[i] = v[idx[i]]; q.after[idx[i]] = q.src[i]; } };
	// the recorded finding: the whole storage is copied
	auto check = [&](const situation &q, const char *how) {
		auto got = t.base();
		auto oth = t.other.read();
		bool whole = true, right = true;
		for (std::size_t i = 0; i < Size; ++i) { whole = whole && same(got[i], oth[i]); right = right && same(got[i], q.after[i]); }
		if (!right && whole)
		{
			R.saw(hash_arr(got));
			R.fail(std::string("same-name/") + how + ":whole-storage-copied", std::string(".") + name + " = other." + name + " on " + show(q.before) + " gives " + show(got) + " want " + show(q.after));
			return;
		}
		expect(got, q, t.h.guards(), name, how);
	};
	{
		auto q = t.prepare(idx, N);
		take_other(q);
		s = o;
		check(q, "mutable-source");
	}
	{
		auto q = t.prepare(idx, N);
		take_other(q);
		s = std::as_const(o);
		check(q, "const-source");
	}
	{
		auto q = t.prepare(idx, N);
		take_other(q);
		s = std::move(o);
		check(q, "rvalue-source");
	}
	{
		// writing the swizzle of a vector with itself changes nothing
		auto q = t.prepare(idx, N);
		q.after = q.before;
		auto &self = s;
		s = self;
		expect(t.base(), q, t.h.guards(), name, "self");
	}
}

// ---------------------------------------------------------------------------------------------------------------------
// what is accepted

template <typename S, std::size_t N>
concept accepts_vector = requires(S &s, dsga::basic_vector<T, N> v) { s = v; };
template <typename S>
concept accepts_index = requires(S &s, T v) { s[0] = v; };
template <typename S>
concept accepts_scalar = requires(S &s, T v) { s = v; };
template <typename S>
concept accepts_begin = requires(S &s, T v) { *s.begin() = v; };
template <typename S>
concept accepts_data = requires(S &s, T v) { *s.data() = v; };
template <typename S>
concept accepts_plus = requires(S &s, T v) { s += v; };
template <typename S>
concept accepts_incr = requires(S &s) { ++s; };
template <typename S, typename F>
concept accepts_from = requires(S &s, F f) { s = static_cast<F>(f); };
template <typename S, std::size_t N>
constexpr bool accepts_set()
{
	if constexpr (N == 1) return requires(S &s, T v) { s.set(v); };
	else if constexpr (N == 2) return requires(S &s, T v) { s.set(v, v); };
	else if constexpr (N == 3) return requires(S &s, T v) { s.set(v, v, v); };
	else return requires(S &s, T v) { s.set(v, v, v, v); };
}

template <std::size_t N, typename S>
void accepts(bool want, const char *name)
{
	const bool got[] = { accepts_vector<S, N>, accepts_index<S>, accepts_begin<S>, accepts_data<S>, accepts_set<S, N>(), accepts_plus<S>, accepts_incr<S> };
	const char *how[] = { "assign", "index", "begin", "data", "set", "plus-assign", "increment" };
	for (std::size_t i = 0; i < std::size(got); ++i)
	{
		R.saw(mix(hash_str(name), i));
		if (got[i] != want)
			R.fail(R.sec + ":" + name + ":" + how[i] + (want ? ":refused" : ":accepted"), std::string(".") + name + (want ? " can not be written" : " can be written") + " by " + how[i]);
	}
	if constexpr (N == 1)
		if (accepts_scalar<S> != want)
			R.fail(R.sec + ":" + name + ":scalar", std::string(".") + name + " writable from a scalar: " + (want ? "refused" : "accepted"));
}

template <typename S>
void refuses_same(const char *name)
{
	using M = std::remove_const_t<S>;
	if (accepts_from<S, M &>)
		R.fail(R.sec + ":" + name + ":same-name-mutable:accepted", std::string(".") + name + " can be assigned from a mutable swizzle of the same name");
	if (accepts_from<S, const M &>)
		R.fail("readonly-same-name/const-source:accepted", std::string(".") + name + " can be assigned from a const swizzle of the same name");
	if (accepts_from<S, M &&>)
		R.fail("readonly-same-name/rvalue-source:accepted", std::string(".") + name + " can be assigned from an rvalue swizzle of the same name");
}

#define CHOICE_1(X) SWZ_1_1(X)
#define CHOICE_2(X) SWZ_2_1(X) X(xy, 2, 0, 1) X(yx, 2, 1, 0)
#define CHOICE_3(X) SWZ_3_1(X) X(zx, 2, 2, 0) X(yz, 2, 1, 2) X(zxy, 3, 2, 0, 1) X(xzy, 3, 0, 2, 1)
#define CHOICE_4(X) SWZ_4_1(X) X(wx, 2, 3, 0) X(yw, 2, 1, 3) X(zxw, 3, 2, 0, 3) X(ywz, 3, 1, 3, 2) X(wzyx, 4, 3, 2, 1, 0) X(zxwy, 4, 2, 0, 3, 1)

#if WHAT == 2
#define NAMES(n) CHOICE_##n
#else
#define NAMES(n) SWZ_##n
#endif

#define WR(name, count, ...) if constexpr (distinct_letters(#name)) write_swizzle<Size, count>(t, t.h.s.v.name, std::index_sequence<__VA_ARGS__>{}, #name);
#define SAME(name, count, ...) if constexpr (distinct_letters(#name)) same_name<Size, count>(t, t.h.s.v.name, t.other.s.v.name, std::index_sequence<__VA_ARGS__>{}, #name);

template <std::size_t Size, kind K>
__attribute__((noinline)) void write_all()
{
	R.section(std::string(kname(K)) + std::to_string(Size));
	target<Size, holder<K, T, Size>> t(R.seed * 31 + Size * 7 + K);
	for (u64 c = 0; c < R.cases; ++c)
	{
		R.cur_case = c;
		if constexpr (Size == 1) { NAMES(1)(WR) } else if constexpr (Size == 2) { NAMES(2)(WR) } else if constexpr (Size == 3) { NAMES(3)(WR) } else { NAMES(4)(WR) }
#if WHAT == 0
		if constexpr (K == Vec)
		{
			if constexpr (Size == 1) { SWZ_1(SAME) } else if constexpr (Size == 2) { SWZ_2(SAME) } else if constexpr (Size == 3) { SWZ_3(SAME) } else { SWZ_4(SAME) }
		}
#endif
	}
	R.sample(std::string(kname(K)) + " of " + std::to_string(Size) + " " + tname<T> + ": writes through names, e.g. .x = , .set(), [i] = ; all other lanes and both sides watched");
}

#define ACC(name, count, ...) accepts<count, std::remove_reference_t<decltype((std::declval<O &>().name))>>(writable && distinct_letters(#name), #name);
#define REF(name, count, ...) if constexpr (!distinct_letters(#name)) refuses_same<std::remove_reference_t<decltype((std::declval<O &>().name))>>(#name);

template <std::size_t Size, typename O>
void accept_all(bool writable, const char *what, bool same)
{
	R.section(std::string("accept-") + what + std::to_string(Size));
	if constexpr (Size == 1) { SWZ_1(ACC) } else if constexpr (Size == 2) { SWZ_2(ACC) } else if constexpr (Size == 3) { SWZ_3(ACC) } else { SWZ_4(ACC) }
	if (same)
	{
		if constexpr (Size == 1) { SWZ_1(REF) } else if constexpr (Size == 2) { SWZ_2(REF) } else if constexpr (Size == 3) { SWZ_3(REF) } else { SWZ_4(REF) }
	}
}

template <std::size_t Size>
void run_size()
{
#if WHAT == 0
	write_all<Size, Vec>();
#elif WHAT == 1
	write_all<Size, View>();
	write_all<Size, VV>();
#elif WHAT == 2
	write_all<Size, Vec>();
	write_all<Size, View>();
	write_all<Size, VV>();
#elif WHAT == 3
	accept_all<Size, dsga::basic_vector<T, Size>>(true, "vec", true);
	accept_all<Size, dsga::basic_view<true, T, Size>>(true, "view", true);
#elif WHAT == 4
	accept_all<Size, const dsga::basic_vector<T, Size>>(false, "constvec", false);
	accept_all<Size, dsga::basic_view<false, T, Size>>(false, "cview", false);
	accept_all<Size, const dsga::basic_view<true, T, Size>>(false, "constview", false);
	accept_all<Size, const dsga::view_vector<T, Size>>(false, "constvv", false);
	R.sample("every name of vectors and views: assign, index, begin, data, set, +=, ++ accepted exactly where letters are distinct and the object is not constant");
#endif
}

int main(int argc, char **argv)
{
	R.start(argc, argv);
	run_size<1>();
	run_size<2>();
	run_size<3>();
	run_size<4>();
	return R.finish();
}
