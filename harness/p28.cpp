// P28: conversions to and from arrays, tuple access, structured bindings and the sizes agree with the lanes in memory, bit for bit.
//   ELEM element type    ELEM_IS_FLOAT 1: matrices too
#ifndef ELEM_IS_FLOAT
#define ELEM_IS_FLOAT 0
#endif
#include "kinds.hpp"
#include <memory>
#include <tuple>
using namespace mon;
using T = ELEM;

T value(rng &r)
{
	if constexpr (std::is_same_v<T, bool>) return r.coin();
	// any bit pattern: NaN with any payload, zeros, subnormals
	else if (r.below(4) == 0) return gen<T>(r);
	else { T v; u64 b = r.next(); if (r.below(6) == 0 && std::is_floating_point_v<T>) b |= sizeof(T) == 4 ? 0x7f800000ull : 0x7ff0000000000000ull; std::memcpy(&v, &b, sizeof(T)); return v; }
}

// really every bit, NaN payload included
bool same_bits(const T &a, const T &b) { return std::memcmp(&a, &b, sizeof(T)) == 0; }

template <std::size_t N>
struct checker
{
	std::string what;
	const std::array<T, N> &want;
	void operator ()(const char *how, const T *got)
	{
		R.saw(mix(hash_arr(want), hash_str((what + how).c_str())), true);
		for (std::size_t i = 0; i < N; ++i)
			if (!same_bits(got[i], want[i]))
			{
				std::array<T, N> g;
				std::copy(got, got + N, g.begin());
				R.fail(R.sec + ":" + how, std::string(how) + " gives " + show(g) + " for lanes " + show(want));
				return;
			}
	}
	void is(const char *how, bool ok) { R.saw(mix(hash_arr(want), hash_str((what + how).c_str())), true); if (!ok) R.fail(R.sec + ":" + how, std::string(how) + " is wrong for lanes " + show(want)); }
};

// the tuple protocol of a type, cv-qualified or not
template <typename V, std::size_t N>
constexpr bool protocol()
{
	using C = const V;
	if constexpr (requires { std::tuple_size<V>::value; std::tuple_size<C>::value; })
	{
		if (std::tuple_size_v<V> != N || std::tuple_size_v<C> != N) return false;
		return []<std::size_t ...I>(std::index_sequence<I...>) { return ((std::is_same_v<std::tuple_element_t<I, V>, T> && std::is_same_v<std::tuple_element_t<I, C>, const T>) && ...); }(std::make_index_sequence<N>{});
	}
	else return false;
}

// get<> of an object of any value category names the lanes at `at` themselves
template <std::size_t N, typename V>
void tuple_access(checker<N> &c, V &v, const std::array<const T *, N> &at, bool writable)
{
	using namespace dsga;
	const auto &k = std::as_const(v);
	bool ok = true, okc = true, okr = true;
	[&]<std::size_t ...I>(std::index_sequence<I...>) {
		auto one = [&]<std::size_t J>(std::integral_constant<std::size_t, J>) {
			static_assert(std::is_same_v<decltype(get<J>(k)), const T &>);
			okc = okc && &get<J>(k) == at[J];
			ok = ok && &get<J>(v) == at[J];
			auto &&x = get<J>(std::move(v));
			okr = okr && &x == at[J];
			static_assert(std::is_rvalue_reference_v<decltype(get<J>(std::move(v)))>);
			auto &&y = get<J>(std::move(k));
			okr = okr && &y == at[J];
			static_assert(std::is_same_v<decltype(get<J>(std::move(k))), const T &&>);
		};
		(one(std::integral_constant<std::size_t, I>{}), ...);
		std::array<T, N> got{ get<I>(k)... };
		c("get", got.data());
		static_assert(!requires { get<static_cast<int>(N)>(k); });
	}(std::make_index_sequence<N>{});
	c.is("get of an lvalue", ok);
	c.is("get of a const lvalue", okc);
	c.is("get of an rvalue", okr);
	(void)writable;
}

template <bool COPY = true, std::size_t N, typename V>
void bindings(checker<N> &c, const V &v)
{
	if constexpr (N == 1) { const auto &[a] = v; std::array<T, N> g{ a }; c("structured binding", g.data()); }
	if constexpr (N == 2) { const auto &[a, b] = v; std::array<T, N> g{ a, b }; c("structured binding", g.data()); }
	if constexpr (N == 3) { const auto &[a, b, d] = v; std::array<T, N> g{ a, b, d }; c("structured binding", g.data()); }
	if constexpr (N == 4) { const auto &[a, b, d, e] = v; std::array<T, N> g{ a, b, d, e }; c("structured binding", g.data()); }
	if constexpr (COPY && std::is_copy_constructible_v<V>)
	{
		if constexpr (N == 1) { const auto [a] = v; std::array<T, N> g{ a }; c("structured binding of a copy", g.data()); }
		if constexpr (N == 2) { const auto [a, b] = v; std::array<T, N> g{ a, b }; c("structured binding of a copy", g.data()); }
		if constexpr (N == 3) { const auto [a, b, d] = v; std::array<T, N> g{ a, b, d }; c("structured binding of a copy", g.data()); }
		if constexpr (N == 4) { const auto [a, b, d, e] = v; std::array<T, N> g{ a, b, d, e }; c("structured binding of a copy", g.data()); }
	}
}

template <std::size_t N, typename V>
void write_bindings(V &v, const std::array<T, N> &x)
{
	if constexpr (N == 1) { auto &[a] = v; a = x[0]; }
	if constexpr (N == 2) { auto &[a, b] = v; b = x[1]; a = x[0]; }
	if constexpr (N == 3) { auto &[a, b, d] = v; b = x[1]; a = x[0]; d = x[2]; }
	if constexpr (N == 4) { auto &[a, b, d, e] = v; e = x[3]; b = x[1]; a = x[0]; d = x[2]; }
}

template <typename D, std::size_t N, typename V>
void base_of(checker<N> &c, const V &v, const std::array<const T *, N> &at)
{
	// the same object seen as the common base of all vector-like types
	[&]<bool W, std::size_t C, typename E>(const dsga::vector_base<W, T, C, E> &b) {
		static_assert(C == N);
		static_assert(protocol<dsga::vector_base<W, T, C, E>, N>());
		std::array<T, N> a = dsga::to_array(b);
		c("to_array of the base", a.data());
		bool ok = true;
		for (std::size_t i = 0; i < N; ++i) ok = ok && &b[i] == at[i];
		c.is("operator [] of the base", ok);
		bindings<false>(c, b);	// a copy of the base alone would be a slice
	}(v);
}

template <kind K, std::size_t N>
__attribute__((noinline)) void one_kind(rng &r)
{
	using H = holder<K, T, N>;
	R.section(std::string(kname(K)) + "/" + std::to_string(N) + "/" + tname<T>);
	std::array<T, N> in, other;
	for (auto &x : in) x = value(r);
	for (auto &x : other) x = value(r);
	H h(in);
	auto &v = h.obj();
	const auto &k = std::as_const(v);
	using V = std::remove_cvref_t<decltype(v)>;
	checker<N> c{ kname(K), in };
	std::array<const T *, N> at;
	for (std::size_t i = 0; i < N; ++i) at[i] = h.raw() + H::lane(i);

	// a single lane is its scalar, and converts when asked to whatever its scalar converts to
	if constexpr (N == 1)
	{
		T t = k;
		if (!same(t, in[0])) R.fail(R.sec + ":scalar", "the scalar of " + show(in) + " is " + show(t));
		auto conv = [&]<typename U>(type_c<U>, const char *how) {
			// (a conversion which does not fit is not defined)
			if constexpr (std::is_floating_point_v<T> && std::is_integral_v<U> && !std::is_same_v<U, bool>)
			{ if (!(in[0] > T(std::is_signed_v<U> ? -1e6 : -0.5) && in[0] < T(1e6))) return; }
			if constexpr (std::is_same_v<T, double> && std::is_same_v<U, float>)
			{ if (std::fabs(in[0]) > std::numeric_limits<float>::max() || std::isnan(in[0])) return; }
			const U w = static_cast<U>(in[0]), g = static_cast<U>(k);
			const U e(v);
			R.saw(mix(hash_arr(in), hash_str(how)) + K);
			if (!same_val(g, w) || !same_val(e, w)) R.fail(R.sec + ":" + how, std::string(how) + " of " + show(in) + " gives " + show(g) + " and " + show(e) + " want " + show(w));
		};
		conv(type_c<bool>{}, "conversion to bool"); conv(type_c<int>{}, "conversion to int"); conv(type_c<unsigned>{}, "conversion to unsigned");
		conv(type_c<long long>{}, "conversion to long long"); conv(type_c<unsigned long long>{}, "conversion to unsigned long long");
		conv(type_c<float>{}, "conversion to float"); conv(type_c<double>{}, "conversion to double");
	}

	// arrays
	static_assert(std::is_same_v<decltype(dsga::to_array(k)), std::array<T, N>>);
	const std::array<T, N> a = dsga::to_array(k);
	c("to_array", a.data());
	const auto back = dsga::to_vector(a);
	static_assert(std::is_same_v<decltype(back), const dsga::basic_vector<T, N>>);
	T lanes_of[N];
	std::memcpy(lanes_of, &back, sizeof(lanes_of));
	c("to_vector(to_array)", lanes_of);
	T plain[N];
	std::copy(in.begin(), in.end(), plain);
	const auto from_plain = dsga::to_vector(plain);
	static_assert(std::is_same_v<decltype(from_plain), const dsga::basic_vector<T, N>>);
	std::memcpy(lanes_of, &from_plain, sizeof(lanes_of));
	c("to_vector of a C array", lanes_of);
	const auto again = dsga::to_array(dsga::to_vector(std::array<T, N>(in)));
	c("to_array(to_vector)", again.data());

	// sizes
	c.is("tuple_size and tuple_element", protocol<V, N>());
	c.is("size", static_cast<std::size_t>(k.size()) == N && V::size() == N);
	static_assert(std::is_same_v<decltype(k.length()), int>);
	c.is("length", k.length() == static_cast<int>(N));
	c.is("iterator distance", k.end() - k.begin() == static_cast<std::ptrdiff_t>(N) && k.rend() - k.rbegin() == static_cast<std::ptrdiff_t>(N));

	// the lanes in place
	tuple_access<N>(c, v, at, H::writable);
	bindings(c, k);
	base_of<V, N>(c, k, at);
	[&]<std::size_t ...Is>(std::index_sequence<Is...>) {
		std::array<T, N> got{ k.data()[Is]... };
		c("data() and sequence()", got.data());
	}(k.sequence());
	{
		std::array<T, N> got;
		std::copy(k.begin(), k.end(), got.begin());
		c("iteration", got.data());
		for (std::size_t i = 0; i < N; ++i) got[i] = k[i];
		c("operator []", got.data());
	}

	// one lane is a scalar too
	if constexpr (N == 1)
	{
		const T s = k;
		c("conversion to scalar", &s);
		for_types<int, unsigned, long long, unsigned long long, float, double, bool>([&](auto t) {
			using U = typename decltype(t)::type;
			if constexpr (std::is_floating_point_v<T> && std::is_integral_v<U> && !std::is_same_v<U, bool>)
			{
				if (!(in[0] > T(-2e9) && in[0] < T(2e9)) || (std::is_unsigned_v<U> && in[0] < 0)) return;
			}
			if constexpr (std::is_same_v<T, double> && std::is_same_v<U, float>)
				if (in[0] != in[0] || std::fabs(in[0]) > 3e38) return;
			if constexpr (requires { static_cast<U>(k); })
			{
				const U got = static_cast<U>(k), want = static_cast<U>(in[0]);
				c.is("explicit conversion", std::is_same_v<U, T> || same(got, want));
			}
			else c.is("explicit conversion exists", false);
		});
	}

	// writing through the tuple protocol
	if constexpr (H::writable)
	{
		using namespace dsga;
		[&]<std::size_t ...I>(std::index_sequence<I...>) { ((get<I>(v) = other[I]), ...); }(std::make_index_sequence<N>{});
		auto got = h.read();
		checker<N> d{ kname(K), other };
		d("writing through get", got.data());
		std::reverse(other.begin(), other.end());
		if constexpr (requires { write_bindings<N>(v, other); })
		{
			write_bindings<N>(v, other);
			got = h.read();
			d("writing through bindings", got.data());
		}
		d.is("guards", h.guards());
		static_assert(std::is_same_v<decltype(get<0>(v)), T &>);
	}
	else
	{
		c.is("guards", h.guards());
		auto got = h.read();
		c("lanes afterwards", got.data());
	}
}

// the storage wrappers, which have a tuple protocol of their own
template <std::size_t N>
__attribute__((noinline)) void wrappers(rng &r)
{
	R.section("wrappers/" + std::to_string(N) + "/" + std::string(tname<T>));
	std::array<T, N> in, other;
	for (auto &x : in) x = value(r);
	for (auto &x : other) x = value(r);
	checker<N> c{ "wrapper", in }, d{ "wrapper", other };
	{
		using S = dsga::storage_wrapper<true, T, N>;
		S s{};
		std::copy(in.begin(), in.end(), s.begin());
		std::array<const T *, N> at;
		for (std::size_t i = 0; i < N; ++i) at[i] = reinterpret_cast<const T *>(&s) + i;
		c.is("storage_wrapper protocol", protocol<S, N>() && S::size() == N && s.length() == static_cast<int>(N));
		tuple_access<N>(c, s, at, true);
		bindings(c, s);
		c("storage_wrapper data", std::as_const(s).data());
		S t{};
		[&]<std::size_t ...I>(std::index_sequence<I...>) { t.set(other[I]...); }(std::make_index_sequence<N>{});
		d("storage_wrapper set", t.data());
		if (r.coin()) s.swap(t); else swap(s, t);
		c("storage_wrapper swap", t.data());
		d("storage_wrapper swap", s.data());
		std::array<T, N> back;
		std::copy(s.rbegin(), s.rend(), back.rbegin());
		d("storage_wrapper reverse iteration", back.data());
		write_bindings<N>(s, in);
		c("storage_wrapper bindings", s.data());
		bool equal = true;
		for (std::size_t i = 0; i < N; ++i) equal = equal && in[i] == other[i];
		S u{};
		std::copy(other.begin(), other.end(), u.begin());
		if constexpr (!std::is_same_v<T, bool>) c.is("storage_wrapper ==", (s == u) == equal);
	}
	{
		using S = dsga::view_wrapper<true, T, N>;
		T memory[2 * N + 2];
		for (auto &x : memory) x = guard_value<T>(static_cast<std::size_t>(&x - memory));
		T *p = memory + 1, *q = memory + 1 + N;
		std::copy(in.begin(), in.end(), p);
		std::copy(other.begin(), other.end(), q);
		S s(p), t(q);
		std::array<const T *, N> at;
		for (std::size_t i = 0; i < N; ++i) at[i] = p + i;
		c.is("view_wrapper protocol", protocol<S, N>() && S::size() == N && s.length() == static_cast<int>(N));
		tuple_access<N>(c, s, at, true);
		bindings(c, s);
		c("view_wrapper data", std::as_const(s).data());
		if (r.coin()) s.swap(t); else swap(s, t);
		c("view_wrapper swap", q);
		d("view_wrapper swap", p);
		[&]<std::size_t ...I>(std::index_sequence<I...>) { s.set(in[I]...); }(std::make_index_sequence<N>{});
		c("view_wrapper set", p);
		std::array<T, N> back;
		std::copy(s.rbegin(), s.rend(), back.rbegin());
		c("view_wrapper reverse iteration", back.data());
		write_bindings<N>(t, other);
		d("view_wrapper bindings", q);
		c.is("view_wrapper guards", same_bits(memory[0], guard_value<T>(0)) && same_bits(memory[2 * N + 1], guard_value<T>(2 * N + 1)));
		const dsga::view_wrapper<false, T, N> k(p);
		bindings(c, k);
		c("const view_wrapper", k.data());
	}
}

#if ELEM_IS_FLOAT
template <std::size_t C, std::size_t W>
__attribute__((noinline)) void matrix(rng &r)
{
	using M = dsga::basic_matrix<T, C, W>;
	constexpr std::size_t E = C * W;
	R.section("matrix/" + std::to_string(C) + "x" + std::to_string(W) + "/" + tname<T>);
	std::array<T, E> in, other;
	for (auto &x : in) x = value(r);
	for (auto &x : other) x = value(r);
	checker<E> c{ "matrix", in }, d{ "matrix", other };
	struct { T pre[2]; M m; T post[2]; } s;
	s.pre[0] = s.pre[1] = s.post[0] = s.post[1] = T(77);
	static_assert(sizeof(M) == sizeof(T) * E);
	std::memcpy(static_cast<void *>(&s.m), in.data(), sizeof(in));
	const M &k = s.m;

	static_assert(std::is_same_v<decltype(dsga::to_array(k)), std::array<T, E>>);
	const auto a = dsga::to_array(k);
	c("to_array", a.data());
	auto raw = [](const M &m) { std::array<T, E> x; std::memcpy(x.data(), &m, sizeof(x)); return x; };
	auto b = dsga::to_matrix<C, W>(a);
	static_assert(std::is_same_v<decltype(b), M>);
	c("to_matrix(to_array)", raw(b).data());

	// longer arrays give their front
	auto longer = [&]<std::size_t S>(std::integral_constant<std::size_t, S>) {
		auto x = std::make_unique<std::array<T, S>>();
		auto y = std::make_unique<T[][S]>(1);
		for (std::size_t i = 0; i < S; ++i) (*x)[i] = y[0][i] = i < E ? in[i] : T(-1);
		c("to_matrix of an array", raw(dsga::to_matrix<C, W>(*x)).data());
		const T (&z)[S] = y[0];
		c("to_matrix of a C array", raw(dsga::to_matrix<C, W>(z)).data());
	};
	longer(std::integral_constant<std::size_t, E>{});
	longer(std::integral_constant<std::size_t, E + 1>{});
	longer(std::integral_constant<std::size_t, E + 7>{});
	static_assert(!requires (std::array<T, E - 1> x) { dsga::to_matrix<C, W>(x); });

	// columns
	using V = dsga::basic_vector<T, W>;
	static_assert(std::tuple_size_v<M> == C && std::tuple_size_v<const M> == C);
	static_assert(std::is_same_v<std::tuple_element_t<C - 1, M>, V> && std::is_same_v<std::tuple_element_t<0, const M>, const V>);
	c.is("size and length", static_cast<std::size_t>(k.size()) == C && M::size() == C && k.length() == static_cast<int>(C) && static_cast<std::size_t>(k.column_size()) == W && static_cast<std::size_t>(k[0].size()) == W);
	{
		using namespace dsga;
		bool ok = true;
		[&]<std::size_t ...I>(std::index_sequence<I...>) {
			auto one = [&]<std::size_t J>(std::integral_constant<std::size_t, J>) {
				const void *at = reinterpret_cast<const T *>(&s.m) + J * W;
				static_assert(std::is_same_v<decltype(get<J>(k)), const V &> && std::is_same_v<decltype(get<J>(s.m)), V &>);
				auto &&x = get<J>(std::move(s.m));
				static_assert(std::is_same_v<decltype(get<J>(std::move(s.m))), V &&>);
				auto &&y = get<J>(std::move(k));
				static_assert(std::is_same_v<decltype(get<J>(std::move(k))), const V &&>);
				ok = ok && &get<J>(k) == at && &get<J>(s.m) == at && &k[J] == at && &s.m[J] == at && &x == at && &y == at;
			};
			(one(std::integral_constant<std::size_t, I>{}), ...);
		}(std::make_index_sequence<C>{});
		c.is("get", ok);
	}
	auto bound = [&](const char *how, auto &...cols) {
		std::array<T, E> x;
		std::size_t i = 0;
		auto add = [&](const V &v) { std::memcpy(x.data() + i, &v, sizeof(v)); i += W; };
		(add(cols), ...);
		c(how, x.data());
	};
	if constexpr (C == 2) { const auto &[p, q] = k; bound("structured binding", p, q); auto [x, y] = s.m; bound("structured binding of a copy", x, y); }
	if constexpr (C == 3) { const auto &[p, q, t] = k; bound("structured binding", p, q, t); auto [x, y, z] = s.m; bound("structured binding of a copy", x, y, z); }
	if constexpr (C == 4) { const auto &[p, q, t, u] = k; bound("structured binding", p, q, t, u); auto [x, y, z, w] = s.m; bound("structured binding of a copy", x, y, z, w); }
	{
		std::array<T, E> x;
		std::size_t i = 0;
		for (const auto &col : k) for (T e : col) x[i++] = e;
		c("iteration", x.data());
		std::copy(k.data()->data(), k.data()->data() + W, x.begin());
		for (std::size_t j = 1; j < C; ++j) std::copy(k.data()[j].data(), k.data()[j].data() + W, x.begin() + static_cast<std::ptrdiff_t>(j * W));
		c("data", x.data());
		for (std::size_t w = 0; w < W; ++w)
		{
			const auto row = k.row(w);
			for (std::size_t j = 0; j < C; ++j) x[j * W + w] = row[j];
		}
		c("row", x.data());
	}
	// write through bindings
	{
		auto put = [&](std::size_t j, V &v) { for (std::size_t i = 0; i < W; ++i) v[i] = other[j * W + i]; };
		if constexpr (C == 2) { auto &[p, q] = s.m; put(0, p); put(1, q); }
		if constexpr (C == 3) { auto &[p, q, t] = s.m; put(0, p); put(1, q); put(2, t); }
		if constexpr (C == 4) { auto &[p, q, t, u] = s.m; put(0, p); put(1, q); put(2, t); put(3, u); }
		d("writing through bindings", raw(s.m).data());
	}
	d.is("guards", s.pre[0] == T(77) && s.pre[1] == T(77) && s.post[0] == T(77) && s.post[1] == T(77));
}
#endif

int main(int argc, char **argv)
{
	R.start(argc, argv);
	rng r(R.seed);
	for (u64 c = 0; c < R.cases; ++c)
	{
		R.cur_case = c;
		for_kinds<Vec, CVec, Swz, View, CView, VSwz, CVSwz, VV, SwzA, SwzD, VSwzA, VSwzD>([&](auto k) { for_sizes([&](auto n) { one_kind<k, n>(r); }); });
		for_sizes([&](auto n) { wrappers<n>(r); });
#if ELEM_IS_FLOAT
		for_sizes([&](auto x) { for_sizes([&](auto y) { if constexpr (x > 1 && y > 1) matrix<x, y>(r); }); });
#endif
		if (c == 0) R.sample("every conversion, tuple access and size query of all storage kinds, wrappers and matrix shapes, with arbitrary bit patterns as lanes");
	}
	return R.finish();
}
