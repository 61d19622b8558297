// P17: a matrix holds exactly what it was built from, and every way of looking at or writing its elements agrees.
//   ELEM element type of the matrices    WHAT 0: components, 1: matrices, pointers and scalars, 2: access and writes
#include "kinds.hpp"
using namespace mon;
using T = ELEM;
#include "comps.hpp"

template <std::size_t C, std::size_t W>
struct guarded
{
	T pre[4];
	dsga::basic_matrix<T, C, W> m;
	T post[4];
	guarded()
	{
		for (std::size_t i = 0; i < 4; ++i) { pre[i] = guard_value<T>(i); post[i] = guard_value<T>(i + 4); }
	}
	explicit guarded(const std::array<T, C * W> &a) : guarded() { std::memcpy(&m, a.data(), sizeof(a)); }
	std::array<T, C * W> read() const { std::array<T, C * W> a; std::memcpy(a.data(), &m, sizeof(a)); return a; }
	bool guards() const
	{
		for (std::size_t i = 0; i < 4; ++i)
			if (!same(pre[i], guard_value<T>(i)) || !same(post[i], guard_value<T>(i + 4)))
				return false;
		return true;
	}
};

template <std::size_t N>
__attribute__((noinline)) void compare(const std::array<T, N> &got, const std::array<T, N> &want, const std::string &what, bool intact = true)
{
	R.saw(mix(hash_arr(want), hash_str(what.c_str())), varied(want));
	for (std::size_t i = 0; i < N; ++i)
		if (!same(got[i], want[i]))
		{
			R.fail(R.sec + ":" + what, "element " + std::to_string(i) + " of " + what + ": got " + show(got) + " want " + show(want));
			break;
		}
	if (!intact)
		R.fail(R.sec + ":" + what + ":outside", what + " changed something outside the matrix");
}

template <std::size_t C, std::size_t W>
std::array<T, C * W> elements(const dsga::basic_matrix<T, C, W> &m)
{
	static_assert(sizeof(m) == sizeof(T) * C * W);
	std::array<T, C * W> a;
	std::memcpy(a.data(), &m, sizeof(a));
	return a;
}

std::string shape(std::size_t c, std::size_t w) { return std::to_string(c) + "x" + std::to_string(w); }

// --------------------------------------------------------------------------------------------------------------------
// components

template <std::size_t C, std::size_t W, typename ...X>
__attribute__((noinline)) void build(rng &r, list<X...>)
{
	using Target = dsga::basic_matrix<T, C, W>;
	const std::string what = ((X::name() + ",") + ...);
	if constexpr (!accepts<Target, std::remove_reference_t<decltype(std::declval<X &>().obj())>...>)
		R.fail(R.sec + ":" + what + ":rejected", "not accepted: a matrix from " + what);
	else
	{
		std::tuple<X...> cs;
		std::vector<T> flat;
		std::apply([&](auto &...c) { (c.fill(r), ...); (c.each([&](auto v) { flat.push_back(static_cast<T>(v)); }), ...); }, cs);
		std::array<T, C * W> want{};
		std::copy_n(flat.begin(), C * W, want.begin());
		std::apply([&](auto &...c) {
			Target t(c.obj()...);
			compare(elements(t), want, what, (c.intact() && ...));
		}, cs);
		if (R.cur_case == 0 && C * W == 4)
			R.sample("matrix " + shape(C, W) + " from " + what + " is " + show(want));
	}
	R.saw(hash_str(what.c_str()));
	if constexpr (accepts<Target, std::remove_reference_t<decltype(std::declval<X &>().obj())>..., T>)
		R.fail(R.sec + ":" + what + "scalar:accepted", "accepted although the last component is unused: " + what);
	if constexpr (accepts<Target, std::remove_reference_t<decltype(std::declval<X &>().obj())>..., dsga::basic_vector<T, 2>>)
		R.fail(R.sec + ":" + what + "vec2:accepted", "accepted although the last component is unused: " + what);
}

template <std::size_t C, std::size_t W, typename ...X>
void too_few(list<X...>)
{
	using Target = dsga::basic_matrix<T, C, W>;
	const std::string what = ((X::name() + ",") + ...);
	R.saw(hash_str(what.c_str()));
	// a square matrix may be built from one scalar, and thereby from anything which is one
	if constexpr (sizeof...(X) > 1)
		if constexpr (accepts<Target, std::remove_reference_t<decltype(std::declval<X &>().obj())>...>)
			R.fail(R.sec + ":" + what + ":accepted", "accepted although there are too few components: " + what);
}

// pseudo-random component lists
template <std::size_t C, std::size_t W, std::size_t Have, u64 Seed, typename ...X>
void grow(rng &r, list<X...>)
{
	if constexpr (Have >= C * W)
		build<C, W>(r, list<X...>{});
	else
	{
		if constexpr (sizeof...(X) > 1)
			too_few<C, W>(list<X...>{});
		constexpr u64 h = choose(Seed, Have * 64 + sizeof...(X) + 1);
		constexpr int S = 1 + static_cast<int>((h >> 40) % 4);
		grow<C, W, Have + S, choose(Seed, S)>(r, list<X..., comp<S, h>>{});
	}
}

// columns of one kind and type, scalars only
template <std::size_t C, std::size_t W>
void regular(rng &r)
{
	[&]<std::size_t ...I>(std::index_sequence<I...>) {
		build<C, W>(r, list<std::tuple_element_t<0, std::tuple<scalar_comp<T>, std::integral_constant<std::size_t, I>>>...>{});
	}(std::make_index_sequence<C * W>{});
	[&]<std::size_t ...I>(std::index_sequence<I...>) {
		for_kinds<Vec, CVec, Swz, View, CView, VSwz, CVSwz, VV, SwzA, SwzD, VSwzA, VSwzD>([&](auto k) {
			constexpr kind K = k;
			if constexpr (SEEDS > 1 || (K + C + W) % 4 == 0 || K == Vec)
				build<C, W>(r, list<std::tuple_element_t<0, std::tuple<vector_comp<K, T, W>, std::integral_constant<std::size_t, I>>>...>{});
		});
	}(std::make_index_sequence<C>{});
}

template <std::size_t C, std::size_t W>
void components(rng &r)
{
	R.section("components/" + shape(C, W) + "/" + tname<T>);
	regular<C, W>(r);
	[&]<std::size_t ...S>(std::index_sequence<S...>) {
		(grow<C, W, 0, 1 + S * 37 + sizeof(T) + C * 5 + W>(r, list<>{}), ...);
	}(std::make_index_sequence<SEEDS * 4>{});
}

// --------------------------------------------------------------------------------------------------------------------
// matrices, pointers and scalars

template <typename U, std::size_t C, std::size_t W, std::size_t C2, std::size_t W2>
__attribute__((noinline)) void resize(rng &r)
{
	using Target = dsga::basic_matrix<T, C, W>;
	using Source = dsga::basic_matrix<U, C2, W2>;
	const std::string what = "from " + shape(C2, W2) + "<" + tname<U> + ">";
	auto a = arr<U, C2 * W2>([&] { return convertible_value<U>(r); });
	struct { U pre; Source m; U post; } s{ U(3), {}, U(4) };
	std::memcpy(&s.m, a.data(), sizeof(a));
	std::array<T, C * W> want{};
	for (std::size_t c = 0; c < C; ++c)
		for (std::size_t w = 0; w < W; ++w)
			want[c * W + w] = c < C2 && w < W2 ? static_cast<T>(a[c * W2 + w]) : C == W && c == w ? T(1) : T(0);
	Target t(s.m);
	const bool intact = std::memcmp(&s.m, a.data(), sizeof(a)) == 0;
	compare(elements(t), want, what, intact);
	// implicit exactly for the same shape when no precision is lost
	constexpr bool widens = C == C2 && W == W2 && std::is_same_v<std::common_type_t<T, U>, T>;
	if constexpr (std::is_convertible_v<Source, Target> != widens)
		R.fail(R.sec + ":" + what + ":implicit", widens ? "no implicit conversion " + what : "an implicit conversion " + what);
	else if constexpr (widens)
	{
		Target i = std::as_const(s.m);
		compare(elements(i), want, what + " implicitly");
		guarded<C, W> g(arr<T, C * W>([&] { return T(9); }));
		auto &back = (g.m = s.m);
		compare(g.read(), want, what + " assigned", g.guards() && &back == &g.m);
	}
	if constexpr (std::is_assignable_v<Target &, const Source &> != widens)
		R.fail(R.sec + ":" + what + ":assignable", widens ? "no assignment " + what : "an assignment " + what);
}

template <typename U, std::size_t C, std::size_t W>
__attribute__((noinline)) void from_pointer(rng &r)
{
	const std::string what = std::string("from ") + tname<U> + "*";
	for (std::size_t extra : { 0, 3 })
	{
		std::vector<U> v(C * W + extra);		// an access beyond it meets a red zone
		v.shrink_to_fit();
		for (auto &x : v) x = convertible_value<U>(r);
		const std::vector<U> before = v;
		std::array<T, C * W> want{};
		for (std::size_t i = 0; i < C * W; ++i) want[i] = static_cast<T>(v[i]);
		const U *p = v.data();
		dsga::basic_matrix<T, C, W> m(p), i = p, n(v.data());
		const bool intact = std::memcmp(before.data(), v.data(), v.size() * sizeof(U)) == 0;
		compare(elements(m), want, what, intact);
		compare(elements(i), want, what + " implicitly");
		compare(elements(n), want, what + " not const");
	}
	bool thrown = false;
	try { dsga::basic_matrix<T, C, W> m(static_cast<const U *>(nullptr)); } catch (const std::invalid_argument &) { thrown = true; }
	R.saw(hash_str(what.c_str()));
	if (!thrown)
		R.fail(R.sec + ":" + what + ":null", "a null pointer is accepted " + what);
}

template <typename U, std::size_t C>
__attribute__((noinline)) void diagonal(rng &r)
{
	U v = convertible_value<U>(r);
	std::array<T, C * C> want{};
	for (std::size_t i = 0; i < C; ++i) want[i * C + i] = static_cast<T>(v);
	dsga::basic_matrix<T, C, C> m(v);
	compare(elements(m), want, std::string("from ") + tname<U>);
	if constexpr (std::is_convertible_v<U, dsga::basic_matrix<T, C, C>>)
		R.fail(R.sec + ":from " + tname<U> + ":implicit", "a scalar converts to a matrix implicitly");
}

template <std::size_t C, std::size_t W>
void matrices(rng &r)
{
	R.section("resize/" + shape(C, W) + "/" + tname<T>);
	[&]<std::size_t ...I>(std::index_sequence<I...>) {
		(resize<float, C, W, 2 + I / 3, 2 + I % 3>(r), ...);
		(resize<double, C, W, 2 + I / 3, 2 + I % 3>(r), ...);
	}(std::make_index_sequence<9>{});
	R.section("pointer/" + shape(C, W) + "/" + tname<T>);
	from_pointer<float, C, W>(r);
	from_pointer<double, C, W>(r);
	if constexpr (C == W)
	{
		R.section("diagonal/" + shape(C, W) + "/" + tname<T>);
		for_types<float, int, double, bool, unsigned, long long, unsigned long long, unsigned long>([&](auto u) { diagonal<typename decltype(u)::type, C>(r); });
	}
	R.section("copies/" + shape(C, W) + "/" + tname<T>);
	{
		auto a = arr<T, C * W>([&] { return gen<T>(r); }), b = arr<T, C * W>([&] { return gen<T>(r); });
		guarded<C, W> x(a), y(b);
		auto copy(x.m);
		auto moved(std::move(copy));
		guarded<C, W> assigned, massigned;
		assigned.m = x.m;
		massigned.m = std::move(moved);
		compare(assigned.read(), a, "copy assigned", assigned.guards());
		compare(massigned.read(), a, "move assigned", massigned.guards());
		x.m.swap(y.m);
		compare(x.read(), b, "swap left", x.guards());
		compare(y.read(), a, "swap right", y.guards());
		compare(assigned.read(), a, "copy after swap", assigned.guards());
		using std::swap;
		swap(x.m, y.m);
		compare(x.read(), a, "free swap left", x.guards());
		compare(y.read(), b, "free swap right", y.guards());
		dsga::swap(x.m, x.m);
		compare(x.read(), a, "swap with itself", x.guards());
		auto &self = x.m;
		x.m = self;
		compare(x.read(), a, "self assigned", x.guards());
		dsga::basic_matrix<T, C, W> z{};
		compare(elements(z), std::array<T, C * W>{}, "value initialised");
	}
}

// --------------------------------------------------------------------------------------------------------------------
// access

template <std::size_t C, std::size_t W, typename I>
void indexed(const guarded<C, W> &g, guarded<C, W> &w, const std::array<T, C * W> &a)
{
	const std::string what = std::string("[") + tname<I> + "]";
	std::array<T, C * W> got{}, got2{}, rows{};
	for (std::size_t c = 0; c < C; ++c)
		for (std::size_t k = 0; k < W; ++k)
		{
			got[c * W + k] = g.m[static_cast<I>(c)][static_cast<I>(k)];
			got2[c * W + k] = w.m[static_cast<I>(c)][static_cast<I>(k)];
			rows[c * W + k] = g.m.row(static_cast<I>(k))[static_cast<I>(c)];
		}
	compare(got, a, what);
	compare(got2, a, what + " not const");
	compare(rows, a, "row" + what);
}

template <std::size_t C, std::size_t W>
__attribute__((noinline)) void reads(rng &r)
{
	using M = dsga::basic_matrix<T, C, W>;
	auto a = arr<T, C * W>([&] { return gen<T>(r); });
	guarded<C, W> w(a);
	const guarded<C, W> &g = w;
	indexed<C, W, int>(g, w, a);
	indexed<C, W, unsigned>(g, w, a);
	indexed<C, W, unsigned long>(g, w, a);
	indexed<C, W, long long>(g, w, a);
	R.check(g.m.length() == C && g.m.column_length() == W && g.m.size() == C && g.m.column_size() == W && M::size == C && M::column_size == W && M::ComponentCount == C * W
		&& std::tuple_size_v<M> == C && std::is_same_v<std::tuple_element_t<0, M>, dsga::basic_vector<T, W>> && std::is_same_v<std::tuple_element_t<C - 1, M>, dsga::basic_vector<T, W>>
		&& std::size(g.m) == C, "sizes", "a size query of a matrix is wrong");
	std::array<T, C * W> got{};
	auto put = [&](std::size_t c, const auto &v) { for (std::size_t k = 0; k < W; ++k) got[c * W + k] = v[k]; };
	auto done = [&](const char *what) { compare(got, a, what, w.guards()); got.fill(T(-77)); };
	std::size_t c = 0;
	for (const auto &v : g.m) put(c++, v); R.check(c == C, "begin-count", "iteration visits another number of columns"); done("for");
	c = 0; for (auto &v : w.m) put(c++, v); R.check(c == C, "begin-count", "iteration visits another number of columns"); done("for, not const");
	c = 0; for (auto i = w.m.cbegin(); i != w.m.cend(); ++i) put(c++, *i); R.check(c == C, "cbegin-count", "iteration visits another number of columns"); done("cbegin");
	c = 0; for (auto i = g.m.cbegin(); i != g.m.cend(); ++i) put(c++, *i); R.check(c == C, "cbegin-count", "iteration visits another number of columns"); done("cbegin const");
	c = C; for (auto i = w.m.rbegin(); i != w.m.rend(); ++i) put(--c, *i); R.check(c == 0, "rbegin-count", "iteration visits another number of columns"); done("rbegin");
	c = C; for (auto i = g.m.rbegin(); i != g.m.rend(); ++i) put(--c, *i); R.check(c == 0, "rbegin-count", "iteration visits another number of columns"); done("rbegin const");
	c = C; for (auto i = w.m.crbegin(); i != w.m.crend(); ++i) put(--c, *i); R.check(c == 0, "crbegin-count", "iteration visits another number of columns"); done("crbegin");
	c = C; for (auto i = g.m.crbegin(); i != g.m.crend(); ++i) put(--c, *i); R.check(c == 0, "crbegin-count", "iteration visits another number of columns"); done("crbegin const");
	for (c = 0; c < C; ++c) put(c, g.m.data()[c]); done("data const");
	for (c = 0; c < C; ++c) put(c, w.m.data()[c]); done("data");
	for (std::size_t i = 0; i < C * W; ++i) got[i] = reinterpret_cast<const T *>(g.m.data())[i]; done("raw data");
	for (c = 0; c < C; ++c) put(c, g.m.columns[c]); done("columns");
	[&]<std::size_t ...I>(std::index_sequence<I...>) {
		(put(I, dsga::get<I>(w.m)), ...); done("get");
		(put(I, dsga::get<I>(g.m)), ...); done("get const");
		(put(I, dsga::get<I>(M(g.m))), ...); done("get of temporary");
		R.check((std::is_same_v<decltype(dsga::get<I>(w.m)), dsga::basic_vector<T, W> &> && ...) && (std::is_same_v<decltype(dsga::get<I>(g.m)), const dsga::basic_vector<T, W> &> && ...)
			&& ((&dsga::get<I>(w.m) == &w.m[I]) && ...), "get-type", "get<> of a matrix does not give its columns");
	}(std::make_index_sequence<C>{});
	if constexpr (C == 2) { auto &[p, q] = w.m; put(0, p); put(1, q); done("bindings"); p[0] = T(5); R.check(w.read()[0] == 5, "binding-writes", "a binding is not the column"); }
	else if constexpr (C == 3) { auto &[p, q, s] = w.m; put(0, p); put(1, q); put(2, s); done("bindings"); q[1] = T(5); R.check(w.read()[W + 1] == 5, "binding-writes", "a binding is not the column"); }
	else { auto &[p, q, s, t] = w.m; put(0, p); put(1, q); put(2, s); put(3, t); done("bindings"); t[1] = T(5); R.check(w.read()[3 * W + 1] == 5, "binding-writes", "a binding is not the column"); }
	// rows are copies
	auto row = g.m.row(W - 1);
	R.check(std::is_same_v<decltype(row), dsga::basic_vector<T, C>>, "row-type", "a row has another type");
}

template <std::size_t C, std::size_t W>
__attribute__((noinline)) void writes(rng &r)
{
	using M = dsga::basic_matrix<T, C, W>;
	auto a = arr<T, C * W>([&] { return gen<T>(r); });
	guarded<C, W> g(a);
	auto want = a;
	auto col = [&] { return arr<T, W>([&] { return gen<T>(r); }); };
	auto set = [&](std::size_t c, const std::array<T, W> &v) { std::copy_n(v.begin(), W, want.begin() + c * W); };
	for (int step = 0; step < 24; ++step)
	{
		const std::size_t c = r.below(C), k = r.below(W);
		T v = gen<T>(r);
		auto cv = col();
		dsga::basic_vector<T, W> vec;
		std::memcpy(&vec, cv.data(), sizeof(cv));
		std::string what;
		switch (r.below(16))
		{
			case 0: what = "[][]"; g.m[c][k] = v; want[c * W + k] = v; break;
			case 1: what = "[] = vector"; g.m[c] = vec; set(c, cv); break;
			case 2: what = "data()"; g.m.data()[c][k] = v; want[c * W + k] = v; break;
			case 3: what = "begin()"; g.m.begin()[c] = vec; set(c, cv); break;
			case 4: what = "rbegin()"; g.m.rbegin()[C - 1 - c] = vec; set(c, cv); break;
			case 5: what = "for"; { std::size_t i = 0; for (auto &x : g.m) if (i++ == c) x[k] = v; } want[c * W + k] = v; break;
			case 6: what = "get"; if (c == 0) { dsga::get<0>(g.m) = vec; set(0, cv); } else { dsga::get<C - 1>(g.m)[k] = v; want[(C - 1) * W + k] = v; } break;
			case 7: what = "swizzle"; g.m[c].yx = dsga::basic_vector<T, 2>(cv[0], cv[1]); want[c * W + 1] = cv[0]; want[c * W] = cv[1]; break;
			case 8: what = "swizzle of one"; g.m[c].y = v; want[c * W + 1] = v; break;
			case 9: what = "set"; [&]<std::size_t ...I>(std::index_sequence<I...>) { g.m[c].set(cv[I]...); }(std::make_index_sequence<W>{}); set(c, cv); break;
			case 10: what = "swapped columns"; { std::size_t d = r.below(C); g.m[c].swap(g.m[d]); for (std::size_t i = 0; i < W; ++i) std::swap(want[c * W + i], want[d * W + i]); } break;
			case 11: what = "columns"; g.m.columns[c][k] = v; want[c * W + k] = v; break;
			case 12: what = "view"; { dsga::basic_view<true, T, W> view(g.m[c].data()); view[k] = v; } want[c * W + k] = v; break;
			case 13: what = "std::reverse"; std::reverse(g.m.begin(), g.m.end()); for (std::size_t i = 0; i < C / 2; ++i) for (std::size_t j = 0; j < W; ++j) std::swap(want[i * W + j], want[(C - 1 - i) * W + j]); break;
			case 14: what = "std::rotate"; { std::rotate(g.m.begin(), g.m.begin() + c, g.m.end()); auto w2 = want; for (std::size_t i = 0; i < C * W; ++i) want[i] = w2[(i + c * W) % (C * W)]; } break;
			case 15: what = "assigned from its rows"; { M m(g.m); auto row = m.row(k); row[0] = v; if (!same(m[0][k], want[k])) R.fail(R.sec + ":row-copy", "writing a row copy changes the matrix"); } break;
		}
		compare(g.read(), want, what, g.guards());
	}
}

int main(int argc, char **argv)
{
	R.start(argc, argv);
	rng r(R.seed);
	for (u64 c = 0; c < R.cases; ++c)
	{
		R.cur_case = c;
		[&]<std::size_t ...I>(std::index_sequence<I...>) {
			([&] {
				constexpr std::size_t C = 2 + I / 3, W = 2 + I % 3;
#if WHAT == 0
				components<C, W>(r);
#elif WHAT == 1
				matrices<C, W>(r);
#else
				R.section("reads/" + shape(C, W) + "/" + tname<T>);
				reads<C, W>(r);
				R.section("writes/" + shape(C, W) + "/" + tname<T>);
				writes<C, W>(r);
#endif
			}(), ...);
		}(std::make_index_sequence<9>{});
	}
	return R.finish();
}
