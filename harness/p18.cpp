// Matrix arithmetic.  GROUP 18: products, transposition, outer products and the matrix helpers.  19: element-wise operations.
// 20: determinant and inverse.
//   ELEM, ELEM2 element types of the matrices
#include "kinds.hpp"
using namespace mon;
using A = ELEM;
using B = ELEM2;
using CT = std::common_type_t<A, B>;
using L = long double;
constexpr L EPS = std::numeric_limits<CT>::epsilon();
constexpr kind KS[] = { Vec, CVec, Swz, View, CView, VSwz, CVSwz, VV, SwzA, SwzD, VSwzA, VSwzD };

std::string shape(std::size_t c, std::size_t w) { return std::to_string(c) + "x" + std::to_string(w); }

template <typename X, std::size_t C, std::size_t W>
dsga::basic_matrix<X, C, W> make(const std::array<X, C * W> &a)
{
	dsga::basic_matrix<X, C, W> m;
	static_assert(sizeof(m) == sizeof(a));
	std::memcpy(&m, a.data(), sizeof(a));
	return m;
}
template <typename X, std::size_t C, std::size_t W>
std::array<X, C * W> elements(const dsga::basic_matrix<X, C, W> &m)
{
	std::array<X, C * W> a;
	std::memcpy(a.data(), &m, sizeof(a));
	return a;
}

// form 0: small integers, 1: eighths, both exact; 2: like magnitudes, 3: wildly different magnitudes; 4: few elements other than zero
template <typename X, std::size_t N>
std::array<X, N> input(rng &r, int form)
{
	std::array<X, N> a{};
	// products of two are normal numbers
	const int wide = r.below(3) ? 20 : sizeof(X) == 4 ? 35 : 300, scale = static_cast<int>(r.range(-wide, wide));
	for (X &v : a)
	{
		if constexpr (!std::is_floating_point_v<X>)
			v = (form == 2 || form == 3) ? static_cast<X>(r.next()) : static_cast<X>(std::is_signed_v<X> ? r.range(-60, 60) : r.range(0, 60));
		else if (form == 0) v = static_cast<X>(r.range(-60, 60));
		else if (form == 1) v = static_cast<X>(r.range(-200, 200)) / X(8);
		else if (form == 4) v = r.below(4) ? X(0) : static_cast<X>(r.range(-60, 60));
		else v = std::ldexp(static_cast<X>(r.unit() * 2 - 1), form == 2 ? scale : static_cast<int>(r.range(-20, 20)));
	}
	return a;
}
bool exact(int form) { return form < 2 || form == 4; }

template <typename S, std::size_t N>
__attribute__((noinline)) void judge_lanes(const std::array<S, N> &got, const std::array<L, N> &want, const std::array<L, N> &tol, const std::string &what, u64 h, const std::string &in)
{
	R.saw(mix(h, hash_str(what.c_str())), true);
	for (std::size_t i = 0; i < N; ++i)
		if (!(std::fabs(static_cast<L>(got[i]) - want[i]) <= tol[i]))
		{
			R.fail(R.sec + ":" + what, "element " + std::to_string(i) + " of " + what + ": got " + show(got) + " want " + show(static_cast<double>(want[i])) + " within " + show(static_cast<double>(tol[i])) + " for " + in);
			break;
		}
}

template <typename E, std::size_t C, std::size_t W, typename M>
void judge_matrix(const M &m, const std::array<L, C * W> &want, const std::array<L, C * W> &tol, const std::string &what, u64 h, const std::string &in)
{
	if constexpr (!std::is_same_v<M, dsga::basic_matrix<E, C, W>>)
		R.fail(R.sec + ":" + what + ":result-type", what + " is not a " + shape(C, W) + " matrix of " + tname<E>);
	else
		judge_lanes(elements(m), want, tol, what, h, in);
}

template <typename E, std::size_t N, typename V>
void judge_vector(const V &v, const std::array<L, N> &want, const std::array<L, N> &tol, const std::string &what, u64 h, const std::string &in)
{
	if constexpr (!has_result_type<V, E, N>)
		R.fail(R.sec + ":" + what + ":result-type", what + " is not " + std::to_string(N) + " lanes of " + tname<E>);
	else
		judge_lanes(result_lanes<E, N>(v), want, tol, what, h, in);
}

template <typename X, std::size_t N>
std::array<L, N> wide(const std::array<X, N> &a) { std::array<L, N> b; for (std::size_t i = 0; i < N; ++i) b[i] = static_cast<L>(a[i]); return b; }

#if GROUP == 18
template <std::size_t C1, std::size_t W1, std::size_t C2>
__attribute__((noinline)) void times(rng &r)
{
	const int form = static_cast<int>(r.below(5));
	auto a = input<A, C1 * W1>(r, form);
	auto b = input<B, C2 * C1>(r, form);
	R.section("mat*mat/" + shape(C1, W1) + "/" + shape(C2, C1) + "/" + tname<A> + "/" + tname<B>);
	std::array<L, C2 * W1> want{}, tol{};
	for (std::size_t c = 0; c < C2; ++c)
		for (std::size_t w = 0; w < W1; ++w)
			for (std::size_t k = 0; k < C1; ++k)
			{
				L p = static_cast<L>(a[k * W1 + w]) * static_cast<L>(b[c * C1 + k]);
				want[c * W1 + w] += p;
				tol[c * W1 + w] += exact(form) ? 0 : std::fabs(p) * EPS * C1;
			}
	auto ma = make<A, C1, W1>(a);
	auto mb = make<B, C2, C1>(b);
	const std::string in = show(a) + " times " + show(b);
	if (R.cur_case == 0 && C1 == 2 && W1 == 2 && C2 == 2)
		R.sample(in);
	judge_matrix<CT, C2, W1>(std::as_const(ma) * std::as_const(mb), want, tol, "product", mix(hash_arr(a), hash_arr(b)), in);
	R.check(hash_arr(elements(ma)) == hash_arr(a) && hash_arr(elements(mb)) == hash_arr(b), "operands", "a product changed an operand");
	if (exact(form))
	{
		// the transposed product is the product of the transposed, backwards
		auto t = dsga::transpose(mb) * dsga::transpose(ma);
		std::array<L, C2 * W1> tw;
		for (std::size_t c = 0; c < C2; ++c)
			for (std::size_t w = 0; w < W1; ++w)
				tw[w * C2 + c] = want[c * W1 + w];
		judge_matrix<CT, W1, C2>(t, tw, std::array<L, C2 * W1>{}, "transposed product", mix(hash_arr(a), hash_arr(b)), in);
	}
	if constexpr (std::is_same_v<A, B> && C1 == W1 && C2 == C1)
	{
		// in place, from both sides, and squared
		auto x = ma; x = x * mb;
		judge_matrix<CT, C2, W1>(x, want, tol, "a = a * b", mix(hash_arr(a), hash_arr(b)), in);
		auto y = mb; y = ma * y;
		judge_matrix<CT, C2, W1>(y, want, tol, "b = a * b", mix(hash_arr(a), hash_arr(b)), in);
	}
}

template <typename V, std::size_t C, std::size_t W, bool ALL>
__attribute__((noinline)) void with_vectors(rng &r)
{
	const int form = static_cast<int>(r.below(5));
	auto a = input<A, C * W>(r, form);
	auto ma = make<A, C, W>(a);
	using E = std::common_type_t<A, V>;
	const L e = std::numeric_limits<E>::epsilon();
	{
		R.section("mat*vec/" + shape(C, W) + "/" + tname<A> + "/" + tname<V>);
		auto v = input<V, C>(r, form);
		std::array<L, W> want{}, tol{};
		for (std::size_t w = 0; w < W; ++w)
			for (std::size_t k = 0; k < C; ++k)
			{
				L p = static_cast<L>(a[k * W + w]) * static_cast<L>(v[k]);
				want[w] += p;
				tol[w] += exact(form) ? 0 : std::fabs(p) * e * C;
			}
		const std::string in = show(a) + " times " + show(v);
		[&]<std::size_t ...I>(std::index_sequence<I...>) {
			([&] {
				constexpr kind K = KS[ALL ? I : (I * 5 + C + 2 * W) % 12];
				holder<K, V, C> h(v);
				judge_vector<E, W>(std::as_const(ma) * h.obj(), want, tol, kname(K), mix(hash_arr(a), hash_arr(v)), in);
				R.check(h.guards() && hash_arr(h.read()) == hash_arr(v), "operands", "a product changed its vector operand");
			}(), ...);
		}(std::make_index_sequence<ALL ? 12 : 2>{});
		if constexpr (std::is_same_v<V, A> && C == W)
		{
			dsga::basic_vector<A, C> x;
			std::memcpy(&x, v.data(), sizeof(x));
			x = ma * x;
			judge_vector<E, W>(x, want, tol, "v = m * v", mix(hash_arr(a), hash_arr(v)), in);
		}
		if constexpr (std::is_same_v<V, A>)
		{
			// the vector is a column of the matrix
			std::array<L, W> cw{}, ct{};
			if constexpr (C == W)
			{
				for (std::size_t w = 0; w < W; ++w)
					for (std::size_t k = 0; k < C; ++k)
					{
						L p = static_cast<L>(a[k * W + w]) * static_cast<L>(a[W + k]);
						cw[w] += p; ct[w] += exact(form) ? 0 : std::fabs(p) * e * C;
					}
				auto m = ma;
				m[1] = m * m[1];
				judge_vector<E, W>(m[1], cw, ct, "column = m * column", mix(hash_arr(a), 3), in);
			}
		}
	}
	if constexpr (std::is_floating_point_v<V>)
	{
		R.section("vec*mat/" + shape(C, W) + "/" + tname<A> + "/" + tname<V>);
		auto v = input<V, W>(r, form);
		std::array<L, C> want{}, tol{};
		for (std::size_t c = 0; c < C; ++c)
			for (std::size_t k = 0; k < W; ++k)
			{
				L p = static_cast<L>(a[c * W + k]) * static_cast<L>(v[k]);
				want[c] += p;
				tol[c] += exact(form) ? 0 : std::fabs(p) * e * W;
			}
		const std::string in = show(v) + " times " + show(a);
		[&]<std::size_t ...I>(std::index_sequence<I...>) {
			([&] {
				constexpr kind K = KS[ALL ? I : (I * 5 + 1 + C + 2 * W) % 12];
				holder<K, V, W> h(v);
				judge_vector<E, C>(h.obj() * std::as_const(ma), want, tol, kname(K), mix(hash_arr(a), hash_arr(v)), in);
				R.check(h.guards() && hash_arr(h.read()) == hash_arr(v), "operands", "a product changed its vector operand");
			}(), ...);
		}(std::make_index_sequence<ALL ? 12 : 2>{});
		if constexpr (std::is_same_v<V, A> && C == W)
		{
			dsga::basic_vector<A, C> x;
			std::memcpy(&x, v.data(), sizeof(x));
			x = x * ma;
			judge_vector<E, C>(x, want, tol, "v = v * m", mix(hash_arr(a), hash_arr(v)), in);
		}
	}
}

template <typename U, typename V, std::size_t N, std::size_t M>
__attribute__((noinline)) void outer(rng &r)
{
	if constexpr (std::is_floating_point_v<U> || std::is_floating_point_v<V>)
	{
		using E = std::common_type_t<U, V>;
		const int form = static_cast<int>(r.below(5));
		auto a = input<U, N>(r, form);
		auto b = input<V, M>(r, form);
		R.section("outerProduct/" + shape(M, N) + "/" + tname<U> + "/" + tname<V>);
		std::array<L, N * M> want{}, tol{};
		for (std::size_t c = 0; c < M; ++c)
			for (std::size_t w = 0; w < N; ++w)
				want[c * N + w] = static_cast<L>(static_cast<E>(static_cast<E>(a[w]) * static_cast<E>(b[c])));
		[&]<std::size_t ...I>(std::index_sequence<I...>) {
			([&] {
				constexpr kind K1 = KS[(I * 7 + N + 2 * M) % 12], K2 = KS[(I * 5 + 3 + N + M) % 12];
				holder<K1, U, N> x(a); holder<K2, V, M> y(b);
				judge_matrix<E, M, N>(dsga::outerProduct(x.obj(), y.obj()), want, tol, std::string(kname(K1)) + "," + kname(K2), mix(hash_arr(a), hash_arr(b)), show(a) + " and " + show(b));
				R.check(x.guards() && y.guards() && hash_arr(x.read()) == hash_arr(a) && hash_arr(y.read()) == hash_arr(b), "operands", "outerProduct changed an operand");
			}(), ...);
		}(std::make_index_sequence<2>{});
	}
}

template <std::size_t C, std::size_t W>
void shapes(rng &r)
{
	times<C, W, 2>(r); times<C, W, 3>(r); times<C, W, 4>(r);
	with_vectors<B, C, W, true>(r);
	if constexpr (std::is_same_v<A, B>)
	{
		with_vectors<int, C, W, false>(r);
		with_vectors<unsigned long long, C, W, false>(r);
		outer<A, int, C, W>(r); outer<unsigned, A, C, W>(r); outer<A, long long, C, W>(r); outer<unsigned long long, A, C, W>(r);
		// transposition, of anything
		auto a = arr<A, C * W>([&] { return gen<A>(r); });
		auto m = make<A, C, W>(a);
		R.section("transpose/" + shape(C, W) + "/" + tname<A>);
		auto t = dsga::transpose(std::as_const(m));
		R.saw(hash_arr(a), varied(a));
		if constexpr (!std::is_same_v<decltype(t), dsga::basic_matrix<A, W, C>>)
			R.fail(R.sec + ":result-type", "a transposed matrix has another shape or type");
		else
		{
			auto g = elements(t);
			for (std::size_t c = 0; c < C; ++c)
				for (std::size_t w = 0; w < W; ++w)
					R.check(same(g[w * C + c], a[c * W + w]), "elements", "transpose of " + show(a) + " is " + show(g));
			R.check(hash_arr(elements(dsga::transpose(t))) == hash_arr(a), "twice", "transposing twice is not the identity");
			R.check(hash_arr(elements(m)) == hash_arr(a), "operands", "transpose changed its operand");
		}
	}
	outer<A, B, C, W>(r);
}

template <std::size_t N>
void helpers(rng &r)
{
	if constexpr (std::is_same_v<A, B>)
	{
		auto v = arr<A, N>([&] { return gen<A>(r); });
		for_kinds<Vec, CVec, Swz, View, CView, VSwz, CVSwz, VV, SwzA, SwzD, VSwzA, VSwzD>([&](auto k) {
			constexpr kind K = k;
			holder<K, A, N> h(v);
			R.section("diagonal_matrix/" + std::to_string(N) + "/" + tname<A>);
			auto d = dsga::diagonal_matrix(h.obj());
			if constexpr (!std::is_same_v<decltype(d), dsga::basic_matrix<A, N, N>>)
				R.fail(R.sec + ":result-type", "a diagonal matrix has another shape or type");
			else
			{
				auto g = elements(d);
				R.saw(mix(hash_arr(v), K), varied(v));
				for (std::size_t i = 0; i < N * N; ++i)
					R.check(same(g[i], i % (N + 1) == 0 ? v[i / (N + 1)] : A(0)), kname(K), "diagonal_matrix of " + show(v) + " is " + show(g));
			}
			if constexpr (N == 3)
			{
				R.section(std::string("cross_matrix/") + tname<A>);
				auto c = dsga::cross_matrix(h.obj());
				if constexpr (!std::is_same_v<decltype(c), dsga::basic_matrix<A, 3, 3>>)
					R.fail(R.sec + ":result-type", "a cross matrix has another shape or type");
				else
				{
					auto g = elements(c);
					std::array<A, 9> want{ 0, v[2], -v[1], -v[2], 0, v[0], v[1], -v[0], 0 };
					R.saw(mix(hash_arr(v), K), varied(v));
					for (std::size_t i = 0; i < 9; ++i)
						R.check(same_val(g[i], want[i]), kname(K), "cross_matrix of " + show(v) + " is " + show(g));
				}
				auto u = input<A, 3>(r, 0), w = input<A, 3>(r, 0);
				dsga::basic_vector<A, 3> uu(u[0], u[1], u[2]), ww(w[0], w[1], w[2]);
				auto x = dsga::cross(uu, ww), y = dsga::cross_matrix(uu) * ww, z = uu * dsga::cross_matrix(ww);
				std::array<L, 3> want{ L(u[1]) * w[2] - L(u[2]) * w[1], L(u[2]) * w[0] - L(u[0]) * w[2], L(u[0]) * w[1] - L(u[1]) * w[0] };
				judge_vector<A, 3>(x, want, {}, "cross", hash_arr(u), show(u) + show(w));
				judge_vector<A, 3>(y, want, {}, "cross_matrix times vector", hash_arr(u), show(u) + show(w));
				judge_vector<A, 3>(z, want, {}, "vector times cross_matrix", hash_arr(u), show(u) + show(w));
			}
		});
	}
}
#endif

#if GROUP == 19
template <typename M, typename E, std::size_t C, std::size_t W, typename X>
__attribute__((noinline)) void bits(const M &m, const std::array<E, C * W> &want, const std::string &what, const X &in)
{
	if constexpr (!std::is_same_v<M, dsga::basic_matrix<E, C, W>>)
		R.fail(R.sec + ":" + what + ":result-type", what + " is not a " + shape(C, W) + " matrix of " + tname<E>);
	else
	{
		auto g = elements(m);
		R.saw(mix(hash_arr(want), hash_arr(in)) + hash_str(what.c_str()), varied(in));
		for (std::size_t i = 0; i < C * W; ++i)
			if (!same(g[i], want[i]))
			{
				R.fail(R.sec + ":" + what, "element " + std::to_string(i) + " of " + what + ": got " + show(g) + " want " + show(want) + " for " + show(in));
				break;
			}
	}
}

template <typename U, std::size_t C, std::size_t W>
__attribute__((noinline)) void with_scalar(rng &r)
{
	using E = std::common_type_t<A, U>;
	constexpr std::size_t N = C * W;
	R.section("scalar/" + shape(C, W) + "/" + tname<A> + "/" + tname<U>);
	auto a = arr<A, N>([&] { return r.coin() ? gen<A>(r) : gen_mod<A>(r); });
	U s = r.coin() ? gen<U>(r) : gen_mod<U>(r);
	const auto m = make<A, C, W>(a);
	std::array<E, N> w;
	auto each = [&](auto f) -> const std::array<E, N> & { for (std::size_t i = 0; i < N; ++i) w[i] = f(static_cast<E>(a[i]), static_cast<E>(s)); return w; };
	const std::string v = " " + show(s);
	auto run = [&](const char *name, const auto &got, const std::array<E, N> &want) { bits<std::remove_cvref_t<decltype(got)>, E, C, W>(got, want, name, a); };
	run("m+s", m + s, each([](E x, E y) { return x + y; }));
	run("s+m", s + m, each([](E x, E y) { return y + x; }));
	run("m-s", m - s, each([](E x, E y) { return x - y; }));
	run("s-m", s - m, each([](E x, E y) { return y - x; }));
	run("m*s", m * s, each([](E x, E y) { return x * y; }));
	run("s*m", s * m, each([](E x, E y) { return y * x; }));
	run("m/s", m / s, each([](E x, E y) { return x / y; }));
	run("s/m", s / m, each([](E x, E y) { return y / x; }));
	R.check(hash_arr(elements(m)) == hash_arr(a), "operands", "an operator changed its operand");
}

template <std::size_t C, std::size_t W>
__attribute__((noinline)) void with_matrix(rng &r)
{
	constexpr std::size_t N = C * W;
	R.section("matrix/" + shape(C, W) + "/" + tname<A> + "/" + tname<B>);
	auto a = arr<A, N>([&] { return r.coin() ? gen<A>(r) : gen_mod<A>(r); });
	auto b = arr<B, N>([&] { return r.coin() ? gen<B>(r) : gen_mod<B>(r); });
	const auto m = make<A, C, W>(a);
	const auto n = make<B, C, W>(b);
	std::array<CT, N> w;
	auto each = [&](auto f) -> const std::array<CT, N> & { for (std::size_t i = 0; i < N; ++i) w[i] = f(static_cast<CT>(a[i]), static_cast<CT>(b[i])); return w; };
	auto run = [&](const char *name, const auto &got, const std::array<CT, N> &want) { bits<std::remove_cvref_t<decltype(got)>, CT, C, W>(got, want, name, a); };
	run("m+n", m + n, each([](CT x, CT y) { return x + y; }));
	run("m-n", m - n, each([](CT x, CT y) { return x - y; }));
	run("m/n", m / n, each([](CT x, CT y) { return x / y; }));
	run("matrixCompMult", dsga::matrixCompMult(m, n), each([](CT x, CT y) { return x * y; }));
	R.check(hash_arr(elements(m)) == hash_arr(a) && hash_arr(elements(n)) == hash_arr(b), "operands", "an operator changed its operand");
	if (R.cur_case == 0 && N == 4)
		R.sample(show(a) + " with " + show(b));

	// equality, where the right side converts to the left
	if constexpr (std::is_same_v<CT, A>)
	{
		R.section("equal/" + shape(C, W) + "/" + tname<A> + "/" + tname<B>);
		auto c = arr<B, N>([&] { return r.coin() ? gen<B>(r) : gen_mod<B>(r); });
		if (r.below(3)) for (B &v : c) if (isnan_(v)) v = B(3);
		std::array<A, N> d;
		for (std::size_t i = 0; i < N; ++i) d[i] = static_cast<A>(c[i]);
		const std::size_t at = r.below(N);
		switch (r.below(5))
		{
			case 0: d[at] = std::nextafter(d[at], A(0)); break;
			case 1: d[at] = -d[at]; break;
			case 2: d[at] = gen<A>(r); break;
			case 3: std::swap(d[at], d[(at + 1) % N]); break;
			default: break;
		}
		bool want = true;
		for (std::size_t i = 0; i < N; ++i)
			want = want && d[i] == static_cast<A>(c[i]);
		const auto x = make<A, C, W>(d);
		const auto y = make<B, C, W>(c);
		R.saw(mix(hash_arr(c), hash_arr(d)), true);
		R.count(want ? "equal matrices" : "different matrices");
		R.check((x == y) == want && (x != y) != want, "==", "== of " + show(d) + " and " + show(c) + " is wrong");
		R.check((x == x) == std::none_of(d.begin(), d.end(), [](A v) { return isnan_(v); }), "==self", "== of " + show(d) + " and itself is wrong");
	}
	if constexpr (std::is_same_v<A, B>)
	{
		R.section("unary/" + shape(C, W) + "/" + tname<A>);
		std::array<A, N> neg, inc, dec;
		for (std::size_t i = 0; i < N; ++i) { neg[i] = -a[i]; inc[i] = a[i] + A(1); dec[i] = a[i] - A(1); }
		auto un = [&](const char *name, const auto &got, const std::array<A, N> &want) { bits<std::remove_cvref_t<decltype(got)>, A, C, W>(got, want, name, a); };
		un("+m", +m, a);
		un("-m", -m, neg);
		struct { A pre; dsga::basic_matrix<A, C, W> m; A post; } g{ A(5), m, A(6) };
		auto load = [&] { g.m = m; };
		auto safe = [&](const void *back) { R.check(g.pre == 5 && g.post == 6 && back == &g.m, "target", "increment changed something else or returns something else"); };
		auto &p = ++g.m; safe(&p); un("++m", g.m, inc);
		load(); auto &q = --g.m; safe(&q); un("--m", g.m, dec);
		load(); un("m++ value", g.m++, a); safe(&g.m); un("m++", g.m, inc);
		load(); un("m-- value", g.m--, a); safe(&g.m); un("m--", g.m, dec);
	}
}

template <std::size_t C, std::size_t W>
void shapes(rng &r)
{
	with_matrix<C, W>(r);
	if constexpr (std::is_same_v<A, B>)
		for_types<float, double, int, unsigned, long long, unsigned long long, unsigned long>([&](auto u) { with_scalar<typename decltype(u)::type, C, W>(r); });
}
#endif

#if GROUP == 20
// the signed sum over permutations, and the sum of the magnitudes
template <std::size_t N>
void det(const std::array<L, N * N> &a, L &value, L &mag)
{
	std::array<int, N> p;
	for (std::size_t i = 0; i < N; ++i) p[i] = static_cast<int>(i);
	value = mag = 0;
	do
	{
		int inversions = 0;
		L term = 1;
		for (std::size_t i = 0; i < N; ++i)
		{
			term *= a[i * N + p[i]];
			for (std::size_t j = 0; j < i; ++j) inversions += p[j] > p[i];
		}
		value += inversions % 2 ? -term : term;
		mag += std::fabs(term);
	} while (std::next_permutation(p.begin(), p.end()));
}

template <std::size_t N>
void adjugate(const std::array<L, N * N> &a, std::array<L, N * N> &value, std::array<L, N * N> &mag)
{
	for (std::size_t c = 0; c < N; ++c)
		for (std::size_t w = 0; w < N; ++w)
		{
			// the inverse's element (column c, row w) comes from the minor without column w and row c
			std::array<L, (N - 1) * (N - 1)> m{};
			std::size_t k = 0;
			for (std::size_t i = 0; i < N; ++i)
				for (std::size_t j = 0; j < N; ++j)
					if (i != w && j != c) m[k++] = a[i * N + j];
			L v, g;
			det<N - 1>(m, v, g);
			value[c * N + w] = (c + w) % 2 ? -v : v;
			mag[c * N + w] = g;
		}
}

// integer matrix whose determinant is 1 or -1: row operations on a permutation
template <std::size_t N>
std::array<A, N * N> unimodular(rng &r)
{
	std::array<A, N * N> a{};
	std::array<std::size_t, N> p;
	for (std::size_t i = 0; i < N; ++i) p[i] = i;
	for (std::size_t i = N; i > 1; --i) std::swap(p[i - 1], p[r.below(i)]);
	for (std::size_t i = 0; i < N; ++i) a[i * N + p[i]] = r.coin() ? A(1) : A(-1);
	for (std::size_t n = r.below(6); n > 0; --n)
	{
		std::size_t i = r.below(N), j = r.below(N);
		if (i == j) continue;
		A f = static_cast<A>(r.range(-2, 2));
		auto b = a;
		for (std::size_t k = 0; k < N; ++k)
			if (r.coin()) b[i * N + k] = a[i * N + k] + f * a[j * N + k]; else b[i * N + k] = a[i * N + k];
		// whole columns or whole rows only
		bool rows = r.coin();
		for (std::size_t k = 0; k < N; ++k)
			if (rows) b[k * N + i] = a[k * N + i] + f * a[k * N + j];
		if (rows) { for (std::size_t k = 0; k < N * N; ++k) if (k % N != i) b[k] = a[k]; }
		else for (std::size_t k = 0; k < N; ++k) b[i * N + k] = a[i * N + k] + f * a[j * N + k];
		if (*std::max_element(b.begin(), b.end()) <= 9 && *std::min_element(b.begin(), b.end()) >= -9)
			a = b;
	}
	return a;
}

template <std::size_t N>
void square(rng &r)
{
	constexpr std::size_t NN = N * N;
	const int form = static_cast<int>(r.below(6));
	std::array<A, NN> a{};
	// sometimes so far from one that single factors, but not the results, are near the ends of the range
	const int far = r.below(3) ? 9 : sizeof(A) == 4 ? 22 : 200;
	int scale = 0;
	switch (form)
	{
		case 0: a = arr<A, NN>([&] { return static_cast<A>(r.range(-8, 8)); }); break;
		case 1: a = unimodular<N>(r); break;
		case 2: for (std::size_t c = 0; c < N; ++c) for (std::size_t w = 0; w < N; ++w) a[c * N + w] = (r.below(2) ? c <= w : c >= w) || c == w ? static_cast<A>(r.range(1, 8)) : A(0); break;
		case 3: scale = static_cast<int>(r.range(-far, far)); a = arr<A, NN>([&] { return std::ldexp(static_cast<A>(r.range(-8, 8)), scale); }); break;
		case 4: a = arr<A, NN>([&] { return static_cast<A>(r.unit() * 2 - 1); }); for (std::size_t i = 0; i < N; ++i) a[((i + r.below(1)) % N) * N + i] += r.coin() ? A(3) : A(-3); break;
		default: scale = static_cast<int>(r.range(-far, far)); a = arr<A, NN>([&] { return std::ldexp(static_cast<A>(r.unit() * 2 - 1), scale); }); break;
	}
	const bool ex = form < 4;
	const auto la = wide(a);
	L d, mag;
	det<N>(la, d, mag);
	const auto m = make<A, N, N>(a);
	const std::string in = show(a);
	R.section("determinant/" + std::to_string(N) + "/" + tname<A>);
	if (R.cur_case < 3 && N == 2) R.sample("determinant and inverse of " + in);
	auto got = dsga::determinant(m);
	R.count(d == 0 ? "singular matrices" : "regular matrices");
	if constexpr (!std::is_same_v<decltype(got), A>)
		R.fail(R.sec + ":result-type", "a determinant has another type");
	auto judge1 = [&](const char *what, L g, L want, L tol) {
		R.saw(mix(hash_arr(a), hash_str(what)), varied(a));
		if (!(std::fabs(g - want) <= tol))
			R.fail(R.sec + ":" + what, std::string(what) + " is " + show(static_cast<double>(g)) + " want " + show(static_cast<double>(want)) + " within " + show(static_cast<double>(tol)) + " for " + in);
	};
	const L tol = ex ? 0 : 16 * EPS * mag;
	judge1("determinant", got, d, tol);
	judge1("of the transposed", dsga::determinant(dsga::transpose(m)), d, tol);
	{
		// exchanging two columns changes the sign
		auto s = m;
		std::size_t i = r.below(N), j = (i + 1 + r.below(N - 1)) % N;
		s[i].swap(s[j]);
		judge1("with exchanged columns", dsga::determinant(s), -d, tol);
	}
	if (form == 0 || form == 1)
	{
		auto b = arr<A, NN>([&] { return static_cast<A>(r.range(-2, 2)); });
		std::array<A, NN> sa;
		for (std::size_t i = 0; i < NN; ++i) sa[i] = static_cast<A>(static_cast<int>(a[i]) % 3);
		auto x = make<A, N, N>(sa), y = make<A, N, N>(b);
		L dx, dy, dm;
		det<N>(wide(sa), dx, dm); det<N>(wide(b), dy, dm);
		judge1("of a product", dsga::determinant(x * y), dx * dy, 0);		// entries up to 16, 24 terms up to 65536: exact
		judge1("product of", dsga::determinant(x) * dsga::determinant(y), dx * dy, 0);
	}
	if (d == 0 || mag > 1e4L * std::fabs(d))
		return;
	R.section("inverse/" + std::to_string(N) + "/" + tname<A>);
	std::array<L, NN> adj, am, want, itol, id{}, idtol;
	adjugate<N>(la, adj, am);
	L norm = 0, inorm = 0;
	for (std::size_t i = 0; i < NN; ++i)
	{
		want[i] = adj[i] / d;
		norm = std::max(norm, std::fabs(la[i])); inorm = std::max(inorm, std::fabs(want[i]));
	}
	for (std::size_t i = 0; i < NN; ++i)
	{
		if (form == 1) itol[i] = 0;
		else if (ex) itol[i] = 2 * EPS * std::fabs(want[i]) + 4 * EPS * norm * inorm * inorm;
		else itol[i] = 16 * EPS * (am[i] / std::fabs(d) + std::fabs(want[i]) * mag / std::fabs(d)) + 16 * EPS * norm * inorm * inorm;
	}
	auto inv = dsga::inverse(m);
	judge_matrix<A, N, N>(inv, want, itol, form == 1 ? "unimodular" : "inverse", hash_arr(a), in);
	if constexpr (std::is_same_v<decltype(inv), dsga::basic_matrix<A, N, N>>)
	{
		L worst = 0;
		for (std::size_t i = 0; i < NN; ++i) { id[i] = i % (N + 1) == 0; worst = std::max(worst, itol[i]); }
		idtol.fill(form == 1 ? 0 : N * norm * worst + N * N * EPS * norm * inorm);
		judge_matrix<A, N, N>(m * inv, id, idtol, "m * inverse", hash_arr(a), in);
		judge_matrix<A, N, N>(inv * m, id, idtol, "inverse * m", hash_arr(a), in);
		judge1("determinant of the inverse", dsga::determinant(inv) * static_cast<L>(got), 1, form == 1 ? 0 : 64 * idtol[0] * std::pow(norm * inorm * N, L(N - 1)) + 64 * EPS * std::pow(norm * inorm * N, L(N)));
	}
}
#endif

int main(int argc, char **argv)
{
	R.start(argc, argv);
	rng r(R.seed);
	for (u64 c = 0; c < R.cases; ++c)
	{
		R.cur_case = c;
#if GROUP == 20
		square<2>(r); square<3>(r); square<4>(r);
#else
		[&]<std::size_t ...I>(std::index_sequence<I...>) { (shapes<2 + I / 3, 2 + I % 3>(r), ...); }(std::make_index_sequence<9>{});
#if GROUP == 18
		helpers<2>(r); helpers<3>(r); helpers<4>(r);
#endif
#endif
	}
	return R.finish();
}
