// P24: what the compiler computes in a constant expression is what the same code computes when it runs.
//   ELEM element type    PART 0: scalar functions    1: vector operations and functions    2: matrices
//   TABLE_SEED seeds the tables, which are made while compiling
#include "kinds.hpp"
#include <functional>
using namespace mon;
using T = ELEM;

#ifndef TABLE_SEED
#define TABLE_SEED 1
#endif

template <typename V> constexpr bool is_matrix = false;
template <typename U, std::size_t C, std::size_t W> constexpr bool is_matrix<dsga::basic_matrix<U, C, W>> = true;

// every value of a result, however it is packed
template <typename V>
void flatten(const V &v, std::vector<std::pair<u64, long double>> &o)
{
	if constexpr (is_matrix<V>) for (std::size_t i = 0; i < sizeof(V) / sizeof(T); ++i) flatten(reinterpret_cast<const T *>(&v)[i], o);
	else if constexpr (std::is_arithmetic_v<V>) o.push_back({ bits_of(v), static_cast<long double>(v) });
	else if constexpr (requires { typename V::value_type; std::tuple_size<V>::value; })
	{
		using U = std::remove_cvref_t<decltype(*reinterpret_cast<const typename V::value_type *>(&v))>;
		for (std::size_t i = 0; i < sizeof(V) / sizeof(U); ++i) flatten(reinterpret_cast<const U *>(&v)[i], o);
	}
}

enum tolerance { EXACT, ROOT };	// ROOT: a few units in the last place

template <typename V>
void compare(const V &at_compile, const V &at_run, tolerance tol, const char *name, const std::string &inputs)
{
	std::vector<std::pair<u64, long double>> a, b;
	flatten(at_compile, a);
	flatten(at_run, b);
	bool ok = a.size() == b.size() && !a.empty();
	u64 h = hash_str(name);
	for (std::size_t i = 0; ok && i < a.size(); ++i)
	{
		const long double x = a[i].second, y = b[i].second;
		h = mix(h, a[i].first);
		if (a[i].first == b[i].first || (x != x && y != y)) continue;
		// the sign of a zero from roundEven and from a sum which cancels is not promised
		if (x == 0 && y == 0 && tol == ROOT) continue;
		const long double unit = std::is_same_v<T, float> ? 0x1p-23L : 0x1p-52L;
		ok = tol == ROOT && std::fabs(x - y) <= 4 * unit * std::max(std::fabs(x), std::fabs(y));
		if (!ok)
		{
			char buf[200];
			std::snprintf(buf, sizeof buf, "value %zu: %La when compiling, %La when running", i, x, y);
			R.fail(R.sec + ":" + name, std::string(buf) + " for " + inputs);
		}
	}
	if (a.size() != b.size() || a.empty()) R.fail(R.sec + ":" + name + ":shape", "results of different shape");
	R.saw(h);
}

template <typename F> constexpr F make_value(u64 bits)
{
	if constexpr (std::is_same_v<F, float>) return std::bit_cast<float>(static_cast<unsigned>(bits));
	else return std::bit_cast<double>(bits);
}

#if PART == 0

constexpr std::size_t NIN = 1100;

// halves and their neighbours, the edges of what has a fraction, powers of two, subnormals, limits, and arbitrary patterns
template <typename F>
consteval std::array<F, NIN> scalar_inputs()
{
	using lim = std::numeric_limits<F>;
	std::array<F, NIN> a{};
	std::size_t n = 0;
	rng r(u64(TABLE_SEED) * 7919 + sizeof(F));
	auto put = [&](F v) { if (n + 1 < NIN) { a[n++] = v; a[n++] = -v; } };
	auto bits = [](F v) -> u64 { if constexpr (sizeof(F) == 4) return std::bit_cast<unsigned>(v); else return std::bit_cast<unsigned long long>(v); };
	auto near = [&](F v) { put(v); put(make_value<F>(bits(v) + 1)); if (v > 0) put(make_value<F>(bits(v) - 1)); };
	for (int k = 0; k < 11; ++k) near(F(k) / 2);
	for (int k = 0; k < 6; ++k) near(F(r.below(100000)) + F(0.5));
	F p = 1;
	for (int i = 0; i < lim::digits + 3; ++i)
	{
		if (i >= lim::digits - 5) { near(p); near(p + F(0.5)); near(p + F(1.5)); near(p + 1); near(p * F(1.5)); near(p - F(0.5)); }
		else if (i % 4 == static_cast<int>(r.below(4))) { near(p); near(p + F(0.5)); }
		p *= 2;
	}
	near(F(0x1p15)); near(F(0x1p16)); near(F(0x1p31)); near(F(0x1p32)); near(F(0x1p62)); near(F(0x1p63)); near(F(0x1p64));
	near(lim::min()); near(lim::denorm_min()); near(lim::epsilon());
	put(lim::max()); put(make_value<F>(bits(lim::max()) - 1)); put(lim::infinity()); put(lim::quiet_NaN());
	put(lim::min() / 2); put(lim::denorm_min() * 3); put(lim::max() / 2);
	put(F(0x1p-1)); put(F(0x1p-2)); put(F(0.49999999999999994)); put(F(0.49999997));
	while (n + 1 < NIN)
	{
		u64 b = r.next();
		switch (r.below(4))
		{
			case 0: put(make_value<F>(sizeof(F) == 4 ? b >> 33 : b >> 1)); break;
			case 1: put(F(r.below(1u << 26)) / F(1 << 10)); break;
			case 2: put(F(b >> 11) * (sizeof(F) == 4 ? F(0x1p-40) : F(0x1p-20))); break;
			default: put(F(r.below(2000001)) / F(2000000)); break;
		}
		if (n >= 2 && a[n - 1] != a[n - 1]) n -= 2;
	}
	return a;
}

template <typename F> constexpr auto INPUTS = scalar_inputs<F>();

template <auto f, auto in_domain, typename F>
struct table
{
	static constexpr auto values = [] {
		std::array<decltype(f(F{})), NIN> t{};
		for (std::size_t i = 0; i < NIN; ++i)
			if (in_domain(INPUTS<F>[i])) t[i] = f(INPUTS<F>[i]);
		return t;
	}();
};

template <auto f, auto in_domain>
__attribute__((noinline)) void scalar(const char *name, tolerance tol)
{
	R.section(std::string("scalar/") + name + "/" + tname<T>);
	for (std::size_t i = 0; i < NIN; ++i)
	{
		T x = INPUTS<T>[i];
		opaque(x);
		if (!in_domain(x)) continue;
		compare(table<f, in_domain, T>::values[i], f(x), tol, name, show(x));
	}
}

// pairs: consecutive inputs, and each with a few fixed ones
template <auto f, auto in_domain, typename F>
struct table2
{
	static constexpr auto at(std::size_t i)
	{
		constexpr F fixed[] = { F(1), F(0.5), F(-3), F(7), F(0.1), F(1000003) };
		return i % 3 == 0 ? fixed[(i / 3) % 6] : i % 3 == 1 ? INPUTS<F>[(i * 37 + 11) % NIN] : INPUTS<F>[(i + 2) % NIN];
	}
	static constexpr auto values = [] {
		std::array<decltype(f(F{}, F{})), NIN> t{};
		for (std::size_t i = 0; i < NIN; ++i)
			if (in_domain(INPUTS<F>[i], at(i))) t[i] = f(INPUTS<F>[i], at(i));
		return t;
	}();
};

template <auto f, auto in_domain>
__attribute__((noinline)) void scalar2(const char *name, tolerance tol)
{
	R.section(std::string("scalar/") + name + "/" + tname<T>);
	for (std::size_t i = 0; i < NIN; ++i)
	{
		T x = INPUTS<T>[i], y = table2<f, in_domain, T>::at(i);
		opaque(x); opaque(y);
		if (!in_domain(x, y)) continue;
		compare(table2<f, in_domain, T>::values[i], f(x, y), tol, name, show(x) + " and " + show(y));
	}
}

constexpr auto any_x = [](auto) { return true; };
constexpr auto no_nan = [](auto x) { return x == x; };
constexpr auto finite_x = [](auto x) { return x == x && x <= std::numeric_limits<decltype(x)>::max() && x >= std::numeric_limits<decltype(x)>::lowest(); };
constexpr auto positive = [](auto x) { return x > 0 && finite_x(x); };
constexpr auto not_negative = [](auto x) { return x >= 0; };
constexpr auto modest = [](auto x) { return finite_x(x) && x < decltype(x)(1e15) && x > decltype(x)(-1e15); };
constexpr auto divides = [](auto x, auto y, double most) { return modest(x) && modest(y) && y != 0 && double(x) < most * (y < 0 ? -double(y) : double(y)) && double(x) > -most * (y < 0 ? -double(y) : double(y)); };
constexpr auto any_xy = [](auto, auto) { return true; };
constexpr auto comparable = [](auto x, auto y) { return x == x && y == y; };

void run_all(rng &)
{
	namespace c = dsga::cxcm;
#define S(name, domain, tol, ...) scalar<[](T x) { return __VA_ARGS__; }, domain>(name, tol)
#define S2(name, domain, tol, ...) scalar2<[](T x, T y) { return __VA_ARGS__; }, domain>(name, tol)
	S("isnan", any_x, EXACT, c::isnan(x));
	S("isinf", any_x, EXACT, c::isinf(x));
	S("isfinite", any_x, EXACT, c::isfinite(x));
	S("isnormal", any_x, EXACT, c::isnormal(x));
	S("fpclassify", any_x, EXACT, c::fpclassify(x));
	S("signbit", no_nan, EXACT, c::signbit(x));
	S("abs", any_x, EXACT, c::abs(x));
	S("fabs", any_x, EXACT, c::fabs(x));
	S("trunc", any_x, EXACT, c::trunc(x));
	S("floor", any_x, EXACT, c::floor(x));
	S("ceil", any_x, EXACT, c::ceil(x));
	S("round", any_x, EXACT, c::round(x));
	S("round_even", any_x, ROOT, c::round_even(x));
	S("fract", finite_x, EXACT, c::fract(x));
	S("sqrt", not_negative, ROOT, c::sqrt(x));
	S("rsqrt", positive, ROOT, c::rsqrt(x));
	S("fast_rsqrt", positive, ROOT, c::fast_rsqrt(x));
	S2("copysign", comparable, EXACT, c::copysign(x, y));
	S2("fmod", any_xy, EXACT, c::fmod(x, y));
	S("function trunc", any_x, EXACT, dsga::trunc(x));
	S("function floor", any_x, EXACT, dsga::floor(x));
	S("function ceil", any_x, EXACT, dsga::ceil(x));
	S("function round", any_x, EXACT, dsga::round(x));
	S("function roundEven", any_x, ROOT, dsga::roundEven(x));
	S("function sign", no_nan, EXACT, dsga::sign(x));
	S("function isnan", any_x, EXACT, dsga::isnan(x));
	S("function isinf", any_x, EXACT, dsga::isinf(x));
	S("function radians", modest, EXACT, dsga::radians(x));
	S("function inversesqrt", positive, ROOT, dsga::inversesqrt(x));
	S("function sqrt", not_negative, ROOT, dsga::sqrt(x));
	S("lane functions", finite_x, EXACT, std::array<T, 10>{ dsga::trunc(dsga::basic_vector<T, 2>(x, 1))[0], dsga::floor(dsga::basic_vector<T, 2>(1, x))[1], T(dsga::ceil(dsga::basic_vector<T, 1>(x))),
		dsga::round(dsga::basic_vector<T, 3>(x))[2], dsga::fract(dsga::basic_vector<T, 4>(x))[3], dsga::abs(dsga::basic_vector<T, 2>(x))[1], dsga::sign(dsga::basic_vector<T, 2>(x))[1],
		dsga::clamp(x, T(-1), T(1)), dsga::min(x, T(2)), dsga::max(dsga::basic_vector<T, 2>(x, 0), T(2))[0] });
	// clang has no constant evaluation of std::isless and its like, which these use
#ifndef __clang__
	S2("comparison functions", any_xy, EXACT, std::array<bool, 8>{ dsga::lessThan(x, y), dsga::lessThanEqual(x, y), dsga::greaterThan(dsga::basic_vector<T, 2>(x), dsga::basic_vector<T, 2>(y))[1],
		dsga::equal(dsga::basic_vector<T, 2>(x), dsga::basic_vector<T, 2>(y))[0], dsga::notEqual(x, y), dsga::basic_vector<T, 2>(x, y) == dsga::basic_vector<T, 2>(y, x), dsga::greaterThanEqual(x, y),
		dsga::any(dsga::isnan(dsga::basic_vector<T, 3>(1, x, y))) });
#endif
	S2("mod", ([](auto x, auto y) { return divides(x, y, 1e15); }), EXACT, dsga::mod(dsga::basic_vector<T, 2>(x, x), y)[1]);
	S2("smaller and larger", any_xy, EXACT, std::array<T, 12>{ dsga::min(x, y), dsga::max(x, y), dsga::min(dsga::basic_vector<T, 3>(1, x, y), dsga::basic_vector<T, 3>(x, y, 1))[1],
		dsga::max(dsga::basic_vector<T, 3>(1, x, y), dsga::basic_vector<T, 3>(x, y, 1))[2], dsga::min(dsga::basic_vector<T, 2>(x, 1), y)[0], dsga::max(dsga::basic_vector<T, 4>(x), y)[3],
		dsga::basic_vector<T, 2>(x, y).min(), dsga::basic_vector<T, 2>(x, y).max(), dsga::basic_vector<T, 3>(y, x, 1).min(), dsga::basic_vector<T, 3>(y, x, 1).max(),
		dsga::mix(dsga::basic_vector<T, 2>(x), dsga::basic_vector<T, 2>(y), dsga::basic_vector<bool, 2>(true, false))[0], (-dsga::basic_vector<T, 2>(x, y))[1] });
	S2("step", any_xy, EXACT, std::array<T, 2>{ dsga::step(x, y), dsga::step(dsga::basic_vector<T, 2>(x), dsga::basic_vector<T, 2>(y))[1] });
	S("bits", no_nan, EXACT, ([](auto v) {
		if constexpr (std::is_same_v<decltype(v), float>) return std::array<T, 2>{ dsga::intBitsToFloat(dsga::floatBitsToInt(v)), dsga::uintBitsToFloat(dsga::floatBitsToUint(dsga::vec2(v)))[1] };
		else return std::array<T, 2>{ dsga::longLongBitsToDouble(dsga::doubleBitsToLongLong(v)), dsga::ulongLongBitsToDouble(dsga::doubleBitsToUlongLong(dsga::dvec2(v)))[1] };
	})(x));
	S("modf", finite_x, EXACT, ([](T v) { T whole{}; T part = dsga::modf(v, whole); return std::array<T, 2>{ whole, part }; })(x));
#undef S
#undef S2
}

#else

// small exact values, so that no arithmetic below rounds out of reach or overflows
constexpr std::size_t NIN = 32;
using ins = std::array<T, 16>;
consteval std::array<ins, NIN> vector_inputs()
{
	std::array<ins, NIN> a{};
	rng r(u64(TABLE_SEED) * 104729 + sizeof(T) * 3 + std::is_unsigned_v<T>);
	for (auto &row : a)
		for (auto &v : row)
		{
			const long long n = r.range(1, 40);
			if constexpr (std::is_same_v<T, bool>) v = n % 2;
			else if constexpr (std::is_floating_point_v<T>)
			{
				const T scale[] = { T(1), T(0.5), T(0.125), T(0.1), T(1000), T(1e-6) };
				v = (r.coin() ? T(n) : T(-n)) * scale[r.below(6)];
			}
			else if constexpr (std::is_signed_v<T>) v = r.coin() ? T(n) : T(-n);
			else v = T(n);
		}
	return a;
}
constexpr auto INPUTS = vector_inputs();

template <auto f>
struct table
{
	static constexpr auto values = [] {
		using out = decltype(f(INPUTS[0]));
		return [&]<std::size_t ...Is>(std::index_sequence<Is...>) { return std::array<out, NIN>{ f(INPUTS[Is])... }; }(std::make_index_sequence<NIN>{});
	}();
};

template <auto f>
__attribute__((noinline)) void program(const char *name, tolerance tol)
{
	R.section(std::string("program/") + name + "/" + tname<T>);
	for (std::size_t i = 0; i < NIN; ++i)
	{
		ins x = INPUTS[i];
		opaque(x);
		compare(table<f>::values[i], f(x), tol, name, show(x));
	}
}

template <std::size_t N> using vec = dsga::basic_vector<T, N>;
template <std::size_t N> constexpr vec<N> at(const ins &x, std::size_t from)
{
	return [&]<std::size_t ...Is>(std::index_sequence<Is...>) { return vec<N>(x[(from + Is) % 16]...); }(std::make_index_sequence<N>{});
}
#define P(name, tol, ...) program<[](const ins &x) { __VA_ARGS__ }>(name, tol)

#endif

#if PART == 1

// the helper of integral %, shifts and bits: positive divisors and small amounts
constexpr T tiny(T v) { return v < T(0) ? T(T(0) - v) : v; }

template <std::size_t N, typename T>
void for_size()
{
	P("construct", EXACT, return std::array<vec<N>, 4>{ at<N>(x, 0), vec<N>(x[3]), vec<N>{}, at<N>(x, 4) };);
	if constexpr (!std::is_same_v<T, bool>)
	{
		P("arithmetic", EXACT, auto a = at<N>(x, 0), b = at<N>(x, N); return std::array<vec<N>, 7>{ vec<N>(a + b), vec<N>(a - b), vec<N>(a * b), vec<N>(a / b), vec<N>(+a), vec<N>(x[9] + a), vec<N>(a * x[10]) };);
		P("compound", EXACT, auto a = at<N>(x, 0); a += at<N>(x, 5); a -= x[2]; auto c = a; a *= x[3]; a /= at<N>(x, 1); c = a++; ++c; auto d = c--; --d; return std::array<vec<N>, 3>{ a, c, d };);
		if constexpr (std::is_signed_v<T>) P("negation", EXACT, return vec<N>(-at<N>(x, 3)););
		if constexpr (std::is_integral_v<T>)
		{
			P("integral", EXACT, auto a = at<N>(x, 0), b = at<N>(x, 7); auto small = b.apply([](T v) { return T(tiny(v) % 7); });
				return std::array<vec<N>, 9>{ vec<N>(a % b), vec<N>(a & b), vec<N>(a | b), vec<N>(a ^ b), vec<N>(~a), vec<N>(a << small), vec<N>(a >> small), vec<N>(x[3] % b), vec<N>(x[4] & b) };);
			P("integral compound", EXACT, auto a = at<N>(x, 0); a %= at<N>(x, 3); a |= x[5]; a ^= at<N>(x, 8); a &= T(127); a <<= T(2); a >>= T(1); return a;);
			P("byteswap", EXACT, return dsga::byteswap(vec<N>(at<N>(x, 2))););
		}
		P("query and totals", EXACT, auto a = at<N>(x, 6); return std::array<T, 3>{ a.min(), a.max(), a.sum() };);
#ifndef __clang__	// no constant evaluation of std::isunordered
		P("comparisons", EXACT, auto a = at<N>(x, 0), b = at<N>(x, 2); auto l = dsga::basic_vector<bool, N>(dsga::lessThan(a, b)); return std::array<bool, 8>{ a == b, a != b, a == a, l[0], l[N - 1], dsga::any(l), dsga::all(l), dsga::none(l) };);
#endif
		P("min and max", EXACT, auto a = at<N>(x, 0), b = at<N>(x, 4); return std::array<vec<N>, 3>{ vec<N>(dsga::min(a, b)), vec<N>(dsga::max(a, b)), vec<N>(dsga::min(a, x[5])) };);
		P("dot", EXACT, auto a = at<N>(x, 0), b = at<N>(x, 4); if constexpr ((std::is_floating_point_v<T>) && (N > 1)) return T(dsga::dot(a, b)); else return T(dsga::innerProduct(a, b)););
		P("view", EXACT, T q[8] = { x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7] }; dsga::basic_view<true, T, N> v(q + 1); v += x[8]; v[0] = x[9]; const dsga::basic_view<false, T, N> c(q + 2); vec<N> s(v);
			auto w = vec<N>(v * c); v = s + x[3]; ++v; for (auto &e : v) e += T(1); v.swap(v); return std::array<T, 11>{ q[0], q[1], q[2], q[3], q[4], q[5], q[6], w[0], w[N - 1], s[0], c[N - 1] };);
		P("view_vector", EXACT, dsga::view_vector<T, N> v; v = at<N>(x, 2); auto u = v; u += x[1]; vec<N> a(v), b(u); return std::array<vec<N>, 2>{ a, b };);
	}
	P("members", EXACT, auto a = at<N>(x, 1); a[N - 1] = x[12]; auto b = a; b = vec<N>{}; a.swap(b); return std::array<vec<N>, 5>{ a, b, vec<N>(a.shift(1)), vec<N>(b.cshift(-1)), vec<N>(b.shift(-2)) };);
	P("apply and query", EXACT, auto a = at<N>(x, 3); int k = 0; auto b = a.apply([&](T v) { return k++ % 2 ? v : T(1); }); bool even = false; even = dsga::any(dsga::basic_vector<bool, 2>(a.query([](T v) { return v == T(1); })[0], false)); return std::array<vec<N>, 2>{ vec<N>(b), vec<N>(static_cast<T>(even)) };);
	P("iterators", EXACT, auto a = at<N>(x, 0); auto b = a; std::reverse(b.begin(), b.end()); auto i = a.rbegin(); vec<N> c{}; for (auto &e : c) e = *i++; auto j = b.cbegin(); j += N - 1; T last = *j; std::sort(a.begin(), a.end()); return std::array<vec<N>, 4>{ a, b, c, vec<N>(last) };);
	P("conversion", EXACT, auto a = at<N>(x, 8); auto s = dsga::to_array(a); auto b = dsga::to_vector(s); auto d = dsga::basic_vector<double, N>(a); auto l = get<N - 1>(a); return std::array<double, 3>{ static_cast<double>(b[0]), d[N - 1], static_cast<double>(l) };);
	P("compose", EXACT, if constexpr (N == 1) return vec<1>(x[0]); else if constexpr (N == 2) return vec<2>(x[0], at<1>(x, 1)); else if constexpr (N == 3) return vec<3>(at<2>(x, 0), x[2]); else return vec<4>(x[0], at<2>(x, 1), x[9]););
	if constexpr (std::is_same_v<T, bool>)
		P("logic", EXACT, auto a = at<N>(x, 0), b = at<N>(x, 6); auto o = vec<N>(dsga::compNot(a)); return std::array<bool, 6>{ dsga::any(a), dsga::all(b), dsga::none(o), vec<N>(dsga::compAnd(a, b))[N - 1], vec<N>(dsga::compOr(a, b))[0], vec<N>(dsga::compNot(b))[N - 1] };);
	if constexpr (std::is_floating_point_v<T>)
	{
		if constexpr (N > 1)
		{
			P("directions", ROOT, auto a = at<N>(x, 0), b = dsga::normalize(at<N>(x, 4)); return std::array<vec<N>, 3>{ vec<N>(dsga::normalize(a)), vec<N>(dsga::faceforward(a, b, a)), vec<N>(dsga::refract(dsga::normalize(a), b, T(0.5))) };);
			P("reflection", ROOT, return vec<N>(dsga::reflect(at<N>(x, 0), vec<N>(T(0.5)))););
		}
		P("lane functions", EXACT, auto a = at<N>(x, 0), b = at<N>(x, 4); return std::array<vec<N>, 9>{ vec<N>(dsga::floor(a)), vec<N>(dsga::ceil(a)), vec<N>(dsga::trunc(a)), vec<N>(dsga::round(a)), vec<N>(dsga::fract(a)), vec<N>(dsga::mod(a, b)), vec<N>(dsga::abs(a)), vec<N>(dsga::sign(b)), vec<N>(dsga::mix(a, b, T(0.25))) };);
		P("interpolation", EXACT, auto a = at<N>(x, 0); auto lo = T(-3), hi = T(5); vec<N> whole{}; auto part = dsga::modf(a, whole); return std::array<vec<N>, 6>{ vec<N>(dsga::clamp(a, lo, hi)), vec<N>(dsga::smoothstep(lo, hi, a)), vec<N>(dsga::step(T(1), a)), whole, vec<N>(part), vec<N>(dsga::mix(a, at<N>(x, 8), at<N>(x, 3))) };);
		P("geometry", ROOT, auto a = at<N>(x, 0), b = at<N>(x, 4); return std::array<T, 2>{ T(dsga::length(a)), T(dsga::distance(a, b)) };);
		P("roots", ROOT, auto a = at<N>(x, 0); auto s = dsga::abs(a); return std::array<vec<N>, 3>{ vec<N>(dsga::sqrt(s)), vec<N>(dsga::inversesqrt(s)), vec<N>(dsga::fast_inversesqrt(s)) };);
		P("angles", EXACT, return std::array<vec<N>, 2>{ vec<N>(dsga::radians(at<N>(x, 0))), vec<N>(dsga::degrees(at<N>(x, 1))) };);
	}
	if constexpr (N == 3 && std::is_floating_point_v<T>)
		P("cross", EXACT, auto a = at<N>(x, 0), b = at<N>(x, 5); return std::array<vec<N>, 2>{ vec<N>(dsga::cross(a.as_base(), b.as_base())), vec<N>(dsga::cross(b.as_base(), a.as_base())) };);
}

void run_all(rng &)
{
	for_sizes([&](auto n) { for_size<n, T>(); });
}

#elif PART == 2

// clang has no constant evaluation of the library functions behind == of floating point matrices
#ifdef __clang__
#define CLANG_CANNOT(...)
#else
#define CLANG_CANNOT(...) __VA_ARGS__
#endif

template <std::size_t C, std::size_t W> using mat = dsga::basic_matrix<T, C, W>;
template <std::size_t C, std::size_t W> constexpr mat<C, W> mat_at(const ins &x, std::size_t from)
{
	return [&]<std::size_t ...Is>(std::index_sequence<Is...>) { return mat<C, W>(x[(from + Is * 3) % 16]...); }(std::make_index_sequence<C * W>{});
}
// well away from singular
template <std::size_t N> constexpr mat<N, N> square(const ins &x)
{
	auto m = mat_at<N, N>(x, 1);
	for (std::size_t i = 0; i < N; ++i) m[i][i] = m[i][i] < 0 ? m[i][i] - T(70) : m[i][i] + T(70);
	return m;
}

template <std::size_t C, std::size_t W>
void for_shape()
{
	P("construct", EXACT, return std::array<mat<C, W>, 3>{ mat_at<C, W>(x, 0), dsga::transpose(mat_at<W, C>(x, 1)), mat<C, W>{} };);
	P("element-wise", EXACT, auto a = mat_at<C, W>(x, 0), b = mat_at<C, W>(x, 5); auto c = a; auto d = c++; ++d; --c;
		return std::array<mat<C, W>, 9>{ a + b, a - b, -a, a * x[2], x[3] + a, a / x[4], dsga::matrixCompMult(a, b), c, d };);
	P("products", EXACT, auto a = mat_at<C, W>(x, 0); auto b = mat_at<W, C>(x, 2); return std::array<vec<2>, 3>{ vec<2>((a * b)[W - 1][0], (b * a)[C - 1][C - 1]), vec<2>((a * at<C>(x, 1))[0], (at<W>(x, 4) * a)[C - 1]), vec<2>(vec<W>(a * at<C>(x, 9))[W - 1], 0) };);
	P("transpose", EXACT, return dsga::transpose(mat_at<C, W>(x, 0)););
	P("outerProduct", EXACT, return dsga::outerProduct(at<W>(x, 0), at<C>(x, 7)););
	P("access", EXACT, auto a = mat_at<C, W>(x, 0); a[C - 1][0] = x[9]; a[0] = at<W>(x, 4); auto row = a.row(W - 1); auto b = a; b[0][0] += T(1); CLANG_CANNOT(const bool same_ab = a == b;) a[0][0] += T(1); a.swap(b);
		return std::array<T, 6>{ row[C - 1], a[0][0], b[0][0], CLANG_CANNOT(T(same_ab), T(a == a),) b[1][0] };);
	P("conversion", EXACT, auto a = mat_at<C, W>(x, 0); auto s = dsga::to_array(a); auto b = dsga::to_matrix<C, W>(s); return std::array<mat<C, W>, 2>{ b, mat<C, W>(dsga::basic_matrix<double, C, W>(a)) };);
	P("resize", EXACT, auto a = mat_at<C, W>(x, 0); return dsga::basic_matrix<T, 4, 4>(a););
	P("iterate", EXACT, auto a = mat_at<C, W>(x, 0); vec<W> sum(T(0)); for (auto &c : a) sum += c; auto i = a.rbegin(); return std::array<vec<W>, 2>{ sum, *i };);
	if constexpr (C == W)
	{
		P("determinant", EXACT, return dsga::determinant(square<C>(x)););
		P("inverse", EXACT, return dsga::inverse(square<C>(x)););
		P("diagonal", EXACT, return dsga::diagonal_matrix(at<C>(x, 3)););
	}
}

void run_all(rng &)
{
	P("cross_matrix", EXACT, return dsga::cross_matrix(at<3>(x, 3)););
	for_shape<2, 2>(); for_shape<2, 3>(); for_shape<2, 4>();
	for_shape<3, 2>(); for_shape<3, 3>(); for_shape<3, 4>();
	for_shape<4, 2>(); for_shape<4, 3>(); for_shape<4, 4>();
}

#endif

int main(int argc, char **argv)
{
	R.start(argc, argv);
	rng r(R.seed);
	for (u64 c = 0; c < R.cases; ++c)
	{
		R.cur_case = c;
		run_all(r);
		if (c == 0) R.sample("tables of constant expressions against the same functions on opaque inputs");
	}
	return R.finish();
}
