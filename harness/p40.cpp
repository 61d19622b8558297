// P40: the mathematical functions of the nested library are the standard ones, when they run and when the compiler evaluates them.
//   ELEM float or double    WHAT 0: on hostile inputs, at run time    1: on tables made while compiling    2: integers
//   TABLE_SEED seeds the tables
#include "kinds.hpp"
using namespace mon;
namespace c = dsga::cxcm;
using T = ELEM;
using L = std::numeric_limits<T>;

#ifndef TABLE_SEED
#define TABLE_SEED 1
#endif

template <typename U>
void want(bool exact, U got, U model, const char *name, const std::string &inputs, u64 h, u64 ulp = 0)
{
	bool ok;
	if constexpr (std::is_floating_point_v<U>) ok = exact ? same(got, model) : (same_val(got, model) || (ulp && std::isfinite(got) && std::isfinite(model) && ulps(got, model) <= ulp));
	else ok = got == model;
	R.saw(mix(hash_str(name), h));
	if (!ok) R.fail(R.sec + ":" + name, std::string(name) + " of " + inputs + " is " + show(got) + " want " + show(model));
}

template <typename F>
F rsqrt_model(F x)
{
	if (x < 0) return std::numeric_limits<F>::quiet_NaN();
	if (x == 0) return std::numeric_limits<F>::infinity();
	return static_cast<F>(1.0L / std::sqrt(static_cast<long double>(x)));
}

// what each function has to give; the ones in all are defined for every input
template <typename F> struct all_of { F abs, fabs, trunc, floor, ceil, round, even, fract, sqrt, rsqrt, fast; bool nan, inf, fin, norm, sign, nz; int cls; };

template <typename F>
constexpr all_of<F> evaluate(F x)
{
	return { c::abs(x), c::fabs(x), c::trunc(x), c::floor(x), c::ceil(x), c::round(x), c::round_even(x), c::fract(x), c::sqrt(x), c::rsqrt(x), c::fast_rsqrt(x),
		c::isnan(x), c::isinf(x), c::isfinite(x), c::isnormal(x), c::signbit(x), c::is_negative_zero(x), c::fpclassify(x) };
}

void judge_all(const all_of<T> &g, T x, u64 extra)
{
	const u64 h = mix(bits_of(x), extra);
	const std::string in = show(x);
	want(true, g.abs, std::fabs(x), "abs", in, h);
	want(true, g.fabs, std::fabs(x), "fabs", in, h);
	// the sign of a zero which a constant is rounded to: floor and ceil of zeros and the others as the C functions have it
	want(true, g.trunc, std::trunc(x), "trunc", in, h);
	want(true, g.floor, std::floor(x), "floor", in, h);
	want(true, g.ceil, std::ceil(x), "ceil", in, h);
	want(true, g.round, std::round(x), "round", in, h);
	want(false, g.even, std::nearbyint(x), "round_even", in, h);
	if (!std::isinf(x)) want(false, g.fract, static_cast<T>(x - std::floor(x)), "fract", in, h);
	want(false, g.sqrt, std::sqrt(x), "sqrt", in, h, 1);
	want(false, g.rsqrt, rsqrt_model(x), "rsqrt", in, h, 3);
	want(false, g.fast, rsqrt_model(x), "fast_rsqrt", in, h, 4);
	want(true, g.nan, static_cast<bool>(std::isnan(x)), "isnan", in, h);
	want(true, g.inf, static_cast<bool>(std::isinf(x)), "isinf", in, h);
	want(true, g.fin, static_cast<bool>(std::isfinite(x)), "isfinite", in, h);
	want(true, g.norm, static_cast<bool>(std::isnormal(x)), "isnormal", in, h);
	if (!std::isnan(x)) want(true, g.sign, static_cast<bool>(std::signbit(x)), "signbit", in, h);
	want(true, g.nz, x == 0 && std::signbit(x), "is_negative_zero", in, h);
	want(true, g.cls, std::fpclassify(x), "fpclassify", in, h);
}

template <typename F> struct pair_of { F fmod, copysign; };
template <typename F> constexpr pair_of<F> evaluate(F x, F y) { return { c::fmod(x, y), c::copysign(x, y) }; }

void judge_pair(const pair_of<T> &g, T x, T y, u64 extra)
{
	const u64 h = mix(mix(bits_of(x), bits_of(y)), extra);
	const std::string in = show(x) + " and " + show(y);
	want(true, g.fmod, std::fmod(x, y), "fmod", in, h);
	// the code says that either zero counts as positive here, and does as std::copysign
	if (!std::isnan(y) && y != 0) want(true, g.copysign, std::copysign(x, y), "copysign", in, h);
}

// the quick ones, on the inputs which they are made for: what fits an integer, and magnitudes away from the ends
template <typename F> struct relaxed_of { F abs, fabs, trunc, floor, ceil, round, even, fract; };
template <typename F>
constexpr relaxed_of<F> evaluate_relaxed(F x)
{
	namespace q = c::relaxed;
	return { q::abs(x), q::fabs(x), q::trunc(x), q::floor(x), q::ceil(x), q::round(x), q::round_even(x), q::fract(x) };
}
template <typename F> struct relaxed_roots { F sqrt, rsqrt, fast; };
template <typename F>
constexpr relaxed_roots<F> evaluate_roots(F x)
{
	namespace q = c::relaxed;
	return { q::sqrt(x), q::rsqrt(x), q::fast_rsqrt(x) };
}
constexpr bool fits(T x) { return sizeof(T) == 4 ? x > T(-2e9) && x < T(2e9) : x > T(-9e18) && x < T(9e18); }
constexpr bool middling(T x) { return x > T(1e-30) && x < T(1e30); }

void judge_relaxed(const relaxed_of<T> &g, T x, u64 extra)
{
	const u64 h = mix(bits_of(x), extra);
	const std::string in = show(x);
	want(false, g.abs, std::fabs(x), "relaxed abs", in, h);
	want(false, g.fabs, std::fabs(x), "relaxed fabs", in, h);
	want(false, g.trunc, std::trunc(x), "relaxed trunc", in, h);
	want(false, g.floor, std::floor(x), "relaxed floor", in, h);
	want(false, g.ceil, std::ceil(x), "relaxed ceil", in, h);
	want(false, g.round, std::round(x), "relaxed round", in, h);
	want(false, g.even, std::nearbyint(x), "relaxed round_even", in, h);
	want(false, g.fract, static_cast<T>(x - std::floor(x)), "relaxed fract", in, h);
}
void judge_roots(const relaxed_roots<T> &g, T x, u64 extra)
{
	const u64 h = mix(bits_of(x), extra);
	const std::string in = show(x);
	want(false, g.sqrt, std::sqrt(x), "relaxed sqrt", in, h, 1);
	want(false, g.rsqrt, rsqrt_model(x), "relaxed rsqrt", in, h, 3);
	want(false, g.fast, rsqrt_model(x), "relaxed fast_rsqrt", in, h, 4);
}

template <typename F> constexpr F make_value(u64 bits)
{
	if constexpr (std::is_same_v<F, float>) return std::bit_cast<float>(static_cast<unsigned>(bits));
	else return std::bit_cast<double>(bits);
}

#if WHAT == 1

constexpr std::size_t NIN = 1400;

template <typename F>
consteval std::array<F, NIN> inputs()
{
	using lim = std::numeric_limits<F>;
	std::array<F, NIN> a{};
	std::size_t n = 0;
	rng r(u64(TABLE_SEED) * 104729 + sizeof(F));
	auto bits = [](F v) -> u64 { if constexpr (sizeof(F) == 4) return std::bit_cast<unsigned>(v); else return std::bit_cast<unsigned long long>(v); };
	auto put = [&](F v) { if (n + 1 < NIN) { a[n++] = v; a[n++] = -v; } };
	auto near = [&](F v) { put(v); put(make_value<F>(bits(v) + 1)); if (v > 0) put(make_value<F>(bits(v) - 1)); };
	for (int k = 0; k < 8; ++k) near(F(k) / 2);
	F p = 1;
	for (int i = 0; i < lim::digits + 3; ++i, p *= 2)
		if (i >= lim::digits - 4 || r.below(6) == 0) { near(p); near(p + F(0.5)); near(p + F(1.5)); near(p - F(0.5)); }
	near(F(0x1p31)); near(F(0x1p32)); near(F(0x1p62)); near(F(0x1p63)); near(F(0x1p64)); near(lim::min()); near(lim::denorm_min()); near(lim::epsilon());
	put(lim::max()); put(make_value<F>(bits(lim::max()) - 1)); put(lim::infinity()); put(lim::quiet_NaN()); put(lim::min() / 2); put(lim::denorm_min() * 3);
	near(F(0x1p-100)); near(F(0x1p100));
	if constexpr (sizeof(F) == 8) { near(F(0x1p-900)); near(F(0x1p900)); near(F(0x1p-1000)); near(F(0x1p1000)); }
	while (n + 1 < NIN)
	{
		u64 b = r.next();
		const std::size_t before = n;
		switch (r.below(5))
		{
			case 0: case 1: put(make_value<F>(sizeof(F) == 4 ? b >> 33 : b >> 1)); break;
			case 2: put(F(r.below(1u << 26)) / F(1 << 10)); break;
			case 3: put(F(r.below(4000)) / F(8)); break;
			default: put(F(r.below(2000001)) / F(2000000)); break;
		}
		if (a[before] != a[before]) n = before;
	}
	return a;
}

template <typename F> constexpr auto INPUTS = inputs<F>();
constexpr T second(std::size_t i) { return i % 4 == 0 ? INPUTS<T>[(i * 37 + 11) % NIN] : i % 4 == 1 ? INPUTS<T>[(i + 1) % NIN] : i % 4 == 2 ? T(i % 23) - T(11.5) : INPUTS<T>[(i * 101 + 7) % NIN] / 64; }

template <typename X, auto f, std::size_t ...I>
constexpr auto table = [] { std::array<X, NIN> t{}; for (std::size_t i = 0; i < NIN; ++i) t[i] = f(i); return t; }();

constexpr auto SINGLE = table<all_of<T>, [](std::size_t i) { return evaluate(INPUTS<T>[i]); }>;
constexpr auto PAIRS = table<pair_of<T>, [](std::size_t i) { return evaluate(INPUTS<T>[i], second(i)); }>;
constexpr auto RELAXED = table<relaxed_of<T>, [](std::size_t i) { return fits(INPUTS<T>[i]) ? evaluate_relaxed(INPUTS<T>[i]) : relaxed_of<T>{}; }>;
constexpr auto ROOTS = table<relaxed_roots<T>, [](std::size_t i) { return middling(INPUTS<T>[i]) ? evaluate_roots(INPUTS<T>[i]) : relaxed_roots<T>{}; }>;

void one(rng &)
{
	for (std::size_t i = 0; i < NIN; ++i)
	{
		T x = INPUTS<T>[i], y = second(i);
		opaque(x); opaque(y);
		R.section(std::string("constant/") + tname<T>);
		judge_all(SINGLE[i], x, 1);
		R.section(std::string("constant pairs/") + tname<T>);
		judge_pair(PAIRS[i], x, y, 1);
		R.section(std::string("constant relaxed/") + tname<T>);
		if (fits(x)) judge_relaxed(RELAXED[i], x, 1);
		if (middling(x)) judge_roots(ROOTS[i], x, 1);
	}
	R.sample("a table made while compiling: round_even(" + show(INPUTS<T>[40]) + ") = " + show(SINGLE[40].even) + ", fmod with " + show(second(40)) + " = " + show(PAIRS[40].fmod));
}

#elif WHAT == 0

void one(rng &r)
{
	R.section(std::string("types/") + tname<T>);
	want(true, bits_of(c::negative_zero<T>), bits_of(-T(0)), "negative_zero", "", 1);
	want(true, std::is_same_v<decltype(c::isnan(T())), bool> && std::is_same_v<decltype(c::fpclassify(T())), int> && std::is_same_v<decltype(c::fmod(T(), T())), T> && std::is_same_v<decltype(c::floor(T())), T>
		&& std::is_same_v<decltype(c::fract(T())), T> && std::is_same_v<decltype(c::round_even(T())), T> && std::is_same_v<decltype(c::sqrt(T())), T> && std::is_same_v<decltype(c::fast_rsqrt(T())), T>, true, "types of results", "", 2);
	for (int i = 0; i < 300; ++i)
	{
		T x = gen<T>(r), y = i % 2 ? gen<T>(r) : static_cast<T>(r.range(-40, 40)) / T(8);
		opaque(x); opaque(y);
		R.section(std::string("running/") + tname<T>);
		judge_all(evaluate(x), x, 0);
		R.section(std::string("running pairs/") + tname<T>);
		judge_pair(evaluate(x, y), x, y, 0);
		R.section(std::string("running relaxed/") + tname<T>);
		if (fits(x)) judge_relaxed(evaluate_relaxed(x), x, 0);
		if (middling(x)) judge_roots(evaluate_roots(x), x, 0);
		// the quick remainder subtracts a rounded quotient: exact for small eighths
		T p = static_cast<T>(r.range(-4000, 4000)) / 8, q = static_cast<T>(r.range(1, 400)) / (r.coin() ? 8 : -8);
		opaque(p); opaque(q);
		want(false, c::relaxed::fmod(p, q), std::fmod(p, q), "relaxed fmod", show(p) + " and " + show(q), mix(bits_of(p), bits_of(q)));
	}
	R.sample("running: " + show(gen<T>(r)));
}

#else

template <typename I>
void integers(const char *name, rng &r)
{
	R.section(std::string("integers/") + name);
	for (int k = 0; k < 40; ++k)
	{
		I v = k == 0 ? std::numeric_limits<I>::max() : k == 1 ? I(0) : k == 2 ? std::numeric_limits<I>::lowest() : k < 20 ? static_cast<I>(r.next()) : static_cast<I>(r.range(-100, 100));
		opaque(v);
		const double d = static_cast<double>(v);
		const std::string in = std::to_string(v);
		const u64 h = mix(static_cast<u64>(v), hash_str(name));
		want(true, c::trunc(v), d, "trunc", in, h);
		want(true, c::floor(v), d, "floor", in, h);
		want(true, c::ceil(v), d, "ceil", in, h);
		want(true, c::round(v), d, "round", in, h);
		want(true, c::round_even(v), d, "round_even", in, h);
		want(true, c::fract(v), 0.0, "fract", in, h);
		if (std::is_unsigned_v<I> || v != std::numeric_limits<I>::lowest())
		{
			const I a = static_cast<I>(v < I(0) ? -v : v);
			want(true, c::abs(v), a, "abs", in, h);
			want(true, c::fabs(v), static_cast<double>(a), "fabs", in, h);
			want(true, c::relaxed::abs(v), a, "relaxed abs", in, h);
			want(true, c::relaxed::fabs(v), static_cast<double>(a), "relaxed fabs", in, h);
		}
	}
	constexpr I k = static_cast<I>(std::is_signed_v<I> ? -77 : 77);
	constexpr double g[] = { c::trunc(k), c::floor(k), c::ceil(k), c::round(k), c::round_even(k), c::fract(k), c::fabs(k), static_cast<double>(c::abs(k)) };
	constexpr double w = std::is_signed_v<I> ? -77 : 77;
	const double m[] = { w, w, w, w, w, 0, 77, 77 };
	for (int i = 0; i < 8; ++i) want(true, g[i], m[i], "constant", std::to_string(i), i);
}

void one(rng &r)
{
	integers<signed char>("signed char", r); integers<unsigned char>("unsigned char", r); integers<short>("short", r); integers<unsigned short>("unsigned short", r);
	integers<int>("int", r); integers<unsigned>("unsigned", r); integers<long>("long", r); integers<unsigned long>("unsigned long", r);
	integers<long long>("long long", r); integers<unsigned long long>("unsigned long long", r);
	R.sample("integers of ten types, limits included");
}

#endif

int main(int argc, char **argv)
{
	R.start(argc, argv);
	rng r(R.seed);
	for (R.cur_case = 0; R.cur_case < R.cases; ++R.cur_case) one(r);
	return R.finish();
}
