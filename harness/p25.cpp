// P25: documented misuse is reported before anything is touched, and valid use next to it never is.
//   MODE 0: assertions on    1: assertions off (only exceptions remain)     ELEM element type
//   PART 0: indexes    1: null views, swaps, matrices    2: preconditions and iterators
#if MODE == 1 && !defined(NDEBUG)
#define DISABLE_ASSERTS
#endif
#include <csetjmp>
#include <memory>
#include <stdexcept>
#include "kinds.hpp"
using namespace mon;
using T = ELEM;

enum outcome { FINE, ASSERTED, OUT_OF_RANGE, INVALID_ARGUMENT, RANGE_ERROR, OTHER };
constexpr const char *oname[] = { "no report", "an assertion", "std::out_of_range", "std::invalid_argument", "std::range_error", "something else" };

static sigjmp_buf back;
static bool armed = false;
static const char *where = "";

// the C library's reporter of failed assertions: come back instead of ending the process
extern "C" void __assert_fail(const char *what, const char *file, unsigned line, const char *function) noexcept
{
	if (!armed) { std::fprintf(stderr, "%s:%u: %s: Assertion `%s' failed.\n", file, line, function, what); std::abort(); }
	where = file;
	siglongjmp(back, 1);
}

// a call without a type of its own, so that thousands of them compile quickly
template <typename Ret>
struct callback
{
	void *object;
	Ret (*call)(void *);
	template <typename F> requires (!std::is_same_v<std::remove_cvref_t<F>, callback>)
	callback(F &&f) : object(const_cast<void *>(static_cast<const void *>(&f))), call([](void *o) -> Ret { return (*static_cast<std::remove_reference_t<F> *>(o))(); }) {}
	Ret operator()() const { return call(object); }
};

__attribute__((noinline)) outcome attempt(callback<void> f)
{
	volatile outcome o = FINE;
	where = "";
	if (sigsetjmp(back, 0) == 0)
	{
		armed = true;
		try { f(); }
		catch (const std::out_of_range &) { o = OUT_OF_RANGE; }
		catch (const std::invalid_argument &) { o = INVALID_ARGUMENT; }
		catch (const std::range_error &) { o = RANGE_ERROR; }
		catch (...) { o = OTHER; }
	}
	else o = std::strstr(where, "dsga.hxx") ? ASSERTED : OTHER;
	armed = false;
	return o;
}

__attribute__((noinline)) void use_at(const void *v) { asm volatile("" : : "r"(v) : "memory"); }
template <typename V> inline void use(const V &v) { use_at(&v); }

// what must happen; same is asked afterwards whether everything is as it was
__attribute__((noinline)) void expect(outcome want, const char *name, const std::string &inputs, callback<void> f, callback<bool> same_as_before)
{
	const outcome got = attempt(f);
	R.saw(mix(hash_str(name), mix(hash_str(inputs.c_str()), got)));
	if (got != want) R.fail(R.sec + ":" + name, std::string(oname[got]) + " where " + oname[want] + " is due, for " + inputs);
	if (want != FINE && !same_as_before()) R.fail(R.sec + ":" + name + ":changed", "a rejected operation changed its object, for " + inputs);
}

#if MODE == 0
constexpr outcome BAD_INDEX = ASSERTED;
#else
constexpr outcome BAD_INDEX = OUT_OF_RANGE;
#endif

struct place { long long at; constexpr operator std::size_t() const { return static_cast<std::size_t>(at); } constexpr auto operator<=>(const place &) const = default; };
enum small_index { i_zero, i_one, i_two, i_three, i_four };

// an index of a type which can hold it; v is what the value means
template <bool ALL_TYPES, typename F>
void for_indexes(std::size_t n, F &&f)
{
	const long long N = static_cast<long long>(n);
	for (long long v : { -1ll, 0ll, N - 1, N, N + 1, 3ll, 4ll, 5ll, 127ll, -128ll })
	{
		f(static_cast<int>(v), v); f(v, v);
		if (v >= 0) f(static_cast<std::size_t>(v), v);
		if constexpr (ALL_TYPES)
		{
			f(static_cast<short>(v), v); f(static_cast<signed char>(v), v); f(static_cast<long>(v), v);
			if (v >= 0) { f(static_cast<unsigned>(v), v); f(static_cast<unsigned char>(v), v); f(static_cast<unsigned long long>(v), v); }
			if (v >= 0 && v <= 4) f(static_cast<small_index>(v), v);
			if (v == 0 || v == 1) f(v == 1, v);
		}
	}
	for (long long v : { static_cast<long long>(INT_MIN), static_cast<long long>(INT_MAX) }) f(static_cast<int>(v), v);
	for (long long v : { 1ll << 32, (1ll << 32) + 1, -(1ll << 32), -(1ll << 32) + 1, 1ll << 62, LLONG_MIN, LLONG_MAX, 256ll, 65536ll }) { f(v, v); if (v >= 0) f(static_cast<std::size_t>(v), v); }
	f(static_cast<std::size_t>(0xffffffffffffffffull), -1ll); f(static_cast<std::size_t>(0x8000000000000000ull), -1ll);
	if constexpr (ALL_TYPES) f(0xffffffffu, 0xffffffffll);
}

template <kind K, std::size_t N>
struct fixture
{
	std::unique_ptr<holder<K, T, N>> h;
	std::array<T, N> a;
	explicit fixture(rng &r) : h(std::make_unique<holder<K, T, N>>())
	{
		for (std::size_t i = 0; i < N; ++i) a[i] = marker<T>(r.below(90) + i);
		h->load(a);
	}
	bool same_as_before() const
	{
		auto now = h->read();
		for (std::size_t i = 0; i < N; ++i) if (bits_of(now[i]) != bits_of(a[i])) return false;
		return h->guards();
	}
	auto &obj() { return h->obj(); }
};

template <kind K, std::size_t N>
void indexing(rng &r)
{
	fixture<K, N> x(r);
	auto &v = x.obj();
	auto same_now = [&] { return x.same_as_before(); };
	R.section(std::string("index/") + kname(K) + "/" + std::to_string(N) + "/" + tname<T>);
	for_indexes<K == Vec || K == VSwz>(N, [&](auto i, long long means) {
		const bool good = means >= 0 && means < static_cast<long long>(N);
		auto in = std::to_string(means) + " as " + std::to_string(sizeof(i)) + (std::is_signed_v<decltype(i)> ? " signed" : " unsigned") + " bytes";
#if MODE == 0
		if constexpr (!std::is_same_v<decltype(i), small_index> && !std::is_same_v<decltype(i), bool>)
		{
			expect(good ? FINE : ASSERTED, "[]", in, [&] { use(v[i]); }, same_now);
			expect(good ? FINE : ASSERTED, "const []", in, [&] { use(std::as_const(v)[i]); }, same_now);
			expect(good ? FINE : ASSERTED, "base []", in, [&] { use(v.as_base()[i]); }, same_now);
			if constexpr (kwritable(K) && !std::is_same_v<T, bool>)
				if (!good) expect(ASSERTED, "[] =", in, [&] { v[i] = T(1); }, same_now);
		}
#endif
		const T first = x.a[0];
		expect(good ? FINE : BAD_INDEX, "swizzle 1", in, [&] { auto w = dsga::swizzle(v, i); if (bits_of(T(w)) != bits_of(x.a[static_cast<std::size_t>(means)])) R.fail(R.sec + ":swizzle 1:value", "wrong value for " + in); }, same_now);
		const int other = static_cast<int>(r.below(N));
		expect(good ? FINE : BAD_INDEX, "swizzle 2 first", in, [&] { use(dsga::swizzle(v, i, other)); }, same_now);
		expect(good ? FINE : BAD_INDEX, "swizzle 2 second", in, [&] { use(dsga::swizzle(v, other, i)); }, same_now);
		expect(good ? FINE : BAD_INDEX, "swizzle 3 second", in, [&] { use(dsga::swizzle(v, 0, i, other)); }, same_now);
		expect(good ? FINE : BAD_INDEX, "swizzle 3 last", in, [&] { use(dsga::swizzle(v, other, 0u, i)); }, same_now);
		expect(good ? FINE : BAD_INDEX, "swizzle 4 first", in, [&] { use(dsga::swizzle(v, i, other, 0, other)); }, same_now);
		expect(good ? FINE : BAD_INDEX, "swizzle 4 third", in, [&] { use(dsga::swizzle(v, 0, other, i, other)); }, same_now);
		expect(good ? FINE : BAD_INDEX, "swizzle 4 last", in, [&] { use(dsga::swizzle(std::as_const(v), 0, other, 0ull, i)); }, same_now);
		(void) first;
	});
	// several at once, and objects which become an index
	for (int t = 0; t < 12; ++t)
	{
		long long i[4];
		bool good = true;
		for (auto &q : i) { q = r.below(3) ? static_cast<long long>(r.below(N)) : static_cast<long long>(r.next()) >> r.below(64); good = good && q >= 0 && q < static_cast<long long>(N); }
		auto in = std::to_string(i[0]) + "," + std::to_string(i[1]) + "," + std::to_string(i[2]) + "," + std::to_string(i[3]);
		expect(good ? FINE : BAD_INDEX, "swizzle 4", in, [&] { use(dsga::swizzle(v, i[0], place{ i[1] }, static_cast<std::size_t>(i[2]), i[3])); }, same_now);
	}
}

// every way to use a view which has no memory, and the same once it has some
template <kind K, std::size_t N>
void null_views(rng &)
{
	static_assert(K == View || K == CView);
	constexpr bool M = K == View;
	R.section(std::string("null/") + kname(K) + "/" + std::to_string(N) + "/" + tname<T>);
	auto buf = std::make_unique<T[]>(N);
	for (std::size_t i = 0; i < N; ++i) buf[i] = marker<T>(i);
	dsga::basic_vector<T, N> w(T(1));
	dsga::basic_view<M, T, N> v(buf.get());
	const auto &cv = v;
	auto same_now = [&] { for (std::size_t i = 0; i < N; ++i) if (bits_of(buf[i]) != bits_of(marker<T>(i))) return false; return true; };
	for (int round = 0; round < 3; ++round)
	{
		// with memory, without, and with again
		const bool null = round == 1;
		v.reset(null ? nullptr : buf.get());
		const outcome want = null ? ASSERTED : FINE;
		const std::string in = null ? "a null view" : "a view with memory";
		auto way = [&](const char *name, callback<void> f) { expect(want, name, in, f, same_now); };
		expect(FINE, "size", in, [&] { use(v.size()); use(v.length()); }, same_now);
#if MODE == 0
		way("[]", [&] { use(v[0]); });
		way("const []", [&] { use(cv[N - 1]); });
		way("const data", [&] { use(cv.data()); });
		way("data", [&] { use(v.data()); });
		way("const begin", [&] { use(cv.begin()); });
		way("const end", [&] { use(cv.end()); });
		way("cbegin", [&] { use(v.cbegin()); });
		way("cend", [&] { use(v.cend()); });
		way("crbegin", [&] { use(v.crbegin()); });
		way("crend", [&] { use(v.crend()); });
		way("const rbegin", [&] { use(cv.rbegin()); });
		way("const rend", [&] { use(cv.rend()); });
		way("begin", [&] { use(v.begin()); });
		way("end", [&] { use(v.end()); });
		way("rbegin", [&] { use(v.rbegin()); });
		way("rend", [&] { use(v.rend()); });
		way("copy", [&] { dsga::basic_vector<T, N> u(v); use(u); });
		way("for", [&] { for (const auto &e : cv) use(e); });
		way("swizzle()", [&] { use(dsga::swizzle(v, 0)); });
		way("swizzle read", [&] { use(v.x[0]); });
		way("const swizzle read", [&] { use(cv.x[0]); });
		way("swizzle convert", [&] { T t = v.x; use(t); });
		way("swizzle convert to another", [&] { auto t = static_cast<double>(v.x); use(t); });
		way("swizzle data", [&] { use(v.x.data()); });
		way("const swizzle data", [&] { use(cv.x.data()); });
		way("swizzle iterate", [&] { use(*v.x.cbegin()); });
		way("query", [&] { use(v.query([](T) { return true; })); });
		way("apply", [&] { use(v.apply([](T t) { return t; })); });
		way("==", [&] { bool e = v == w; use(e); });
		if constexpr (N >= 2)
		{
			way("two-lane swizzle", [&] { use(v.yx[1]); });
			way("two-lane swizzle copy", [&] { dsga::basic_vector<T, 2> u(v.yx); use(u); });
			way("shared lanes", [&] { dsga::basic_vector<T, 2> u(v.xx); use(u); });
		}
		if constexpr (!std::is_same_v<T, bool>)
		{
			way("+", [&] { use(v + w); });
			way("scalar +", [&] { use(T(1) + v); });
			way("min", [&] { use(v.min()); });
			way("swizzle *", [&] { use(v.x * T(2)); });
		}
		if constexpr (M)
		{
			auto writes = [&](const char *name, callback<void> f) { expect(want, name, in, f, same_now); for (std::size_t i = 0; i < N; ++i) buf[i] = marker<T>(i); };
			writes("[] =", [&] { v[0] = T(1); });
			writes("set", [&] { [&]<std::size_t ...Is>(std::index_sequence<Is...>) { v.set((void(Is), T(1))...); }(std::make_index_sequence<N>{}); });
			writes("swizzle [] =", [&] { v.x[0] = T(1); });
			writes("swizzle set", [&] { v.x.set(T(1)); });
			writes("for =", [&] { for (auto &e : v) e = T(1); });
			if constexpr (!std::is_same_v<T, bool>)
			{
				writes("=", [&] { v = w; });
				writes("swizzle =", [&] { v.x = T(3); });
				writes("swizzle = vector", [&] { v.x = dsga::basic_vector<T, 1>(T(3)); });
				writes("+=", [&] { v += w; });
				writes("++", [&] { ++v; });
				writes("swizzle ++", [&] { v.x++; });
				if constexpr (N >= 2) writes("two-lane swizzle =", [&] { v.yx = dsga::basic_vector<T, 2>(T(3)); });
				if constexpr (N >= 2) writes("two-lane swizzle set", [&] { v.yx.set(T(1), T(2)); });
			}
			// either side of a swap
			auto more = std::make_unique<T[]>(N);
			for (std::size_t i = 0; i < N; ++i) more[i] = marker<T>(i + 20);
			dsga::basic_view<true, T, N> with(more.get()), none(static_cast<T *>(nullptr));
			writes("swap", [&] { v.swap(with); });
			writes("swap as the other", [&] { with.swap(v); });
			expect(ASSERTED, "swap with null", in, [&] { v.swap(none); }, same_now);
			expect(ASSERTED, "swap of null", in, [&] { none.swap(v); }, same_now);
		}
		// a swizzle object of its own
		dsga::indexed_view<M, T, N, 1, N - 1> alone(null ? nullptr : buf.get());
		way("lone swizzle", [&] { use(alone[0]); });
		alone.reset(null ? buf.get() : nullptr);
		expect(null ? FINE : ASSERTED, "lone swizzle after reset", in, [&] { use(alone[0]); }, same_now);
#else
		(void) want; (void) way; (void) cv;
#endif
	}
#if MODE == 0
	dsga::basic_view<M, T, N> empty;
	expect(ASSERTED, "default view", "", [&] { use(empty[0]); }, same_now);
	dsga::indexed_view<M, T, N, 1, 0> lone;
	expect(ASSERTED, "default swizzle", "", [&] { use(lone[0]); }, same_now);
	if constexpr (M)
	{
		dsga::view_vector<T, N> vv(w);
		vv.reset(static_cast<T *>(nullptr));
		expect(ASSERTED, "view_vector after a reset", "", [&] { use(vv[0]); }, same_now);
		vv.reset(buf.get());
		expect(FINE, "view_vector after another reset", "", [&] { use(vv[0]); }, same_now);
	}
#endif
}

template <std::size_t N>
void swaps(rng &r)
{
	R.section("swap/" + std::to_string(N) + "/" + tname<T>);
	for (int d = -5; d <= 5; ++d)
		for (int way = 0; way < 3; ++way)
		{
			auto buf = std::make_unique<std::array<T, 14>>();
			std::array<T, 14> before;
			for (std::size_t i = 0; i < 14; ++i) before[i] = (*buf)[i] = marker<T>(i + r.below(3));
			T *p = buf->data() + 5;
			dsga::basic_view<true, T, N> a(p), b(p + d);
			const bool overlap = d != 0 && std::abs(d) < static_cast<int>(N);
			auto same_now = [&] { return std::memcmp(buf->data(), before.data(), sizeof before) == 0; };
			auto in = "views " + std::to_string(d) + " lanes apart, way " + std::to_string(way);
			expect(overlap ? RANGE_ERROR : FINE, "swap", in, [&] { if (way == 0) a.swap(b); else if (way == 1) swap(a, b); else { auto &x = a; x.swap(b); } }, same_now);
			if (!overlap && d != 0)
				for (std::size_t i = 0; i < N; ++i) { std::swap(before[5 + i], before[static_cast<std::size_t>(5 + d) + i]); }
			if (!overlap && !same_now()) R.fail(R.sec + ":swap:result", "wrong lanes after a swap of " + in);
			if (a.as_base().data() != p || b.as_base().data() != p + d) R.fail(R.sec + ":swap:rebound", "a swap moved the views, " + in);
		}
}

template <std::size_t C, std::size_t W>
void matrices(rng &r)
{
	if constexpr (std::is_floating_point_v<T>)
	{
		R.section("matrix/" + std::to_string(C) + "x" + std::to_string(W) + "/" + tname<T>);
		auto from = std::make_unique<T[]>(C * W);
		for (std::size_t i = 0; i < C * W; ++i) from[i] = marker<T>(i + r.below(5));
		auto m = std::make_unique<dsga::basic_matrix<T, C, W>>(from.get());
		auto same_now = [&] { return std::memcmp(m.get(), from.get(), sizeof(T) * C * W) == 0; };
		R.check(same_now(), "pointer", "a matrix from a pointer has other elements");
		expect(INVALID_ARGUMENT, "null pointer", "", [&] { dsga::basic_matrix<T, C, W> z(static_cast<T *>(nullptr)); use(z); }, same_now);
		expect(INVALID_ARGUMENT, "null pointer to const", "", [&] { dsga::basic_matrix<T, C, W> z(static_cast<const T *>(nullptr)); use(z); }, same_now);
		expect(INVALID_ARGUMENT, "null pointer, new", "", [&] { auto z = std::make_unique<dsga::basic_matrix<T, C, W>>(static_cast<const T *>(nullptr)); use(z); }, same_now);
		expect(FINE, "pointer", "", [&] { dsga::basic_matrix<T, C, W> z(static_cast<const T *>(from.get())); use(z); }, same_now);
#if MODE == 0
		for_indexes<C == 3 && W == 3>(C, [&](auto i, long long means) {
			if constexpr (!std::is_same_v<decltype(i), small_index> && !std::is_same_v<decltype(i), bool>)
			{
				auto in = std::to_string(means) + " in " + std::to_string(sizeof(i)) + " bytes";
				const outcome col = means >= 0 && means < static_cast<long long>(C) ? FINE : ASSERTED;
				expect(col, "[]", in, [&] { use((*m)[i]); }, same_now);
				expect(col, "const []", in, [&] { use(std::as_const(*m)[i]); }, same_now);
				if (col != FINE) expect(col, "[] =", in, [&] { (*m)[i] = dsga::basic_vector<T, W>(T(1)); }, same_now);
			}
		});
		for_indexes<C == 3 && W == 3>(W, [&](auto i, long long means) {
			if constexpr (!std::is_same_v<decltype(i), small_index> && !std::is_same_v<decltype(i), bool>)
			{
				auto in = std::to_string(means) + " in " + std::to_string(sizeof(i)) + " bytes";
				const outcome row = means >= 0 && means < static_cast<long long>(W) ? FINE : ASSERTED;
				expect(row, "row", in, [&] { use(m->row(i)); }, same_now);
				expect(row, "const row", in, [&] { use(std::as_const(*m).row(i)); }, same_now);
				expect(row, "[][]", in, [&] { use((*m)[C - 1][i]); }, same_now);
			}
		});
#endif
	}
}

#if MODE == 0 && PART == 2

template <typename It>
void iterators_of(It b, It e, It other, std::size_t n, const char *what, callback<bool> same_now)
{
	const int N = static_cast<int>(n);
	for (int at = 0; at <= N; ++at)
	{
		int by = 0;
		auto in = std::string(what) + " at " + std::to_string(at);
		auto with = [&](bool good, const char *name, void (*f)(It &, int, It &, It &)) { expect(good ? FINE : ASSERTED, name, in, [&] { It i = b + at; f(i, by, e, other); }, same_now); };
		with(at < N, "*", [](It &i, int, It &, It &) { use(*i); });
		with(at < N, "->", [](It &i, int, It &, It &) { use(i.operator->()); });
		with(at < N, "++", [](It &i, int, It &, It &) { ++i; use(i); });
		with(at < N, "post ++", [](It &i, int, It &, It &) { use(i++); });
		with(at > 0, "--", [](It &i, int, It &, It &) { --i; use(i); });
		with(at > 0, "post --", [](It &i, int, It &, It &) { use(i--); });
		for (int d = -6; d <= 6; ++d)
		{
			by = d;
			in = std::string(what) + " at " + std::to_string(at) + " by " + std::to_string(d);
			const bool up = at + d >= 0 && at + d <= N, down = at - d >= 0 && at - d <= N;
			with(up, "+=", [](It &i, int d, It &, It &) { i += d; use(i); });
			with(up, "+", [](It &i, int d, It &, It &) { use(i + d); });
			with(up, "n +", [](It &i, int d, It &, It &) { use(d + i); });
			with(down, "-=", [](It &i, int d, It &, It &) { i -= d; use(i); });
			with(down, "-", [](It &i, int d, It &, It &) { use(i - d); });
			with(up && at + d < N, "[]", [](It &i, int d, It &, It &) { use(i[d]); });
		}
		in = std::string(what) + " at " + std::to_string(at);
		with(true, "compare", [](It &i, int, It &e, It &) { bool q = i == e; use(q); q = i <= e; use(q); int n2 = e - i; use(n2); });
		with(false, "== of another", [](It &i, int, It &, It &other) { bool q = i == other; use(q); });
		with(false, "< of another", [](It &i, int, It &, It &other) { bool q = i < other; use(q); });
		with(false, "- of another", [](It &i, int, It &, It &other) { auto q = i - other; use(q); });
	}
	expect(ASSERTED, "* of no iterator", what, [&] { It i{}; use(*i); }, same_now);
	expect(ASSERTED, "-> of no iterator", what, [&] { It i{}; use(i.operator->()); }, same_now);
	expect(ASSERTED, "[] of no iterator", what, [&] { It i{}; use(i[0]); }, same_now);
}

template <kind K, std::size_t N>
void iterators(rng &r)
{
	fixture<K, N> x(r), y(r);
	auto same_now = [&] { return x.same_as_before() && y.same_as_before(); };
	R.section(std::string("iterator/") + kname(K) + "/" + std::to_string(N) + "/" + tname<T>);
	auto &v = x.obj();
	auto &w = y.obj();
	if constexpr (K == Swz || K == VSwz) iterators_of(v.begin(), v.end(), w.begin(), N, "iterator", same_now);
	iterators_of(v.cbegin(), v.cend(), w.cbegin(), N, "const iterator", same_now);
	expect(ASSERTED, "past the reverse end", "", [&] { use(*v.crend()); }, same_now);
	expect(FINE, "last of reverse", "", [&] { use(*std::prev(v.crend())); }, same_now);
}

// a function or operator with a precondition on every lane: one bad lane anywhere is reported, none is not
template <kind K, std::size_t N>
void preconditions(rng &r)
{
	fixture<K, N> x(r);
	auto same_now = [&] { return x.same_as_before(); };
	auto &v = x.obj();
	using V = dsga::basic_vector<T, N>;
	auto put = [&](std::array<T, N> a) { x.a = a; x.h->load(a); };
	R.section(std::string("precondition/") + kname(K) + "/" + std::to_string(N) + "/" + tname<T>);
	for (std::size_t bad = 0; bad <= N; ++bad)
	{
		// bad == N: every lane is in order
		const outcome want = bad < N ? ASSERTED : FINE;
		auto in = "lane " + std::to_string(bad) + " of " + std::to_string(N);
		auto make = [&](T good, T wrong) { std::array<T, N> a; for (std::size_t i = 0; i < N; ++i) a[i] = i == bad ? wrong : good; return a; };
		auto vec = [&](T good, T wrong) { V w(good); if (bad < N) w[bad] = wrong; return w; };
		auto fit = [&](callback<void> f, const char *name) { expect(want, name, in, f, same_now); };
		if constexpr (std::is_integral_v<T> && !std::is_same_v<T, bool>)
		{
			const T n = static_cast<T>(r.below(50) + 1);
			put(make(static_cast<T>(n + 3), T(0)));
			// as the divisor
			fit([&] { use(V(T(90)) % v); }, "vector %");
			fit([&] { use(T(77) % v); }, "scalar %");
			fit([&] { V w(T(90)); w %= v; use(w); }, "vector %=");
			// as what is divided
			put(make(static_cast<T>(n + 20), static_cast<T>(n + 30)));
			const V by = vec(n, T(0));
			fit([&] { use(v % by); }, "% vector");
			if (bad < N)
			{
				expect(ASSERTED, "% 0", in, [&] { use(v % T(0)); }, same_now);
				expect(ASSERTED, "% one lane of 0", in, [&] { use(v % dsga::basic_vector<T, 1>(T(0))); }, same_now);
				expect(ASSERTED, "one lane % vector with 0", in, [&] { use(dsga::basic_vector<T, 1>(T(9)) % by); }, same_now);
				if constexpr (kwritable(K))
				{
					expect(ASSERTED, "%= vector", in, [&] { v %= by; }, same_now);
					expect(ASSERTED, "%= 0", in, [&] { v %= T(0); }, same_now);
					expect(ASSERTED, "%= one lane of 0", in, [&] { v %= dsga::basic_vector<T, 1>(T(0)); }, same_now);
				}
			}
			else
			{
				expect(FINE, "% n", in, [&] { use(v % n); }, same_now);
				expect(FINE, "% 1", in, [&] { use(v % T(1)); }, same_now);
				if constexpr (std::is_signed_v<T>) expect(FINE, "% -1", in, [&] { use(v % T(-1)); }, same_now);
				expect(FINE, "% one lane", in, [&] { use(v % dsga::basic_vector<T, 1>(n)); }, same_now);
				if constexpr (kwritable(K)) expect(FINE, "%=", in, [&] { v %= by; }, same_now);
				put(x.h->read());
			}
			if constexpr (std::is_signed_v<T>)
			{
				using lim = std::numeric_limits<T>;
				put(make(static_cast<T>(lim::min() + 1), lim::min()));
				fit([&] { use(dsga::abs(v)); }, "abs");
				if (bad < N) expect(ASSERTED, "scalar abs", in, [&] { use(dsga::abs(x.a[bad])); }, same_now);
				else expect(FINE, "scalar abs", in, [&] { use(dsga::abs(x.a[0])); }, same_now);
			}
		}
		if constexpr (!std::is_same_v<T, bool>)
		{
			const T lo = static_cast<T>(r.below(40)), hi = static_cast<T>(lo + static_cast<T>(r.below(3))), over = static_cast<T>(hi + 1);
			put(make(lo, over));
			fit([&] { use(dsga::clamp(V(T(5)), v, V(hi))); }, "clamp, lower bound");
			put(make(over, lo));
			const outcome upper = bad < N ? ASSERTED : FINE;
			expect(upper, "clamp, upper bound", in, [&] { use(dsga::clamp(V(T(5)), V(over), v)); }, same_now);
			expect(upper, "clamp by scalars", in, [&] { if (bad < N) use(dsga::clamp(v, over, lo)); else use(dsga::clamp(v, lo, lo)); }, same_now);
			expect(upper, "clamp of scalars", in, [&] { if (bad < N) use(dsga::clamp(T(3), over, hi)); else use(dsga::clamp(T(3), hi, over)); }, same_now);
		}
		if constexpr (std::is_floating_point_v<T>)
		{
			using lim = std::numeric_limits<T>;
			const T some = static_cast<T>(r.unit() * 8 + 0.25), tiny = r.coin() ? lim::denorm_min() : lim::min();
			// a negative base
			put(make(r.coin() ? some : tiny, r.coin() ? -some : -tiny));
			fit([&] { use(dsga::pow(v, V(T(1.5)))); }, "pow of a negative");
			if (bad < N) expect(ASSERTED, "scalar pow of a negative", in, [&] { use(dsga::pow(x.a[bad], T(2))); }, same_now);
			else expect(FINE, "scalar pow", in, [&] { use(dsga::pow(x.a[0], T(-2))); }, same_now);
			// zero to a power which is not positive; a bad lane may be either sign of zero
			put(make(some, r.coin() ? T(0) : T(-0.0)));
			fit([&] { use(dsga::pow(v, V(r.coin() ? T(0) : T(-1)))); }, "pow of zero");
			expect(FINE, "pow of zero to a positive power", in, [&] { use(dsga::pow(v, V(r.coin() ? tiny : T(2)))); }, same_now);
			put(make(r.coin() ? tiny : T(2), r.coin() ? T(0) : -some));
			fit([&] { use(dsga::pow(V(T(0)), v)); }, "pow, the power");
			expect(FINE, "pow of a positive", in, [&] { use(dsga::pow(V(some), v)); }, same_now);
			if (bad < N) expect(ASSERTED, "scalar pow of zero", in, [&] { use(dsga::pow(T(0), x.a[bad])); }, same_now);
			// edges
			const T next = std::nextafter(some, T(100));
			put(make(some, r.coin() ? next : std::nextafter(next, T(100))));
			fit([&] { use(dsga::smoothstep(v, V(next), V(T(1)))); }, "smoothstep, lower edge");
			put(make(next, r.coin() ? some : std::nextafter(some, T(0))));
			fit([&] { use(dsga::smoothstep(V(some), v, V(T(1)))); }, "smoothstep, upper edge");
			expect(want, "smoothstep, scalar edges", in, [&] { if (bad < N) use(dsga::smoothstep(next, r.coin() ? some : next, v)); else use(dsga::smoothstep(some, next, v)); }, same_now);
			expect(want, "smoothstep of scalars", in, [&] { const auto one = x.a[0] * 0 + 1; if (bad < N) use(dsga::smoothstep(some, some, one)); else use(dsga::smoothstep(some, next, one)); }, same_now);
			// nothing else here has a precondition
			put(make(-some, lim::infinity()));
			expect(FINE, "abs, sqrt, log, min, max, mix, step, mod", in, [&] {
				use(dsga::abs(v)); use(dsga::sqrt(v)); use(dsga::log(v)); use(dsga::min(v, V(some))); use(dsga::max(v, some)); use(dsga::mix(v, V(some), T(2))); use(dsga::step(V(some), v)); use(dsga::mod(v, T(0)));
				use(dsga::inversesqrt(v)); use(v.min()); use(v / T(0)); use(v.shift(INT_MIN)); use(v.cshift(INT_MAX)); }, same_now);
		}
	}
}

#endif

int main(int argc, char **argv)
{
	R.start(argc, argv);
	rng r(R.seed);
	for (u64 c = 0; c < R.cases; ++c)
	{
		R.cur_case = c;
		for_sizes([&](auto nn) {
			constexpr std::size_t N = nn;
			for_kinds<Vec, CVec, Swz, View, CView, VSwz, CVSwz, VV, SwzA, SwzD, VSwzA, VSwzD>([&](auto kk) {
#if PART == 0
				indexing<kk, N>(r);
#endif
#if MODE == 0 && PART == 2
				preconditions<kk, N>(r);
				if constexpr (kk == Swz || kk == VSwz || kk == CVSwz) iterators<kk, N>(r);
#endif
			});
#if PART == 1
			null_views<View, N>(r);
			null_views<CView, N>(r);
			swaps<N>(r);
			if constexpr (N >= 2) { matrices<N, 2>(r); matrices<N, 3>(r); matrices<N, 4>(r); }
#endif
		});
		if (c == 0) R.sample("every documented precondition broken in each lane or argument in turn, and kept at its boundary");
	}
	return R.finish();
}
