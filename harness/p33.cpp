// P33: the span, slice and valarray helpers (examples/) address exactly the lanes they are asked for.
//   ELEM element type
#include <cassert>
#include <csetjmp>
#include <stdexcept>
#include <memory>
#include <span>
#include "kinds.hpp"
#include "slice.hxx"
#include "span_convert.hxx"
#include "valarray_convert.hxx"
using namespace mon;
using T = ELEM;

// a failed assertion is one of the ways to refuse a slice
static sigjmp_buf back;
static bool armed = false;
extern "C" void __assert_fail(const char *what, const char *file, unsigned line, const char *function) noexcept
{
	if (!armed) { std::fprintf(stderr, "%s:%u: %s: Assertion `%s' failed.\n", file, line, function, what); std::abort(); }
	siglongjmp(back, 1);
}

template <typename F>
__attribute__((noinline)) bool refuses(F &&f)
{
	volatile bool refused = true;
	if (sigsetjmp(back, 0) == 0)
	{
		armed = true;
		try { f(); refused = false; }
		catch (const std::out_of_range &) {}
	}
	armed = false;
	return refused;
}

template <std::size_t N, typename E = T>
std::array<E, N> values(rng &r) { return arr<E, N>([&] { return gen<E>(r); }); }

template <std::size_t N, typename E>
bool same_lanes(const std::array<E, N> &a, const E *p)
{
	for (std::size_t i = 0; i < N; ++i) if (!same(a[i], p[i])) return false;
	return true;
}

// ------------------------------------------------------------------------------------------------------------------ slices

// slice<L>(x, off) for a holder of N lanes: refused, or a view of exactly the lanes off .. off + L - 1
template <std::size_t L, bool W, typename H, typename V, std::size_t N>
void slice_of(rng &r, H &h, V &v, const std::array<T, N> &a)
{
	const std::size_t extreme[] = { N - L, N - L + 1, N, N + 1, std::numeric_limits<std::size_t>::max(), std::numeric_limits<std::size_t>::max() - L + 1, std::numeric_limits<std::size_t>::max() / sizeof(T) + 1 };
	const std::size_t off = r.below(3) ? r.below(N - L + 1) : extreme[r.below(std::size(extreme))];
	const bool legal = off <= N - L;
	R.saw(mix(hash_arr(a), off * 16 + L * 4 + W));
	const std::string in = "slice<" + std::to_string(L) + ">(" + show(a) + ", " + std::to_string(off) + ")";
	using S = decltype(dsga::slice<L>(v, off));
	static_assert(std::is_same_v<S, dsga::basic_view<W, T, L>>, "a slice is a view which may write exactly when its source may");
	if (legal)
	{
		auto s = dsga::slice<L>(v, off);
		auto g = lanes(s);
		if (!same_lanes(g, a.data() + off)) R.fail(R.sec + ":read", in + " shows " + show(g));
		R.check(&s[0] == h.raw() + off, "address", in + " is not a view of its source");
		if constexpr (W)
		{
			auto x = values<L>(r);
			if (r.coin() || std::is_same_v<T, bool>) { for (std::size_t i = 0; i < L; ++i) s[i] = x[i]; }
			else if constexpr (requires (dsga::basic_vector<T, L> y) { s = y; }) { dsga::basic_vector<T, L> y{}; std::memcpy(&y, x.data(), sizeof x); s = y; }
			auto want = a;
			std::copy(x.begin(), x.end(), want.begin() + off);
			if (!same_lanes(h.read(), want.data()) || !h.guards()) R.fail(R.sec + ":write", in + " written with " + show(x) + " gives " + show(h.read()));
			h.load(a);
		}
	}
	else
	{
		const bool threw = refuses([&] { (void)dsga::slice<L>(v, off); });
		R.check(threw, "range", in + " was not refused");
	}
	if (!same_lanes(h.read(), a.data()) || !h.guards()) R.fail(R.sec + ":source", in + " changed its source");
}

template <std::size_t N, kind K>
void slices(rng &r)
{
	auto a = values<N>(r);
	holder<K, T, N> h(a);
	[&]<std::size_t ...L>(std::index_sequence<L...>) {
		(slice_of<L + 1, K == Vec || K == View || K == VV>(r, h, h.obj(), a), ...);
		(slice_of<L + 1, false>(r, h, std::as_const(h.obj()), a), ...);
	}(std::make_index_sequence<N>{});
	// a slice of a slice
	if constexpr (N >= 3)
	{
		auto s = dsga::slice<N - 1>(h.obj(), 1);
		auto t = dsga::slice<N - 2>(s, 1);
		R.check(&t[0] == h.raw() + 2 && same(t[0], a[2]), "slice of a slice", "a slice of a slice is misplaced in " + show(a));
	}
	using H = std::remove_reference_t<decltype(h.obj())>;
	static_assert(!requires (H &&x) { dsga::slice<1>(std::move(x), 0); } || std::is_const_v<H>, "a temporary cannot be sliced");
}

// ------------------------------------------------------------------------------------------------------------------- spans

// exactly allocated, so that an access outside is seen
template <typename E>
struct block
{
	std::unique_ptr<E[]> p;
	std::size_t n;
	explicit block(std::size_t c) : p(new E[c]{}), n(c) {}
	block(const block &o) : block(o.n) { std::copy_n(o.p.get(), n, p.get()); }
	E *data() { return p.get(); }
	E *begin() { return p.get(); }
	E *end() { return p.get() + n; }
	std::size_t size() const { return n; }
	E &operator [](std::size_t i) { return p[i]; }
	const E &operator [](std::size_t i) const { return p[i]; }
};

// a value of X which converts to Y
template <typename X, typename Y>
X convertible(rng &r)
{
	if constexpr (std::is_same_v<X, Y> || std::is_integral_v<X>) return gen<X>(r);
	else if constexpr (std::is_floating_point_v<Y>)
	{
		X x;
		do x = gen<X>(r); while (std::isfinite(x) && std::fabs(x) > std::numeric_limits<Y>::max());
		return x;
	}
	else return static_cast<X>(r.range(0, 100)) + (r.coin() ? X(0.5) : X(0));
}

template <std::size_t N, typename E, std::size_t M>
void copies(rng &r)
{
	block<E> src(M);
	for (auto &e : src) e = convertible<E, T>(r);
	const block<E> src0 = src;
	auto a = values<N>(r);
	if constexpr (!std::is_same_v<E, T>) for (auto &e : a) e = convertible<T, E>(r);
	auto judge_to = [&](const char *how, auto &&copy) {
		holder<Vec, T, N> h(a);
		copy(h.s.v);
		auto want = a;
		for (std::size_t i = 0; i < std::min(N, M); ++i) want[i] = static_cast<T>(src0[i]);
		R.saw(mix(hash_arr(want), hash_str(how) + M));
		if (!same_lanes(h.read(), want.data()) || !h.guards()) R.fail(R.sec + ":" + how, std::string(how) + " of " + std::to_string(M) + " elements gives " + show(h.read()) + " want " + show(want));
		for (std::size_t i = 0; i < M; ++i) if (!same(src[i], src0[i])) R.fail(R.sec + ":" + how, std::string(how) + " changed its source");
	};
	auto judge_from = [&](const char *how, auto &&copy) {
		holder<CVec, T, N> h(a);
		block<E> dst(src0);
		copy(dst, h.obj());
		block<E> want(src0);
		for (std::size_t i = 0; i < std::min(N, M); ++i) want[i] = static_cast<E>(a[i]);
		R.saw(mix(hash_arr(a), hash_str(how) + M));
		for (std::size_t i = 0; i < M; ++i) if (!same(dst[i], want[i])) { R.fail(R.sec + ":" + how, std::string(how) + " into " + std::to_string(M) + " elements gives " + show(dst[i]) + " at " + std::to_string(i) + " for " + show(a)); break; }
		if (!same_lanes(h.read(), a.data()) || !h.guards()) R.fail(R.sec + ":" + how, std::string(how) + " changed its source");
	};
	if constexpr (!std::is_same_v<E, bool>)
	{
		judge_to("copy_to_vector(span)", [&](auto &v) { copy_to_vector(v, std::span<E>(src.data(), M)); });
		judge_to("copy_to_vector(const span)", [&](auto &v) { copy_to_vector(v, std::span<const E>(src.data(), M)); });
		judge_from("copy_from_vector(span)", [&](auto &d, auto &v) { copy_from_vector(std::span<E>(d.data(), M), v); });
		if constexpr (M > 0)
		{
			judge_to("copy_to_vector(sized span)", [&](auto &v) { copy_to_vector(v, std::span<E, M>(src.data(), M)); });
			judge_to("copy_to_vector(const sized span)", [&](auto &v) { copy_to_vector(v, std::span<const E, M>(src.data(), M)); });
			judge_from("copy_from_vector(sized span)", [&](auto &d, auto &v) { copy_from_vector(std::span<E, M>(d.data(), M), v); });
		}
	}
	judge_to("copy_to_vector(valarray)", [&](auto &v) { std::valarray<E> x(M); for (std::size_t i = 0; i < M; ++i) x[i] = src[i]; copy_to_vector(v, x); });
	judge_from("copy_from_vector(valarray)", [&](auto &d, auto &v) { std::valarray<E> x(M); for (std::size_t i = 0; i < M; ++i) x[i] = d[i]; copy_from_vector(x, v); for (std::size_t i = 0; i < M; ++i) d[i] = x[i]; });
}

template <std::size_t N>
void spans(rng &r)
{
	auto a = values<N>(r);
	holder<Vec, T, N> h(a);
	auto &v = h.s.v;
	auto s = make_span(v);
	auto c = make_span(std::as_const(v));
	auto k = make_const_span(v);
	static_assert(std::is_same_v<decltype(s), std::span<T, N>> && std::is_same_v<decltype(c), std::span<const T, N>> && std::is_same_v<decltype(k), std::span<const T, N>>);
	R.saw(hash_arr(a));
	R.check(s.data() == h.raw() && c.data() == h.raw() && k.data() == h.raw(), "span address", "a span is not a view of its vector");
	bool ok = true;
	for (std::size_t i = 0; i < N; ++i) ok = ok && same(s[i], a[i]) && same(c[i], a[i]) && same(k[i], a[i]);
	R.check(ok, "span lanes", "a span shows other lanes than " + show(a));
	auto x = values<N>(r);
	for (std::size_t i = 0; i < N; ++i) s[i] = x[i];
	R.check(same_lanes(h.read(), x.data()) && h.guards(), "span write", "writing through a span gives " + show(h.read()) + " want " + show(x));
	auto va = to_valarray(std::as_const(v));
	static_assert(std::is_same_v<decltype(va), std::valarray<T>>);
	ok = va.size() == N;
	for (std::size_t i = 0; ok && i < N; ++i) ok = same(va[i], x[i]);
	R.check(ok, "to_valarray", "to_valarray loses lanes of " + show(x));
	// picking lanes out of a span
	std::unique_ptr<T[]> buf(new T[N]);
	std::copy(x.begin(), x.end(), buf.get());
	auto pick = [&]<std::size_t ...I>(std::index_sequence<I...> idx) {
		constexpr std::size_t M = sizeof...(I);
		std::array<T, M> want{ x[I]... };
		auto p = make_vector(std::span<T, N>(buf.get(), N), idx);
		auto q = make_vector(std::span<const T, N>(buf.get(), N), idx);
		static_assert(std::is_same_v<decltype(p), dsga::basic_vector<T, M>> && std::is_same_v<decltype(q), dsga::basic_vector<T, M>>);
		R.saw(mix(hash_arr(want), M));
		R.check(same_lanes(want, p.data()) && same_lanes(want, q.data()), "make_vector", "make_vector gives other lanes than " + show(want));
	};
	pick(std::make_index_sequence<N>{});
	pick(std::index_sequence<N - 1>{});
	pick(std::index_sequence<N - 1, 0>{});
	pick(std::index_sequence<0, N - 1, N / 2>{});
	pick(std::index_sequence<N - 1, N / 2, N - 1, 0>{});
	using V = dsga::basic_vector<T, N>;
	static_assert(!requires { make_span(V{}); } && !requires { make_const_span(V{}); });
	static_assert(!requires (std::span<T, N> z) { make_vector(z, std::index_sequence<N>{}); }, "an index outside the span is rejected");
}

template <std::size_t C, std::size_t Rw>
void matrices(rng &r)
{
	if constexpr (dsga::floating_point_scalar<T>)
	{
		auto a = values<C * Rw>(r);
		using M = dsga::basic_matrix<T, C, Rw>;
		using Col = dsga::basic_vector<T, Rw>;
		M m;
		std::memcpy(&m, a.data(), sizeof a);
		auto s = make_span(m);
		auto c = make_span(std::as_const(m));
		auto k = make_const_span(m);
		static_assert(std::is_same_v<decltype(s), std::span<Col, C>> && std::is_same_v<decltype(c), std::span<const Col, C>> && std::is_same_v<decltype(k), std::span<const Col, C>>);
		R.saw(mix(hash_arr(a), C * 5 + Rw));
		R.check(static_cast<void *>(s.data()) == &m && static_cast<const void *>(c.data()) == &m && static_cast<const void *>(k.data()) == &m, "matrix span address", "a span is not a view of its matrix");
		bool ok = true;
		for (std::size_t i = 0; i < C; ++i)
			for (std::size_t j = 0; j < Rw; ++j) ok = ok && same(s[i][j], a[i * Rw + j]) && same(c[i][j], a[i * Rw + j]) && same(k[i][j], a[i * Rw + j]);
		R.check(ok, "matrix span columns", "a span shows other columns than the matrix " + show(a));
		const std::size_t i = r.below(C), j = r.below(Rw);
		s[i][j] = a[i * Rw + j] = gen<T>(r);
		R.check(std::equal(a.begin(), a.end(), reinterpret_cast<T *>(&m), [](T p, T q) { return same(p, q); }), "matrix span write", "a write through a span of columns goes astray");
		std::unique_ptr<T[]> buf(new T[C * Rw + 1]);
		std::copy(a.begin(), a.end(), buf.get());
		auto p = make_matrix<C, Rw>(std::span<T, C * Rw>(buf.get(), C * Rw));
		auto q = make_matrix<C, Rw>(std::span<const T, C * Rw + 1>(buf.get(), C * Rw + 1));
		static_assert(std::is_same_v<decltype(p), M> && std::is_same_v<decltype(q), M>);
		R.check(std::equal(a.begin(), a.end(), reinterpret_cast<T *>(&p), [](T x, T y) { return same(x, y); }) && std::equal(a.begin(), a.end(), reinterpret_cast<T *>(&q), [](T x, T y) { return same(x, y); }), "make_matrix", "make_matrix gives other elements than " + show(a));
		static_assert(!requires (std::span<T, C * Rw - 1> z) { make_matrix<C, Rw>(z); } && !requires { make_span(M{}); });
	}
}

int main(int argc, char **argv)
{
	R.start(argc, argv);
	rng r(R.seed);
	for (R.cur_case = 0; R.cur_case < R.cases; ++R.cur_case)
		for_sizes([&](auto n) {
			constexpr std::size_t N = n;
			const std::string w = std::string("/") + tname<T> + "/" + std::to_string(N);
			R.section("slice/vec" + w); slices<N, Vec>(r); slices<N, CVec>(r);
			R.section("slice/view" + w); slices<N, View>(r); slices<N, CView>(r);
			R.section("slice/view_vector" + w); slices<N, VV>(r);
			R.section("span" + w); spans<N>(r);
			R.section("copy" + w);
			copies<N, T, 0>(r); copies<N, T, 1>(r); copies<N, T, 2>(r); copies<N, T, 3>(r); copies<N, T, 4>(r); copies<N, T, 6>(r);
			if constexpr (!std::is_same_v<T, bool>) { copies<N, int, 3>(r); copies<N, double, 5>(r); }
			if constexpr (N > 1) { R.section("matrix" + w); matrices<N, 2>(r); matrices<N, 3>(r); matrices<N, 4>(r); }
		});
	return R.finish();
}
