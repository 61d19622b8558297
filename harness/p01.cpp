// P01: reading through a named swizzle gives exactly the lanes its name spells, in that order.
// Every name (340) of every size, on vectors, constant vectors, views, views of constants and view-backed vectors.
//   WHAT 0..2  every name by index and conversion (vectors / views / views of constants)
//   WHAT 3     a choice of names by every way of reading there is
#include "kinds.hpp"
#include "swz_names.inc"
using namespace mon;

#ifndef ELEM
#define ELEM float
#endif
using T = ELEM;

using A4 = std::array<T, 4>;

// not templates: what is judged is the same for every name
__attribute__((noinline)) void expect(const A4 &got, const A4 &want, std::size_t n, const char *name, const char *how)
{
	for (std::size_t i = 0; i < n; ++i)
		if (!same(got[i], want[i]))
		{
			R.fail(R.sec + ":" + name + ":" + how, std::string("read of .") + name + " gives " + show(got) + " want " + show(want) + " (first " + std::to_string(n) + " lanes)");
			return;
		}
}

__attribute__((noinline)) void expect_count(std::size_t k, std::size_t n, const char *name, const char *how)
{
	if (k != n)
		R.fail(R.sec + ":" + name + ":" + how, std::string(".") + name + " has " + std::to_string(k) + " lanes, not " + std::to_string(n));
}

template <typename S>
A4 dsga_to_array4(const S &s)
{
	auto a = dsga::to_array(s);
	A4 o{};
	for (std::size_t i = 0; i < a.size() && i < 4; ++i)
		o[i] = a[i];
	return o;
}

template <std::size_t N, typename S, std::size_t ...Is>
__attribute__((noinline)) void read_swizzle(const S &s, const T *base, std::index_sequence<Is...>, const char *name)
{
	const A4 want{ base[Is]... };
	A4 got{};
	for (std::size_t i = 0; i < N; ++i) got[i] = s[i];
	expect(got, want, N, name, "index");
	R.saw(mix(hash_str(name), hash_arr(want)));
	expect_count(static_cast<std::size_t>(s.length()), N, name, "length");
	expect_count(s.size(), N, name, "size");

#if WHAT == 3
	got = {};
	std::size_t k = 0;
	for (auto v : s) { if (k < N) got[k] = v; ++k; }
	expect_count(k, N, name, "range-for-count");
	expect(got, want, N, name, "range-for");

	got = {};
	k = 0;
	for (auto it = s.rbegin(); it != s.rend(); ++it) { if (k < N) got[N - 1 - k] = *it; ++k; }
	expect_count(k, N, name, "reverse-count");
	expect(got, want, N, name, "reverse");

	got = {};
	dsga::basic_vector<T, N> v(s);
	std::memcpy(got.data(), &v, sizeof v);
	expect(got, want, N, name, "vector");

	// physical pointer and logical sequence together
	const T *p = s.data();
	got = [&]<std::size_t ...Js>(std::index_sequence<Js...>) { return A4{ p[Js]... }; }(s.sequence());
	expect(got, want, N, name, "data-sequence");

	got = dsga_to_array4(s);
	expect(got, want, N, name, "to_array");
	got = {};
	k = 0;
	for (auto it = s.cbegin(); it != s.cend(); ++it) { if (k < N) got[k] = *it; ++k; }
	expect_count(k, N, name, "cbegin-count");
	expect(got, want, N, name, "cbegin");

	got = {};
	k = 0;
	for (auto it = s.crbegin(); it != s.crend(); ++it) { if (k < N) got[N - 1 - k] = *it; ++k; }
	expect_count(k, N, name, "crbegin-count");
	expect(got, want, N, name, "crbegin");

	got = {};
	for (std::size_t i = 0; i < N; ++i) got[i] = s.begin()[static_cast<std::ptrdiff_t>(i)];
	expect(got, want, N, name, "iterator-index");

	got = [&]<std::size_t ...Js>(std::index_sequence<Js...>) { return A4{ dsga::get<Js>(s)... }; }(std::make_index_sequence<N>{});
	expect(got, want, N, name, "get");

	// as generic code sees it
	got = {};
	const auto &b = s.as_base();
	for (std::size_t i = 0; i < N; ++i) got[i] = b[i];
	expect(got, want, N, name, "base-index");
	expect_count(static_cast<std::size_t>(b.length()), N, name, "base-length");

	if constexpr (N == 1)
	{
		// explicit conversions, of values which the other type has
		auto conv = [&]<typename U>(type_c<U>, const char *how) {
			bool fits = true;
			if constexpr (std::is_floating_point_v<T>) fits = std::is_same_v<U, bool> || (std::is_floating_point_v<U> ? !(std::fabs(want[0]) > std::numeric_limits<float>::max()) : want[0] > T(std::is_signed_v<U> ? -1e6 : -0.5) && want[0] < T(1e6));
			if (!fits) return;
			const U g = static_cast<U>(s), w = static_cast<U>(want[0]);
			if (!same(g, w)) R.fail(R.sec + ":" + name + ":" + how, std::string(how) + " of ." + name + " gives " + show(g) + " want " + show(w) + " of " + show(want[0]));
			const U h(s);
			if (!same(h, w)) R.fail(R.sec + ":" + name + ":" + how, std::string("construction with ") + how + " of ." + name + " gives " + show(h) + " want " + show(w) + " of " + show(want[0]));
		};
		conv(type_c<bool>{}, "conversion to bool");
		conv(type_c<int>{}, "conversion to int");
		conv(type_c<unsigned>{}, "conversion to unsigned");
		conv(type_c<long long>{}, "conversion to long long");
		conv(type_c<unsigned long long>{}, "conversion to unsigned long long");
		conv(type_c<float>{}, "conversion to float");
		conv(type_c<double>{}, "conversion to double");
	}
#endif

	if constexpr (N == 1)
	{
		T x = s;
		got[0] = x;
		expect(got, want, 1, name, "scalar");
	}
}

#define ONE(name, count, ...) read_swizzle<count>(o.name, base, std::index_sequence<__VA_ARGS__>{}, #name);

#if WHAT == 3
#define CHOICE_1(X) SWZ_1(X)
#define CHOICE_2(X) SWZ_2_1(X) SWZ_2_2(X) X(yxy, 3, 1, 0, 1) X(xxyx, 4, 0, 0, 1, 0) X(yyxy, 4, 1, 1, 0, 1)
#define CHOICE_3(X) SWZ_3_1(X) X(zx, 2, 2, 0) X(yz, 2, 1, 2) X(zz, 2, 2, 2) X(zxy, 3, 2, 0, 1) X(xzx, 3, 0, 2, 0) X(zyxz, 4, 2, 1, 0, 2) X(yyzx, 4, 1, 1, 2, 0)
#define CHOICE_4(X) SWZ_4_1(X) X(wx, 2, 3, 0) X(yw, 2, 1, 3) X(ww, 2, 3, 3) X(zxw, 3, 2, 0, 3) X(wyw, 3, 3, 1, 3) X(wzyx, 4, 3, 2, 1, 0) X(yxwz, 4, 1, 0, 3, 2) X(xyzw, 4, 0, 1, 2, 3) X(wwzy, 4, 3, 3, 2, 1)
#else
#define CHOICE_1(X) SWZ_1(X)
#define CHOICE_2(X) SWZ_2(X)
#define CHOICE_3(X) SWZ_3(X)
#define CHOICE_4(X) SWZ_4(X)
#endif

template <std::size_t Size, typename O>
__attribute__((noinline)) void read_all(O &o, const T *base)
{
	if constexpr (Size == 1) { CHOICE_1(ONE) }
	else if constexpr (Size == 2) { CHOICE_2(ONE) }
	else if constexpr (Size == 3) { CHOICE_3(ONE) }
	else { CHOICE_4(ONE) }
}

template <std::size_t Size>
void run_size()
{
	rng r(R.seed * 977 + Size);
	for (u64 c = 0; c < R.cases; ++c)
	{
		R.cur_case = c;
		std::array<T, Size> a;
		for (std::size_t i = 0; i < Size; ++i)
			a[i] = c == 0 ? marker<T>(i) : gen<T>(r);
		if constexpr (std::is_same_v<T, bool>)
			for (std::size_t i = 0; i < Size; ++i)
				a[i] = (c >> i) & 1;

		holder<Vec, T, Size> hv(a);
		holder<View, T, Size> hw(a);
		holder<CView, T, Size> hc(a);
		holder<VV, T, Size> hb(a);
		auto &v = hv.s.v; const auto &cv = hv.s.v; auto &w = hw.s.v; const auto &cw = hw.s.v; auto &k = hc.s.v; auto &b = hb.s.v;
		std::string sz = std::to_string(Size);

#if WHAT == 0 || WHAT == 3
		R.section("vec" + sz); read_all<Size>(v, a.data());
		R.section("constvec" + sz); read_all<Size>(cv, a.data());
#endif
#if WHAT == 1 || WHAT == 3
		R.section("view" + sz); read_all<Size>(w, a.data());
		R.section("constview" + sz); read_all<Size>(cw, a.data());
		R.section("view_vector" + sz); read_all<Size>(b, a.data());
#endif
#if WHAT == 2 || WHAT == 3
		R.section("cview" + sz); read_all<Size>(k, a.data());
		(void) cw;
#endif
		(void) v; (void) cv; (void) w; (void) cw; (void) k; (void) b;
		// reading is only reading
		for (std::size_t i = 0; i < Size; ++i)
		{
			R.check(same(hv.read()[i], a[i]) && same(hw.read()[i], a[i]) && same(hc.read()[i], a[i]) && same(hb.read()[i], a[i]), "unchanged", "reading changed a lane");
		}
		R.check(hv.guards() && hw.guards() && hc.guards() && hb.guards(), "guards", "reading changed memory around the vector");
		if (c == 1)
			R.sample(std::string("size ") + sz + " " + tname<T> + " base " + show(a) + ": .x .xx ... all names");
	}
}

int main(int argc, char **argv)
{
	R.start(argc, argv);
	run_size<1>();
	run_size<2>();
	run_size<3>();
	run_size<4>();
	return R.finish();
}
