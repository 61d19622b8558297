// P38: through a reference to their common base, which generic code is written for, objects are what they are.
//   WHAT 0: members, iterators, writes, conversions    WHAT 1, 2, 3: functions of that many operands    ELEM element type    SLICE i of SLICES of the functions
#include "funcs.hpp"
#include "ops.hpp"
#include <algorithm>
#include <numeric>
#include <ranges>
#include <vector>
using namespace mon;
using T = ELEM;
#ifndef SLICES
#define SLICES 1
#define SLICE 0
#endif

constexpr kind KS[] = { Vec, CVec, Swz, View, CView, VSwz, CVSwz, VV, SwzD, VSwzA };
constexpr std::size_t NK = std::size(KS);
constexpr bool is_flt = std::is_floating_point_v<T>;
constexpr bool is_num = !std::is_same_v<T, bool>;

// what generic code sees of an argument
template <bool W, typename U, std::size_t C, typename D> constexpr auto &base(dsga::vector_base<W, U, C, D> &b) { return b; }
template <bool W, typename U, std::size_t C, typename D> constexpr const auto &base(const dsga::vector_base<W, U, C, D> &b) { return b; }
template <bool W, typename U, std::size_t C, typename D> constexpr const auto &cbase(const dsga::vector_base<W, U, C, D> &b) { return b; }
template <bool W, typename U, std::size_t C, typename D> constexpr bool writable_base(const dsga::vector_base<W, U, C, D> &) { return W; }

inline std::string text_;
inline u64 now_;
__attribute__((noinline)) void is(const char *what, bool ok)
{
	R.saw(mix(now_, hash_str(what)));
	if (!ok) R.fail(R.sec + ":" + what, std::string(what) + " does not hold; lanes " + text_);
}

T value(rng &r)
{
	if constexpr (!is_num) return r.coin();
	else if constexpr (is_flt) return r.below(3) == 0 ? static_cast<T>(r.range(-3, 3)) : r.below(4) ? gen_mod<T>(r) : gen<T>(r);
	else { T v; do v = gen_mod<T>(r, T(30)); while (v == 0); return v; }
}

template <typename X, std::size_t N>
bool eq(const std::array<X, N> &a, const std::array<X, N> &b)
{
	for (std::size_t i = 0; i < N; ++i) if (!same(a[i], b[i])) return false;
	return true;
}
// the lanes of anything with lanes, by memory where it is a plain vector
template <std::size_t N, typename V> auto got(const V &v)
{
	using X = std::remove_cvref_t<decltype(v[0])>;
	std::array<X, N> a{};
	for (std::size_t i = 0; i < N; ++i) a[i] = v[i];
	return a;
}

#if WHAT == 0
template <typename B> T plus_three(B x) { if constexpr (!is_num) return !x; else return static_cast<T>(x + T(3)); }

// generic functions as programs write them: they know nothing of what they are given
template <bool W, typename U, std::size_t C, typename D>
U total(const dsga::vector_base<W, U, C, D> &v) { U s{}; for (const auto &x : v) s = static_cast<U>(s + x); return s; }
template <bool W, typename U, std::size_t C, typename D>
void turn(dsga::vector_base<W, U, C, D> &v) requires W { std::reverse(v.begin(), v.end()); }
template <bool W, typename U, std::size_t C, typename D>
void order(dsga::vector_base<W, U, C, D> &v) requires W { std::sort(v.begin(), v.end()); }

template <kind K, std::size_t N>
__attribute__((noinline)) void reads(rng &r)
{
	using A = std::array<T, N>;
	A in;
	for (auto &x : in) x = value(r);
	text_ = show(in); now_ = hash_arr(in);
	holder<K, T, N> h(in);
	auto &o = h.obj();
	const auto &co = std::as_const(o);
	auto &b = base(o);
	const auto &cb = cbase(co);
	using O = std::remove_cvref_t<decltype(o)>;
	// a view_vector is a view to generic code
	using D = std::remove_cvref_t<decltype(cb.as_derived())>;
	is("as_derived is the object", static_cast<const void *>(&cb.as_derived()) == static_cast<const void *>(&co) && std::is_base_of_v<D, O>);
	is("as_base", static_cast<const void *>(&co.as_base()) == static_cast<const void *>(&cb) && static_cast<const void *>(&cb.as_base()) == static_cast<const void *>(&cb));
	is("type of as_derived is constant", std::is_const_v<std::remove_reference_t<decltype(cb.as_derived())>>);
	is("size, length", cb.size() == N && cb.length() == static_cast<int>(N) && cb.size == N && std::remove_cvref_t<decltype(cb)>::size() == N);
	bool ok = true;
	for (std::size_t i = 0; i < N; ++i)
	{
		ok = ok && &cb[i] == h.raw() + h.lane(i) && same(cb[i], in[i]) && &cb[static_cast<int>(i)] == &co[i] && &b[static_cast<unsigned char>(i)] == &cb[i];
	}
	is("[]", ok);
	constexpr auto seq = []<std::size_t ...I>(std::index_sequence<I...>) { return std::array<std::size_t, sizeof...(I)>{ I... }; };
	const auto s = seq(cb.sequence());
	ok = s.size() == N;
	for (std::size_t i = 0; i < N; ++i) ok = ok && s[i] == h.lane(i) && cb.data() + s[i] == &cb[i];
	is("data, sequence", ok && cb.data() == h.raw() && cb.data() == co.data() && b.data() == h.raw());
	is("types of constant access", std::is_same_v<decltype(cb.data()), const T *> && std::is_same_v<decltype(cb[0]), const T &> && std::is_same_v<decltype(*cb.begin()), const T &> && std::is_same_v<decltype(*cb.rbegin()), const T &>);

	// iterators
	const auto collect = [](auto first, auto last) { std::vector<const T *> v; for (; first != last; ++first) v.push_back(&*first); return v; };
	std::vector<const T *> fwd, rev;
	for (std::size_t i = 0; i < N; ++i) fwd.push_back(h.raw() + h.lane(i));
	rev.assign(fwd.rbegin(), fwd.rend());
	is("begin, end", collect(cb.begin(), cb.end()) == fwd && collect(b.begin(), b.end()) == fwd);
	is("cbegin, cend", collect(cb.cbegin(), cb.cend()) == fwd && collect(b.cbegin(), b.cend()) == fwd);
	is("rbegin, rend", collect(cb.rbegin(), cb.rend()) == rev && collect(b.rbegin(), b.rend()) == rev);
	is("crbegin, crend", collect(cb.crbegin(), cb.crend()) == rev && collect(b.crbegin(), b.crend()) == rev);
	is("distances", cb.end() - cb.begin() == static_cast<int>(N) && cb.rend() - cb.rbegin() == static_cast<int>(N) && b.cend() - b.cbegin() == static_cast<int>(N) && std::ranges::size(cb) == N && std::ranges::distance(cb) == static_cast<int>(N));
	is("iterators of the base are those of the object", cb.begin() == co.begin() && cb.end() == co.end() && b.begin() == o.begin() && b.end() == o.end() && cb.rbegin() == co.rbegin() && cb.crend() == co.crend()
		&& std::is_same_v<decltype(cb.begin()), decltype(co.begin())> && std::is_same_v<decltype(b.begin()), decltype(o.begin())> && std::is_same_v<decltype(b.rbegin()), decltype(o.rbegin())> && std::is_same_v<decltype(b.cend()), decltype(o.cend())>);
	std::vector<T> loop;
	for (const T &x : cb) loop.push_back(x);
	is("range for", loop.size() == N && std::equal(loop.begin(), loop.end(), in.begin(), [](T x, T y) { return same(x, y); }));

	// members which compute
	T lo = in[0], hi = in[0];
	for (std::size_t i = 1; i < N; ++i) { if constexpr (is_num) { if (in[i] < lo) lo = in[i]; if (in[i] > hi) hi = in[i]; } }
	const holder<Vec, T, N> plain(in);
	const auto &pv = plain.s.v;
	if constexpr (is_num)
	{
		is("min, max", same(cb.min(), lo) && same(cb.max(), hi));
		is("sum", same(cb.sum(), pv.sum()) && same(co.sum(), pv.sum()));
	}
	A want;
	for (std::size_t i = 0; i < N; ++i) want[i] = plus_three(in[i]);
	is("apply", eq(result_lanes<T, N>(cb.apply(plus_three<T>)), want));
	std::array<bool, N> wantb;
	for (std::size_t i = 0; i < N; ++i) wantb[i] = in[i] == in[0];
	is("query", eq(result_lanes<bool, N>(cb.query([&](T x) { return x == in[0]; })), wantb));
	for (int by = -static_cast<int>(N) - 1; by <= static_cast<int>(N) + 1; ++by)
	{
		for (int i = 0; i < static_cast<int>(N); ++i) { const int at = i + by; want[i] = at >= 0 && at < static_cast<int>(N) ? in[at] : T(0); }
		is("shift", eq(result_lanes<T, N>(cb.shift(by)), want));
		for (int i = 0; i < static_cast<int>(N); ++i) want[i] = in[((i + by) % static_cast<int>(N) + static_cast<int>(N)) % static_cast<int>(N)];
		is("cshift", eq(result_lanes<T, N>(cb.cshift(by)), want));
	}

	// conversions of the base
	is("vector from it", eq(result_lanes<T, N>(dsga::basic_vector<T, N>(cb)), in));
	is("deduced vector from it", std::is_same_v<decltype(dsga::basic_vector(cb)), dsga::basic_vector<T, N>> && eq(result_lanes<T, N>(dsga::basic_vector(cb)), in));
	is("to_array", eq(dsga::to_array(cb), in));
	{
		// nothing becomes a vector of bool unasked
		if constexpr (is_num)
		{
			const auto made = [&] { dsga::basic_vector<T, N> v = cb; return v; };
			is("vector becomes it", eq(result_lanes<T, N>(made()), in));
		}
		dsga::view_vector<T, N> vv(cb);
		is("view_vector from it", eq(got<N>(vv), in) && (&vv[0] != &cb[0]));
	}
	if constexpr (N > 1)
	{
		std::array<T, 4> want4{};
		want4[0] = T(1);
		for (std::size_t i = 1; i < 4; ++i) want4[i] = in[(i - 1) % N];
		if constexpr (N == 2) is("among the parts of a vector", eq(result_lanes<T, 4>(dsga::basic_vector<T, 4>(T(1), cb, cb)), want4));
		else is("among the parts of a vector", eq(result_lanes<T, 4>(dsga::basic_vector<T, 4>(T(1), cb)), want4));
	}
	else
		is("one lane among the parts of a vector", eq(result_lanes<T, 3>(dsga::basic_vector<T, 3>(cb, T(1), cb)), std::array<T, 3>{ in[0], T(1), in[0] }));
	if constexpr (is_num)
	{
		// to another type of element
		const auto to = [&]<typename U>(type_c<U>) {
			bool fits = true;
			std::array<U, N> w;
			for (std::size_t i = 0; i < N; ++i)
			{
				if constexpr (is_flt) fits = fits && !isnan_(in[i]) && in[i] < T(1000000) && in[i] > T(std::is_signed_v<U> ? -1000000 : 0);
				if (fits) w[i] = static_cast<U>(in[i]);
			}
			if (!fits) return;
			is("vector of another element from it", eq(result_lanes<U, N>(dsga::basic_vector<U, N>(cb)), w));
			dsga::view_vector<U, N> vv(cb);
			is("view_vector of another element from it", eq(got<N>(vv), w));
			dsga::view_vector<U, N> vo(co);
			is("view_vector of another element from the object", eq(got<N>(vo), w));
			if constexpr (N > 1)
				is("vector of less and other lanes from it", [&] { for (std::size_t i = 0; i + 1 < N; ++i) if (!same(dsga::basic_vector<U, N - 1>(cb)[i], w[i])) return false; return true; }());
		};
		for_types<int, unsigned, long long, unsigned long long, float, double>(to);
	}
	// comparison
	{
		bool all_eq = true;
		for (std::size_t i = 0; i < N; ++i) all_eq = all_eq && in[i] == in[i];
		is("==", (cb == pv) == all_eq && (pv == cb) == all_eq && (cb == cb) == all_eq && (co == cb) == all_eq && (cb != pv) == !all_eq);
		auto other = pv;
		const std::size_t at = r.below(N);
		if constexpr (!is_num) other[at] = !other[at]; else other[at] = static_cast<T>(in[at] == T(1) ? 2 : 1);
		is("== when different", !(cb == other) && !(other == cb) && cb != other);
	}
	// get
	[&]<std::size_t ...I>(std::index_sequence<I...>) {
		is("get", ((&dsga::get<I>(cb) == h.raw() + h.lane(I)) && ...) && ((&dsga::get<I>(b) == h.raw() + h.lane(I)) && ...));
		is("type of get", (std::is_same_v<decltype(dsga::get<I>(cb)), const T &> && ...) && (std::is_same_v<decltype(dsga::get<I>(b)), decltype(dsga::get<I>(o))> && ...));
		is("get of a temporary", ((&static_cast<const T &>(dsga::get<I>(std::move(cb))) == h.raw() + h.lane(I)) && ...));
	}(std::make_index_sequence<N>{});
	if constexpr (is_num && std::is_integral_v<T>)
	{
		T t{};
		for (T x : in) t = static_cast<T>(t + x);
		is("a generic function", total(co) == t && total(o) == t);
	}
	is("memory", h.guards() && eq(h.read(), in));
}

template <kind K, std::size_t N>
__attribute__((noinline)) void writes(rng &r)
{
	using A = std::array<T, N>;
	A in, x;
	for (auto &v : in) v = value(r);
	for (auto &v : x) v = value(r);
	text_ = show(in) + " and " + show(x); now_ = hash_arr(in, hash_arr(x));
	holder<K, T, N> h(in);
	auto &o = h.obj();
	auto &b = base(o);
	is("as_derived may be written", !std::is_const_v<std::remove_reference_t<decltype(b.as_derived())>> && static_cast<void *>(&b.as_derived()) == static_cast<void *>(&o) && static_cast<void *>(&o.as_base()) == static_cast<void *>(&b));
	is("types of access", std::is_same_v<decltype(b.data()), T *> && std::is_same_v<decltype(b[0]), T &> && std::is_same_v<decltype(*b.begin()), T &> && std::is_same_v<decltype(*b.rbegin()), T &> && std::is_same_v<decltype(*b.cbegin()), const T &>);
	const auto holds = [&](const char *what, const A &want) { is(what, h.guards() && eq(h.read(), want)); h.load(in); };

	for (std::size_t i = 0; i < N; ++i) b[i] = x[i];
	holds("[] =", x);
	[&]<std::size_t ...I>(std::index_sequence<I...>) { b.set(x[I]...); }(std::make_index_sequence<N>{});
	holds("set", x);
	// set reads all before it writes
	A want;
	for (std::size_t i = 0; i < N; ++i) want[i] = in[N - 1 - i];
	[&]<std::size_t ...I>(std::index_sequence<I...>) { b.set(b[N - 1 - I]...); }(std::make_index_sequence<N>{});
	holds("set from itself", want);
	for (std::size_t i = 0; i < N; ++i) b.data()[h.lane(i)] = x[i];
	holds("data", x);
	std::copy(x.begin(), x.end(), b.begin());
	holds("begin", x);
	std::copy(x.begin(), x.end(), b.rbegin());
	std::reverse_copy(x.begin(), x.end(), want.begin());
	holds("rbegin", want);
	std::copy_backward(x.begin(), x.end(), b.end());
	holds("end", x);
	std::copy_backward(x.begin(), x.end(), b.rend());
	holds("rend", want);
	{ std::size_t i = 0; for (T &e : b) e = x[i++]; }
	holds("range for, written", x);
	[&]<std::size_t ...I>(std::index_sequence<I...>) { ((dsga::get<I>(b) = x[I]), ...); }(std::make_index_sequence<N>{});
	holds("get, written", x);
	turn(o);
	std::reverse_copy(in.begin(), in.end(), want.begin());
	holds("a generic function which reverses", want);
	bool nan = false;
	for (T v : in) nan = nan || isnan_(v);
	if (!nan)
	{
		order(o);
		want = in;
		std::stable_sort(want.begin(), want.end());
		A now = h.read();
		bool fine = h.guards();
		for (std::size_t i = 0; i < N; ++i) fine = fine && now[i] == want[i];
		is("a generic function which sorts", fine);
		h.load(in);
	}
	// the object behind the base
	if constexpr (is_num)		// vectors of bool are only assigned from their own type
	{
		const holder<Vec, T, N> plain(x);
		b.as_derived() = plain.s.v;
		holds("as_derived() =", x);
	}
	std::ranges::fill(b, x[0]);
	want.fill(x[0]);
	holds("ranges::fill", want);
}

// assignments and compound operators with bases on one or both sides
template <kind K, kind L, std::size_t N>
__attribute__((noinline)) void pairs(rng &r)
{
	using A = std::array<T, N>;
	A in, x;
	for (auto &v : in) v = value(r);
	for (auto &v : x) v = value(r);
	text_ = show(in) + " and " + show(x); now_ = hash_arr(in, hash_arr(x));
	holder<L, T, N> g(x);
	const auto &s = cbase(std::as_const(g.obj()));
	if constexpr (kwritable(K) && is_num)
	{
		holder<K, T, N> h(in);
		auto &o = h.obj();
		o = s;
		is("assigned from a base", h.guards() && eq(h.read(), x) && g.guards() && eq(g.read(), x));
		h.load(in);
		base(o).as_derived() = s;
		is("assigned from a base, through a base", h.guards() && eq(h.read(), x));
		{
			const auto each = [&]<typename Op>(Op) {
				if constexpr (!Op::integral_only || std::is_integral_v<T>)
				{
					for (auto &v : x) v = Op::shift ? static_cast<T>(r.below(7)) : value(r);
					for (auto &v : in) v = Op::shift ? static_cast<T>(1 + r.below(200)) : value(r);
					for (std::size_t i = 0; i < N; ++i) if (!defined_for<Op>(in[i], x[i])) return;
					text_ = show(in) + " and " + show(x); now_ = hash_arr(in, hash_arr(x));
					A want;
					for (std::size_t i = 0; i < N; ++i) want[i] = static_cast<T>(Op::f(in[i], x[i]));
					h.load(in); g.load(x);
					auto &res = Op::g(base(o), s);
					is((std::string(Op::name) + "= of bases").c_str(), h.guards() && eq(h.read(), want) && g.guards() && eq(g.read(), x) && static_cast<const void *>(&res) == static_cast<const void *>(&base(o).as_derived()));
					h.load(in);
					Op::g(o, s);
					is((std::string(Op::name) + "= of a base").c_str(), h.guards() && eq(h.read(), want));
					h.load(in);
					is((std::string(Op::name) + " of bases").c_str(), eq(result_lanes<T, N>(Op::f(base(o), s)), want) && eq(result_lanes<T, N>(Op::f(o, s)), want) && eq(result_lanes<T, N>(Op::f(cbase(std::as_const(o)), g.obj())), want));
					is("operands", h.guards() && eq(h.read(), in) && g.guards() && eq(g.read(), x));
					// a scalar on either side
					const T k = Op::shift ? T(3) : x[0];
					for (std::size_t i = 0; i < N; ++i) if (!defined_for<Op>(in[i], k)) return;
					for (std::size_t i = 0; i < N; ++i) want[i] = static_cast<T>(Op::f(in[i], k));
					is((std::string(Op::name) + " of a base and a scalar").c_str(), eq(result_lanes<T, N>(Op::f(base(o), k)), want));
					Op::g(base(o), k);
					is((std::string(Op::name) + "= of a base and a scalar").c_str(), h.guards() && eq(h.read(), want));
					h.load(in);
					for (std::size_t i = 0; i < N; ++i) if (!defined_for<Op>(k, x[i])) return;
					for (std::size_t i = 0; i < N; ++i) want[i] = static_cast<T>(Op::f(k, x[i]));
					is((std::string(Op::name) + " of a scalar and a base").c_str(), eq(result_lanes<T, N>(Op::f(k, s)), want));
				}
			};
			each(Add{}); each(Sub{}); each(Mul{}); each(Div{}); each(Mod{}); each(And{}); each(Or{}); each(Xor{}); each(Shl{}); each(Shr{});
			h.load(in);
			A up, down;
			for (std::size_t i = 0; i < N; ++i) { up[i] = static_cast<T>(in[i] + T(1)); down[i] = static_cast<T>(in[i] - T(1)); }
			auto &pre = ++base(o);
			is("++ of a base", h.guards() && eq(h.read(), up) && static_cast<const void *>(&pre) == static_cast<const void *>(&base(o).as_derived()));
			h.load(in);
			const auto post = base(o)--;
			is("-- of a base", h.guards() && eq(h.read(), down) && eq(got<N>(post), in));
		}
	}
}

// what a base says of its kind, at compile time
template <kind K, std::size_t N>
void facts()
{
	holder<K, T, N> h;
	auto &o = h.obj();
	using B = std::remove_reference_t<decltype(base(o))>;
	constexpr bool w = !std::is_const_v<B> && kwritable(K);
	text_ = kname(K); now_ = K * 5 + N;
	is("writable", writable_base(h.obj()) == (kwritable(K) || K == CVec));
	is("[] is const", std::is_const_v<std::remove_reference_t<decltype(std::declval<B &>()[0])>> == !w);
	is("data is const", std::is_const_v<std::remove_pointer_t<decltype(std::declval<B &>().data())>> == !w);
	is("begin is const", std::is_const_v<std::remove_reference_t<decltype(*std::declval<B &>().begin())>> == !w);
	is("rbegin is const", std::is_const_v<std::remove_reference_t<decltype(*std::declval<B &>().rbegin())>> == !w);
	is("set", []<std::size_t ...I>(std::index_sequence<I...>) { return requires (B &b, T t) { b.set((void(I), t)...); }; }(std::make_index_sequence<N>{}) == w);
	is("set of another count", !requires (B &b, T t) { b.set(t, t, t, t, t); });
	is("random access", std::random_access_iterator<decltype(std::declval<B &>().begin())> && std::random_access_iterator<decltype(std::declval<const B &>().cbegin())>);
}

template <std::size_t N, std::size_t ...I>
void all_kinds(rng &r, std::index_sequence<I...>)
{
	const std::string at = std::string("/") + tname<T> + "/" + std::to_string(N) + "/";
	((R.section("base" + at + kname(KS[I])), reads<KS[I], N>(r)), ...);
	([&] { if constexpr (kwritable(KS[I])) { R.section("base, written" + at + kname(KS[I])); writes<KS[I], N>(r); } }(), ...);
	([&] { R.section("bases" + at + kname(KS[I]) + "," + kname(KS[(I + N) % NK])); pairs<KS[I], KS[(I + N) % NK], N>(r); }(), ...);
	if (R.cur_case == 0) ((R.section("facts" + at + kname(KS[I])), facts<KS[I], N>()), ...);
}

int main(int argc, char **argv)
{
	R.start(argc, argv);
	rng r(R.seed);
	for (R.cur_case = 0; R.cur_case < R.cases; ++R.cur_case)
		for_sizes([&](auto n) { all_kinds<n>(r, std::make_index_sequence<NK>{}); });
	return R.finish();
}

#else

// only concrete types are documented for these
template <typename F> constexpr bool concrete_only = std::is_same_v<F, fn::isnan> || std::is_same_v<F, fn::isinf>;

template <typename F, std::size_t N>
constexpr bool on_vectors()
{
	using V = const dsga::basic_vector<T, N> &;
	if constexpr (F::arity == 1) return requires (V a) { F::f(a); };
	else if constexpr (F::arity == 2) return requires (V a, V b) { F::f(a, b); };
	else return requires (V a, V b, V c) { F::f(a, b, c); };
}
constexpr std::size_t hash_name(const char *s)
{
	std::size_t h = 5381;
	for (; *s; ++s) h = h * 33 + static_cast<unsigned char>(*s);
	return h ^ (h >> 7);
}
__attribute__((noinline)) void verdict(const digest &want, const digest &have, bool untouched, const std::string &kinds, u64 h)
{
	R.saw(mix(h, hash_str(kinds.c_str())));
	if (!(want == have))
		R.fail(R.sec + ":" + kinds, "on plain vectors " + want.text() + ", through bases of " + kinds + " " + have.text() + " for " + text_);
	if (!untouched)
		R.fail(R.sec + ":" + kinds + ":operand-changed", "an operand or memory around it changed, for " + text_);
}

// operands as bases where Mask says so, as themselves elsewhere
template <bool Base, typename O> const auto &seen(const O &o) { if constexpr (Base) return cbase(o); else return o; }

template <typename F, unsigned Mask, std::size_t N, kind ...K>
__attribute__((noinline)) void one(const std::array<std::array<T, N>, 3> &in, const digest &want, u64 h)
{
	std::tuple<holder<K, T, N>...> hs;
	[&]<std::size_t ...I>(std::index_sequence<I...>) {
		(std::get<I>(hs).load(in[I]), ...);
		const std::string kinds = ((std::string((Mask >> I) & 1 ? "base of " : "") + kname(K) + ",") + ...);
		if constexpr (requires { F::f(seen<(Mask >> I) & 1>(std::get<I>(hs).obj())...); })
			verdict(want, digest_of(F::f(seen<(Mask >> I) & 1>(std::get<I>(hs).obj())...)), ((std::get<I>(hs).guards() && hash_arr(std::get<I>(hs).read()) == hash_arr(in[I])) && ...), kinds, h);
		else if constexpr (!concrete_only<F>)
			R.fail(R.sec + ":" + kinds + ":rejected", "accepted for plain vectors of size " + std::to_string(N) + " but not for " + kinds);
	}(std::make_index_sequence<sizeof...(K)>{});
}

template <typename F, std::size_t N>
void at_size(rng &r)
{
	if constexpr (on_vectors<F, N>() && (N > 1 || on_vectors<F, 2>() || on_vectors<F, 3>()))		// one lane passes for a scalar of any type
	{
		std::array<std::array<T, N>, 3> in;
		for (auto &a : in) for (auto &v : a) v = value(r);
		if constexpr (is_num)
			for (std::size_t i = 0; i < N; ++i)
			{
				if constexpr (F::dom == PosFirst) in[0][i] = static_cast<T>(0.5 + static_cast<double>(r.below(1000)) / 64);
				if constexpr (F::dom == ShiftCount) in[1][i] = static_cast<T>(r.below(31));
				if constexpr (F::dom == Ordered23) { in[1][i] = static_cast<T>(r.range(1, 10)); in[2][i] = static_cast<T>(r.range(10, 20)); }
				if constexpr (F::dom == Ordered12) { in[0][i] = static_cast<T>(r.range(1, 9)); in[1][i] = static_cast<T>(r.range(10, 20)); }
				if constexpr (std::is_same_v<F, fn::normalize>) in[0][i] = static_cast<T>(r.range(1, 9));
			}
		R.section(std::string(F::name) + "/" + std::to_string(N) + "/" + tname<T>);
		text_ = show(in[0]); u64 h = hash_arr(in[0]);
		if (F::arity > 1) { text_ += " " + show(in[1]); h = hash_arr(in[1], h); }
		if (F::arity > 2) { text_ += " " + show(in[2]); h = hash_arr(in[2], h); }
		holder<Vec, T, N> a(in[0]), b(in[1]), c(in[2]);
		const auto &va = a.s.v; const auto &vb = b.s.v; const auto &vc = c.s.v;
		digest want;
		if constexpr (F::arity == 1) want = digest_of(F::f(va));
		else if constexpr (F::arity == 2) want = digest_of(F::f(va, vb));
		else want = digest_of(F::f(va, vb, vc));
		constexpr std::size_t s = (hash_name(F::name) + N) % NK, t = (hash_name(F::name) / 8 + 3 * N) % NK;
		// the kinds in turn, each as a base at least once
		[&]<std::size_t ...I>(std::index_sequence<I...>) {
			if constexpr (F::arity == 1) (one<F, 1, N, KS[I]>(in, want, h), ...);
			else if constexpr (F::arity == 2) (one<F, 1 + (I + s) % 3, N, KS[I], KS[(I + s) % NK]>(in, want, h), ...);
			else (one<F, 1 + (I + t) % 7, N, KS[I], KS[(I + s) % NK], KS[(I + t) % NK]>(in, want, h), ...);
		}(std::make_index_sequence<NK>{});
	}
}

template <typename F, std::size_t FI>
void function(rng &r)
{
	if constexpr (FI % SLICES == SLICE)
	{
#ifdef THOROUGH
		at_size<F, 1>(r); at_size<F, 2>(r); at_size<F, 3>(r); at_size<F, 4>(r);
#else
		constexpr bool odd = hash_name(F::name) % 2;
		at_size<F, odd ? 2 : 1>(r); at_size<F, odd ? 4 : 3>(r);
#endif
	}
}
template <typename ...F>
void functions(rng &r)
{
	[&]<std::size_t ...I>(std::index_sequence<I...>) { (function<F, I>(r), ...); }(std::make_index_sequence<sizeof...(F)>{});
}

int main(int argc, char **argv)
{
	R.start(argc, argv);
	rng r(R.seed);
	for (R.cur_case = 0; R.cur_case < R.cases; ++R.cur_case)
	{
#if WHAT == 1
		functions<MON_FUNCTIONS1>(r);
#elif WHAT == 2
		functions<MON_FUNCTIONS2>(r);
#else
		functions<MON_FUNCTIONS3>(r);
#endif
	}
	return R.finish();
}
#endif
