// P15 (GROUP 15): products of vectors and lengths.  P16 (GROUP 16): faceforward, reflect and refract.
//   ELEM, ELEM2 element types
#include "kinds.hpp"
using namespace mon;
using A = ELEM;
using B = ELEM2;
using CT = std::common_type_t<A, B>;
using L = long double;
constexpr bool floating = std::is_floating_point_v<A> && std::is_floating_point_v<B>;
constexpr kind KS[] = { Vec, CVec, Swz, View, CView, VSwz, CVSwz, VV, SwzA, SwzD, VSwzA, VSwzD };
#ifdef THOROUGH
constexpr std::size_t NK = 8;
#else
constexpr std::size_t NK = 4;
#endif

template <typename V>
CT eps() { return std::is_floating_point_v<V> ? static_cast<CT>(std::numeric_limits<V>::epsilon()) : CT(0); }

// whole numbers whose products still add up without overflow
template <typename T> constexpr i64 BIG = sizeof(T) == 8 && std::is_integral_v<A> && std::is_integral_v<B> ? i64(1) << 30 : 20000;

// inputs: small integers (everything exact), eighths (exact), random of comparable or of wildly different magnitude
template <typename T, std::size_t N>
std::array<T, N> input(rng &r, int form, int scale)
{
	std::array<T, N> a{};
	for (T &v : a)
	{
		if constexpr (!std::is_floating_point_v<T>)
			v = static_cast<T>(std::is_signed_v<T> ? (r.coin() ? r.range(-300, 300) : r.range(-BIG<T>, BIG<T>)) : form == 2 ? static_cast<i64>(static_cast<T>(r.next())) : r.range(0, 300));
		else if (form == 0) v = static_cast<T>(r.range(-60, 60));
		else if (form == 1) v = static_cast<T>(r.range(-200, 200)) / T(8);
		else v = std::ldexp(static_cast<T>(r.unit() * 2 - 1), scale + (form == 3 ? static_cast<int>(r.range(-6, 6)) : 0));
	}
	if (r.below(4) == 0)
		a[r.below(N)] = T(0);
	return a;
}

template <std::size_t N, typename X, typename Y>
void each_pair(const std::array<X, N> &a, const std::array<Y, N> &b, auto f)
{
	[&]<std::size_t ...I>(std::index_sequence<I...>) {
		([&] {
			constexpr kind K1 = KS[(I * (12 / NK) + N) % 12], K2 = KS[(I * 5 + N * 5 + sizeof(X)) % 12];
			holder<K1, X, N> x(a); holder<K2, Y, N> y(b);
			f(std::as_const(x.obj()), std::as_const(y.obj()), (std::string(kname(K1)) + "," + kname(K2)).c_str());
		}(), ...);
	}(std::make_index_sequence<NK>{});
}

template <typename S>
bool near(S got, L want, L tol) { return std::isnan(want) ? std::isnan(static_cast<L>(got)) : std::fabs(static_cast<L>(got) - want) <= tol; }

template <typename S, typename X, typename Y>
__attribute__((noinline)) void scalar(const char *what, const char *kinds, const S &got, L want, L tol, const X &a, const Y &b)
{
	R.saw(mix(hash_arr(a), hash_arr(b)) + hash_str(kinds) + hash_str(what), varied(a));
	if constexpr (!std::is_same_v<S, CT>)
		R.fail(R.sec + ":" + what + ":result-type", std::string("the result is not ") + tname<CT>);
	else if (!near(got, want, tol))
		R.fail(R.sec + ":" + what + ":" + kinds, std::string(what) + " is " + show(got) + " want " + show(static_cast<double>(want)) + " within " + show(static_cast<double>(tol)) + " for " + show(a) + " and " + show(b));
}

template <std::size_t N, typename S, typename X, typename Y>
__attribute__((noinline)) void vec(const char *what, const char *kinds, const S &got, const std::array<L, N> &want, const std::array<L, N> &tol, const X &a, const Y &b, const std::string &more = "")
{
	R.saw(mix(hash_arr(a), hash_arr(b)) + hash_str(kinds) + hash_str(what), varied(a));
	if constexpr (!has_result_type<S, CT, N>)
		R.fail(R.sec + ":" + what + ":result-type", "the result is not " + std::to_string(N) + " lanes of " + tname<CT>);
	else
	{
		auto g = result_lanes<CT, N>(got);
		for (std::size_t i = 0; i < N; ++i)
			if (!near(g[i], want[i], tol[i]))
			{
				R.fail(R.sec + ":" + what + ":" + kinds, std::string(what) + " lane " + std::to_string(i) + " of " + show(g) + " want " + show(static_cast<double>(want[i])) + " within " + show(static_cast<double>(tol[i])) + " for " + show(a) + " and " + show(b) + more);
				break;
			}
	}
}

template <typename X, std::size_t N>
L norm(const std::array<X, N> &a) { L s = 0; for (X v : a) s += static_cast<L>(v) * static_cast<L>(v); return std::sqrt(s); }

#if GROUP == 15
template <std::size_t N>
void products(rng &r)
{
	// far apart too, but with products that are normal numbers
	constexpr int FAR = (sizeof(A) == 4 || sizeof(B) == 4) ? 42 : 400;
	const int form = static_cast<int>(r.below(4)), wide = r.below(3) == 0 ? FAR : 20, scale = form < 2 ? 0 : static_cast<int>(r.range(-wide, wide));
	R.section("products/" + std::to_string(N) + "/" + tname<A> + "/" + tname<B>);
	auto a = input<A, N>(r, form, scale);
	auto b = input<B, N>(r, form, static_cast<int>(r.range(-wide, wide)));
	const L e = eps<CT>();
	L dot = 0, mag = 0;
	CT inner = 0;
	for (std::size_t i = 0; i < N; ++i)
	{
		dot += static_cast<L>(a[i]) * static_cast<L>(b[i]);
		mag += std::fabs(static_cast<L>(a[i]) * static_cast<L>(b[i]));
		inner = static_cast<CT>(inner + static_cast<CT>(a[i]) * static_cast<CT>(b[i]));
	}
	const L tol = form < 2 || !floating ? 0 : mag * e * N;
	if (R.cur_case < 2 && N == 3)
		R.sample("products of " + show(a) + " and " + show(b));
	each_pair(a, b, [&](const auto &x, const auto &y, const char *k) {
		scalar("innerProduct", k, dsga::innerProduct(x, y), floating || std::is_floating_point_v<CT> ? dot : static_cast<L>(inner), floating ? tol : std::is_floating_point_v<CT> ? mag * e * N : 0, a, b);
		if constexpr (floating)
		{
			auto d = dsga::dot(x, y);
			scalar("dot", k, d, dot, tol, a, b);
			if (!near(d, dsga::dot(y, x), 2 * tol))
				R.fail(R.sec + ":dot:" + k + ":symmetric", "dot is not symmetric for " + show(a) + " and " + show(b));
		}
	});
	if constexpr (floating)
	{
		// distance
		L dist = 0, big = 0;
		std::array<A, N> pa = a; std::array<B, N> pb = b;
		if (r.coin())		// close to each other
			for (std::size_t i = 0; i < N; ++i) pb[i] = static_cast<B>(a[i]) + (form < 2 ? static_cast<B>(r.range(-3, 3)) : static_cast<B>(r.unit()) * static_cast<B>(a[i]) / 64);
		std::array<CT, N> df{};
		for (std::size_t i = 0; i < N; ++i)
		{
			df[i] = static_cast<CT>(pa[i]) - static_cast<CT>(pb[i]);
			dist += static_cast<L>(df[i]) * static_cast<L>(df[i]);
			big = std::max(big, std::fabs(static_cast<L>(df[i])));
		}
		dist = std::sqrt(dist);
		each_pair(pa, pb, [&](const auto &x, const auto &y, const char *k) {
			auto d = dsga::distance(x, y);
			scalar("distance", k, d, dist, dist * e * (N + 3), pa, pb);
			if (!near(d, dsga::distance(y, x), dist * e * 4))
				R.fail(R.sec + ":distance:" + k + ":symmetric", "distance is not symmetric for " + show(pa) + " and " + show(pb));
			if (dsga::distance(x, x) != 0)
				R.fail(R.sec + ":distance:" + k + ":self", "the distance of a point to itself is not zero");
		});
		scalar("distance of scalars", "scalar", dsga::distance(a[0], b[0]), std::fabs(static_cast<L>(static_cast<CT>(a[0]) - static_cast<CT>(b[0]))), 0, a, b);
	}
	if constexpr (floating && N == 3)
	{
		std::array<L, 3> want, ctol;
		for (std::size_t i = 0; i < 3; ++i)
		{
			std::size_t p = (i + 1) % 3, q = (i + 2) % 3;
			L u = static_cast<L>(a[p]) * static_cast<L>(b[q]), v = static_cast<L>(a[q]) * static_cast<L>(b[p]);
			want[i] = u - v;
			ctol[i] = form < 2 ? 0 : (std::fabs(u) + std::fabs(v)) * e * 2;
		}
		each_pair(a, b, [&](const auto &x, const auto &y, const char *k) {
			auto c = dsga::cross(x, y);
			vec<3>("cross", k, c, want, ctol, a, b);
			auto m = dsga::cross(y, x);
			for (std::size_t i = 0; i < 3; ++i)
				if (!near(c[i], -static_cast<L>(m[i]), 2 * ctol[i]))
					R.fail(R.sec + ":cross:" + k + ":antisymmetric", "cross is not antisymmetric for " + show(a) + " and " + show(b));
			auto z = dsga::cross(x, x);
			for (std::size_t i = 0; i < 3; ++i)
				if (z[i] != 0)
					R.fail(R.sec + ":cross:" + k + ":self", "the cross product of a vector with itself is not zero for " + show(a));
		});
		// there are overloads for vectors and for views: all pairs of those
		[&]<std::size_t ...P>(std::index_sequence<P...>) {
			([&] {
				constexpr kind PLAIN[] = { Vec, CVec, View, CView, VV };
				constexpr kind K1 = PLAIN[P / 5], K2 = PLAIN[P % 5];
				holder<K1, A, 3> x(a); holder<K2, B, 3> y(b);
				vec<3>("cross", (std::string(kname(K1)) + "," + kname(K2)).c_str(), dsga::cross(std::as_const(x.obj()), std::as_const(y.obj())), want, ctol, a, b);
			}(), ...);
		}(std::make_index_sequence<25>{});
	}
}

template <std::size_t N>
void lengths(rng &r)
{
	if constexpr (std::is_same_v<A, B> && floating)
	{
		R.section("lengths/" + std::to_string(N) + "/" + tname<A>);
		const int form = static_cast<int>(r.below(5));
		auto a = input<A, N>(r, form == 4 ? 2 : form, form < 2 ? 0 : static_cast<int>(r.range(sizeof(A) == 4 ? -45 : -400, sizeof(A) == 4 ? 45 : 400)));
		if (form == 4 && N >= 2)
		{
			// right angled boxes with a whole diagonal, scaled by a power of two
			constexpr int q2[][4] = { { 3, 4, 0, 5 }, { 5, 12, 0, 13 }, { 8, 15, 0, 17 }, { 20, 21, 0, 29 } };
			constexpr int q3[][4] = { { 1, 2, 2, 3 }, { 2, 3, 6, 7 }, { 4, 4, 7, 9 }, { 1, 4, 8, 9 } };
			const int *q = N == 2 ? q2[r.below(4)] : q3[r.below(4)];
			a.fill(A(0));
			A s = std::ldexp(r.coin() ? A(1) : A(-1), static_cast<int>(r.range(-40, 40)));
			for (std::size_t i = 0; i < (N == 2 ? 2 : 3); ++i) a[i] = q[i] * s;
			std::swap(a[0], a[r.below(N)]);
		}
		const L e = eps<A>(), want = norm(a);
		const bool exact = N == 1 || form == 4;
		for_kinds<Vec, CVec, Swz, View, CView, VSwz, CVSwz, VV, SwzA, SwzD, VSwzA, VSwzD>([&](auto kk) {
			constexpr kind K = kk;
			holder<K, A, N> h(a);
			const auto &x = h.obj();
			scalar("length", kname(K), dsga::length(x), want, exact ? 0 : want * e * (N + 1), a, a);
			if constexpr (N > 1)
			{
				std::array<L, N> dir, tol;
				for (std::size_t i = 0; i < N; ++i)
				{
					dir[i] = want == 0 ? std::numeric_limits<L>::quiet_NaN() : static_cast<L>(a[i]) / want;
					tol[i] = std::fabs(dir[i]) * e * (N + 3);
				}
				auto u = dsga::normalize(x);
				vec<N>("normalize", kname(K), u, dir, tol, a, a);
				if (want != 0)
				{
					L len = norm(lanes(u));
					if (!(std::fabs(len - 1) <= e * (N + 3)))
						R.fail(R.sec + ":normalize:" + kname(K) + ":unit", "normalize of " + show(a) + " has length " + show(static_cast<double>(len)));
				}
			}
		});
		scalar("length of a scalar", "scalar", dsga::length(a[0]), std::fabs(static_cast<L>(a[0])), 0, a, a);
		if (R.cur_case < 2 && N == 3)
			R.sample("length of " + show(a) + " is " + show(static_cast<double>(want)));
	}
}
#else
template <std::size_t N>
std::array<A, N> unit_vector(rng &r)
{
	std::array<A, N> a{};
	if (r.below(4) == 0)
	{
		a[r.below(N)] = r.coin() ? A(1) : A(-1);
		return a;
	}
	L n;
	do { for (auto &v : a) v = static_cast<A>(r.unit() * 2 - 1); n = norm(a); } while (n < 0.2L);
	for (auto &v : a) v = static_cast<A>(static_cast<L>(v) / n);
	return a;
}

template <std::size_t N>
void optics(rng &r)
{
	const L e = eps<A>();
	// exact operands
	auto n = arr<A, N>([&] { return static_cast<A>(r.range(-30, 30)); });
	auto i = arr<A, N>([&] { return static_cast<A>(r.range(-30, 30)) / A(4); });
	auto ref = arr<A, N>([&] { return static_cast<A>(r.range(-30, 30)); });
	if (r.below(4) == 0) { ref.fill(A(0)); ref[0] = i[N - 1]; ref[N - 1] = -i[0]; if (N > 2) ref[1] = 0; }		// perpendicular when N is 2 or 3
	L d = 0, nd = 0;
	for (std::size_t k = 0; k < N; ++k) { d += static_cast<L>(ref[k]) * static_cast<L>(i[k]); nd += static_cast<L>(n[k]) * static_cast<L>(i[k]); }
	std::array<L, N> zero{}, face, mirror;
	for (std::size_t k = 0; k < N; ++k) { face[k] = d < 0 ? n[k] : -n[k]; mirror[k] = i[k] - 2 * nd * n[k]; }
	each_pair(n, i, [&](const auto &x, const auto &y, const char *k) {
		R.section("faceforward/" + std::to_string(N) + "/" + tname<A>);
		for_kinds<Vec, CView, Swz>([&](auto kk) { holder<kk, A, N> h(ref); vec<N>("faceforward", k, dsga::faceforward(x, y, std::as_const(h.obj())), face, zero, n, i, " " + show(ref)); });
		R.section("reflect exact/" + std::to_string(N) + "/" + tname<A>);
		vec<N>("reflect", k, dsga::reflect(y, x), mirror, zero, i, n);
	});
	// unit normals
	auto u = unit_vector<N>(r), v = unit_vector<N>(r);
	const int far = r.below(3) ? 10 : sizeof(A) == 4 ? 60 : 400;
	L scale = std::ldexp(1.0L, static_cast<int>(r.range(-far, far)));
	auto inc = v; for (auto &q : inc) q = static_cast<A>(static_cast<L>(q) * scale);
	nd = 0; L mag = 0;
	for (std::size_t k = 0; k < N; ++k) { nd += static_cast<L>(u[k]) * static_cast<L>(inc[k]); mag += std::fabs(static_cast<L>(u[k]) * static_cast<L>(inc[k])); }
	std::array<L, N> tol;
	for (std::size_t k = 0; k < N; ++k) { mirror[k] = inc[k] - 2 * nd * u[k]; tol[k] = e * (std::fabs(static_cast<L>(inc[k])) + 2 * mag * std::fabs(static_cast<L>(u[k])) * (N + 2)); }
	each_pair(inc, u, [&](const auto &x, const auto &y, const char *k) {
		R.section("reflect/" + std::to_string(N) + "/" + tname<A>);
		auto out = dsga::reflect(x, y);
		vec<N>("reflect", k, out, mirror, tol, inc, u);
		L len = norm(lanes(out)), want = norm(inc), along = 0;
		if (!(std::fabs(len - want) <= want * e * 20 * N))
			R.fail(R.sec + ":reflect:length", "reflection changes the length of " + show(inc) + " by " + show(u));
		for (std::size_t q = 0; q < N; ++q) along += static_cast<L>(out[q]) * static_cast<L>(u[q]);
		if (!(std::fabs(along + nd) <= want * e * 20 * N))
			R.fail(R.sec + ":reflect:normal", "reflection does not flip the component along the normal for " + show(inc) + " by " + show(u));
	});
	// the sign of a scalar product which is clearly not zero decides, whatever the magnitudes
	if (std::fabs(nd) > mag * e * N * 4)
	{
		R.section("faceforward/" + std::to_string(N) + "/" + tname<A>);
		std::array<A, N> m{};
		for (auto &q : m) q = gen_finite<A>(r);
		for (std::size_t k = 0; k < N; ++k) face[k] = nd < 0 ? m[k] : -m[k];
		each_pair(m, inc, [&](const auto &x, const auto &y, const char *k) {
			holder<Vec, A, N> h(u);
			vec<N>("faceforward", k, dsga::faceforward(x, y, std::as_const(h.obj())), face, zero, m, inc, " " + show(u));
		});
	}
	// refraction at and next to the critical angle, along the axes, where everything up to the square root is exact
	{
		R.section("refract axes/" + std::to_string(N) + "/" + tname<A>);
		const A ulp = std::numeric_limits<A>::epsilon();
		const A etas[] = { A(1), A(1) + ulp, A(1) - ulp, A(0.5), A(2), A(0.25), A(1) + 64 * ulp, A(1) - 64 * ulp };
		const A ratio = etas[r.below(8)];
		std::array<A, N> from{}, at{};
		from[r.below(N)] = r.coin() ? A(1) : A(-1);
		at[r.below(N)] = r.coin() ? A(1) : A(-1);
		L along = 0;
		for (std::size_t k = 0; k < N; ++k) along += static_cast<L>(from[k]) * static_cast<L>(at[k]);
		const L lr = ratio, k2 = 1 - lr * lr * (1 - along * along);
		std::array<L, N> want{}, tol{};
		for (std::size_t k = 0; k < N; ++k)
		{
			want[k] = k2 < 0 ? 0 : lr * from[k] - (lr * along + std::sqrt(k2)) * at[k];
			tol[k] = k2 <= 0 ? 0 : e * 4;
		}
		R.count(k2 < 0 ? "refract axes total reflection" : k2 == 0 ? "refract axes critical" : "refract axes transmitted");
		each_pair(from, at, [&](const auto &x, const auto &y, const char *k) {
			vec<N>("refract", k, dsga::refract(x, y, ratio), want, tol, from, at, " eta " + show(ratio));
		});
	}
	// refraction on both sides of the critical angle
	R.section("refract/" + std::to_string(N) + "/" + tname<A>);
	A eta = r.below(5) == 0 ? A(1) : r.below(4) == 0 ? static_cast<A>(std::exp((r.unit() * 2 - 1) * 4)) : static_cast<A>(0.3 + 2.2 * r.unit());
	nd = 0;
	for (std::size_t k = 0; k < N; ++k) nd += static_cast<L>(u[k]) * static_cast<L>(v[k]);
	const L le = eta, k2 = 1 - le * le * (1 - nd * nd);
	const L eta2 = std::max(L(1), le * le);
	if (std::fabs(k2) < 2000 * e * eta2)
		return;
	std::array<L, N> want{};
	for (std::size_t k = 0; k < N; ++k)
	{
		want[k] = k2 < 0 ? 0 : le * v[k] - (le * nd + std::sqrt(k2)) * u[k];
		tol[k] = k2 < 0 ? 0 : e * eta2 * (40 + 20 / std::sqrt(k2));
	}
	R.count(k2 < 0 ? "refract total reflection" : "refract transmitted");
	each_pair(v, u, [&](const auto &x, const auto &y, const char *k) {
		auto out = dsga::refract(x, y, eta);
		vec<N>("refract", k, out, want, tol, v, u, " eta " + show(eta));
		if (k2 > 0.01L && le < 2.6L)
		{
			// Snell: the tangential component is scaled by eta, the result is a unit vector on the other side
			L along = 0, len = norm(lanes(out));
			for (std::size_t q = 0; q < N; ++q) along += static_cast<L>(out[q]) * static_cast<L>(u[q]);
			L tangent2 = len * len - along * along, sin2 = (1 - nd * nd) * le * le;
			if (std::fabs(len - 1) > 300 * e || std::fabs(tangent2 - sin2) > 600 * e || along > 0)
				R.fail(R.sec + ":refract:snell", "Snell's law does not hold for " + show(v) + " at " + show(u) + " eta " + show(eta));
		}
	});
	if (R.cur_case < 4 && N == 2)
		R.sample("refract " + show(v) + " at " + show(u) + " eta " + show(eta));
}
#endif

int main(int argc, char **argv)
{
	R.start(argc, argv);
	rng r(R.seed);
	for (u64 c = 0; c < R.cases; ++c)
	{
		R.cur_case = c;
		for_sizes([&](auto nn) {
			constexpr std::size_t N = nn;
#if GROUP == 15
			products<N>(r);
			lengths<N>(r);
#else
			if constexpr (N > 1)
				optics<N>(r);
#endif
		});
	}
	return R.finish();
}
