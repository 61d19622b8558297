// P35: the tolerance, curve, angle and geometry helpers (examples/) agree with their definitions.
//   ELEM element type    WHAT 0 tolerances, 1 curves and angles, 2 points, lines and planes, 9 tolerances of single lanes given as a vector
#include "kinds.hpp"
#include "tolerance.hxx"
#include "bezier.hxx"
#include "angle.hxx"
#include "basic.hxx"
using namespace mon;
using T = ELEM;
using LD = long double;

// --------------------------------------------------------------------------------------------------------------- tolerances

template <typename E>
E tol(rng &r)
{
	for (;;)
	{
		E t = r.below(4) ? static_cast<E>(r.range(0, 5)) : gen<E>(r);
		if (t >= E(0)) return t == 0 ? E(0) : t;
	}
}

// |d| <= t, decided without the library
template <typename E>
bool inside(E d, E t)
{
	if constexpr (std::is_floating_point_v<E>) return std::fabs(d) <= t;
	else if constexpr (std::is_signed_v<E>) return d >= 0 ? d <= t : d >= -t;
	else return d <= t;
}

template <typename E>
E near_or_any(rng &r, E around)
{
	if constexpr (std::is_floating_point_v<E>)
	{
		switch (r.below(4))
		{
			case 0: return gen<E>(r);
			case 1: { E n = std::nextafter(around, std::numeric_limits<E>::infinity()); return r.coin() ? n : -n; }
			case 2: { E n = std::nextafter(around, E(0)); return r.coin() ? n : -n; }
			default: return r.coin() ? around : -around;
		}
	}
	else
	{
		const i64 a = around > E(1000) ? 1000 : static_cast<i64>(around);
		const i64 v = a + r.range(-1, 1);
		if constexpr (std::is_signed_v<E>) return static_cast<E>(r.coin() ? v : -v);
		else return static_cast<E>(v < 0 ? 0 : v);
	}
}

template <std::size_t N, kind K1, kind K2>
void tolerance(rng &r)
{
	const T t = tol<T>(r);
	auto ts = arr<T, N>([&] { return r.coin() ? t : tol<T>(r); });
	auto a = arr<T, N>([&] { return r.below(3) ? near_or_any(r, t) : T(0); });
	holder<K1, T, N> hx(a);
	holder<K2, T, N> ht(ts);
	const auto &x = hx.obj();
	const auto &tv = ht.obj();
	bool want = true, wants = true;
	for (std::size_t i = 0; i < N; ++i) { want = want && inside(a[i], t); wants = wants && inside(a[i], ts[i]); }
	const std::string in = show(a) + " within " + show(t) + " or " + show(ts);
	R.saw(mix(hash_arr(a), mix(hash_arr(ts), bits_of(t))));
	R.check(dsga::within_tolerance(x, t) == want, "within_tolerance(vector, scalar)", in);
	R.check(dsga::within_tolerance(x, dsga::basic_vector<T, 1>(t)) == want, "within_tolerance(vector, one lane)", in);
	R.check(dsga::within_tolerance(x, tv) == wants, "within_tolerance(vector, vector)", in);
	R.check(dsga::within_tolerance(a[0], t) == inside(a[0], t), "within_tolerance(scalar, scalar)", in);
	// a tolerance of a narrower type
	if constexpr (std::is_same_v<T, double>)
	{
		const float f = static_cast<float>(r.range(0, 5));
		bool w = true;
		for (std::size_t i = 0; i < N; ++i) w = w && inside<double>(a[i], f);
		R.check(dsga::within_tolerance(x, f) == w && dsga::within_tolerance(x, dsga::basic_vector<float, N>(f)) == w, "within_tolerance of another type", in);
	}
	// boxes: differences which can be represented
	std::array<T, N> b;
	for (std::size_t i = 0; i < N; ++i)
	{
		b[i] = a[i];
		if constexpr (std::is_floating_point_v<T>) b[i] = r.below(3) ? near_or_any(r, t) : gen<T>(r);
		else
		{
			a[i] = static_cast<T>(a[i] % 1000);
			b[i] = static_cast<T>(a[i] + static_cast<T>(r.range(-6, 6)));
			hx.load(a);
		}
	}
	auto diff = [&](std::size_t i) -> T { return a[i] - b[i]; };
	holder<K2, T, N> hy(b);
	const auto &y = hy.obj();
	want = wants = true;
	for (std::size_t i = 0; i < N; ++i) { want = want && inside<T>(diff(i), t); wants = wants && inside<T>(diff(i), ts[i]); }
	const std::string inb = show(a) + " and " + show(b) + " within " + show(t) + " or " + show(ts);
	auto box = [&](const char *how, bool got, bool w) { R.check(got == w, how, std::string(how) + " is wrong for " + inb); };
	R.saw(mix(hash_arr(a), mix(hash_arr(b), bits_of(t))));
	box("within_box(scalar)", dsga::within_box(x, y, t), want);
	if constexpr (N > 1 || WHAT == 9) box("within_box(one lane)", dsga::within_box(x, y, dsga::basic_vector<T, 1>(t)), want);
	if constexpr (N > 1 || WHAT == 9) box("within_box(vector)", dsga::within_box(x, y, tv), wants);		// one lane: a known finding, looked at by itself
	box("within_box the other way about", dsga::within_box(y, x, t), want);
	R.check(dsga::within_box(a[0], b[0], t) == inside<T>(diff(0), t) && dsga::within_distance(a[0], b[0], t) == inside<T>(diff(0), t), "scalars", inb);
	if constexpr (dsga::floating_point_scalar<T>)
	{
		// small whole numbers: the squares are exact, and so is the answer away from equal distances
		std::array<T, N> p, q;
		i64 sq = 0;
		for (std::size_t i = 0; i < N; ++i) { const i64 u = r.range(-9, 9), v = r.range(-9, 9); p[i] = static_cast<T>(u); q[i] = static_cast<T>(v); sq += (u - v) * (u - v); }
		holder<K1, T, N> hp(p);
		holder<K2, T, N> hq(q);
		const i64 d = r.range(0, 30);
		const std::string ind = show(p) + " and " + show(q) + " within " + std::to_string(d);
		R.saw(mix(hash_arr(p), mix(hash_arr(q), static_cast<u64>(d))));
		R.check(dsga::within_distance(hp.obj(), hq.obj(), T(d)) == (sq <= d * d), "within_distance", ind);
		R.check(dsga::within_distance(hp.obj(), hq.obj(), dsga::basic_vector<T, 1>(T(d))) == (sq <= d * d), "within_distance(one lane)", ind);
		R.check(dsga::within_distance(hq.obj(), hp.obj(), T(d)) == (sq <= d * d), "within_distance the other way about", ind);
	}
}

// ------------------------------------------------------------------------------------------------------- curves and angles

template <std::size_t N, typename V>
bool exactly(const V &got, const std::array<LD, N> &want)
{
	if constexpr (std::is_arithmetic_v<V>) return static_cast<LD>(got) == want[0];
	else { for (std::size_t i = 0; i < N; ++i) if (static_cast<LD>(got[i]) != want[i]) return false; return true; }
}

template <std::size_t N, typename V>
bool closely(const V &got, const std::array<LD, N> &want, LD scale, LD ulp)
{
	auto one = [&](LD g, LD w) { return std::fabs(g - w) <= scale * ulp * std::numeric_limits<T>::epsilon(); };
	if constexpr (std::is_arithmetic_v<V>) return one(got, want[0]);
	else { for (std::size_t i = 0; i < N; ++i) if (!one(got[i], want[i])) return false; return true; }
}

template <std::size_t N, kind K1, kind K2>
void curves(rng &r)
{
	std::array<std::array<T, N>, 4> p;
	const bool exact = r.coin();
	LD scale = 1;
	for (auto &q : p) for (auto &e : q) { e = exact ? static_cast<T>(r.range(-50, 50)) : static_cast<T>((r.unit() * 2 - 1) * std::pow(10.0, static_cast<double>(r.range(-2, 4)))); scale = std::max<LD>(scale, std::fabs(e)); }
	const T t = exact ? static_cast<T>(r.range(-8, 16)) / T(8) : r.below(6) == 0 ? T(r.below(2)) : static_cast<T>(r.unit());
	holder<K1, T, N> h0(p[0]), h1(p[1]);
	holder<K2, T, N> h2(p[2]), h3(p[3]);
	const LD u = t, c = 1 - u;
	std::array<LD, N> quad, cubic;
	for (std::size_t i = 0; i < N; ++i)
	{
		quad[i] = c * c * p[0][i] + 2 * u * c * p[1][i] + u * u * p[2][i];
		cubic[i] = c * c * c * p[0][i] + 3 * u * c * c * p[1][i] + 3 * u * u * c * p[2][i] + u * u * u * p[3][i];
	}
	const std::string in = show(p[0]) + show(p[1]) + show(p[2]) + show(p[3]) + " at " + show(t);
	R.saw(mix(hash_arr(p[0]), mix(hash_arr(p[3]), bits_of(t))), varied(p[0]));
	auto both = [&](const char *how, const auto &got, const std::array<LD, N> &want) {
		const bool ok = exact ? exactly(got, want) : closely(got, want, scale, 24);
		R.check(ok, how, std::string(how) + " differs from the Bernstein form for " + in);
	};
	both("quadratic_bezier_eval", quadratic_bezier_eval(h0.obj(), h1.obj(), h2.obj(), t), quad);
	both("quadratic_bezier_eval2", quadratic_bezier_eval2(h0.obj(), h1.obj(), h2.obj(), t), quad);
	both("cubic_bezier_eval", cubic_bezier_eval(h0.obj(), h1.obj(), h2.obj(), h3.obj(), t), cubic);
	both("cubic_bezier_eval2", cubic_bezier_eval2(h0.obj(), h1.obj(), h2.obj(), h3.obj(), t), cubic);
	// the ends, whatever the control points in between
	auto ends = [&](const char *how, const auto &got, const std::array<T, N> &want) {
		std::array<LD, N> w;
		for (std::size_t i = 0; i < N; ++i) w[i] = want[i];
		R.check(exactly(got, w), how, std::string(how) + " does not meet its end point for " + in);
	};
	ends("cubic_bezier_eval(0)", cubic_bezier_eval(h0.obj(), h1.obj(), h2.obj(), h3.obj(), T(0)), p[0]);
	ends("cubic_bezier_eval(1)", cubic_bezier_eval(h0.obj(), h1.obj(), h2.obj(), h3.obj(), T(1)), p[3]);
	ends("quadratic_bezier_eval(0)", quadratic_bezier_eval(h0.obj(), h1.obj(), h2.obj(), T(0)), p[0]);
	ends("quadratic_bezier_eval(1)", quadratic_bezier_eval(h0.obj(), h1.obj(), h2.obj(), T(1)), p[2]);
	if (!h0.guards() || !h1.guards() || !h2.guards() || !h3.guards()) R.fail(R.sec + ":argument", "a curve wrote to its control points");
	if constexpr (N >= 2 && N <= 3)
	{
		// directions from parallel to opposite
		auto a = arr<T, N>([&] { return static_cast<T>((r.unit() * 2 - 1) * std::pow(10.0, static_cast<double>(r.range(-3, 3)))); });
		std::array<T, N> b;
		const u64 how = r.below(4);
		const T f = static_cast<T>(std::ldexp(1.0, static_cast<int>(r.range(-6, 6))));
		for (std::size_t i = 0; i < N; ++i) b[i] = how == 0 ? a[i] * f : how == 1 ? -a[i] * f : how == 2 ? a[i] * (T(1) + static_cast<T>(r.range(-3, 3)) * T(1e-3)) * (r.coin() ? T(1) : T(1)) : static_cast<T>(r.unit() * 2 - 1);
		if (how == 2 && r.coin()) for (auto &e : b) e = -e;
		holder<K1, T, N> ha(a);
		holder<K2, T, N> hb(b);
		LD dot = 0, cr2 = 0, aa = 0, bb = 0;
		for (std::size_t i = 0; i < N; ++i) { dot += LD(a[i]) * b[i]; aa += LD(a[i]) * a[i]; bb += LD(b[i]) * b[i]; for (std::size_t j = 0; j < i; ++j) { LD m = LD(a[i]) * b[j] - LD(a[j]) * b[i]; cr2 += m * m; } }
		if (aa > 1e-8 && bb > 1e-8)
		{
			const T g = angle_between(ha.obj(), hb.obj()), g2 = angle_between(hb.obj(), ha.obj());
			const LD want = std::atan2(std::sqrt(cr2), dot);
			const std::string ia = show(a) + " and " + show(b);
			R.saw(mix(hash_arr(a), hash_arr(b)));
			R.check(std::fabs(g - want) <= 16 * std::numeric_limits<T>::epsilon() && std::fabs(g2 - want) <= 16 * std::numeric_limits<T>::epsilon(), "angle_between", "the angle of " + ia + " is " + show(g) + " and " + show(g2) + " should be " + std::to_string(want));
			if (how == 0) R.check(g <= 8 * std::numeric_limits<T>::epsilon() && g >= 0, "angle_between parallel", ia + " has angle " + show(g));
		}
	}
}

// --------------------------------------------------------------------------------------------------- points, lines and planes

#if WHAT == 2
using P3 = std::array<LD, 3>;
P3 sub(const P3 &a, const P3 &b) { return { a[0] - b[0], a[1] - b[1], a[2] - b[2] }; }
P3 cross(const P3 &a, const P3 &b) { return { a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0] }; }
LD dot(const P3 &a, const P3 &b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
LD len(const P3 &a) { return std::sqrt(dot(a, a)); }
template <typename V> P3 to3(const V &v) { return { v[0], v[1], v[2] }; }

template <kind K1, kind K2>
void geometry(rng &r)
{
	auto pt = [&] { return arr<T, 3>([&] { return r.coin() ? static_cast<T>(r.range(-9, 9)) : static_cast<T>((r.unit() * 2 - 1) * 10); }); };
	auto a = pt(), b = pt(), c = pt(), q = pt();
	const P3 A = to3(a), B = to3(b), C = to3(c), Q = to3(q);
	const P3 ab = sub(B, A), ac = sub(C, A), bc = sub(C, B);
	const LD la = len(bc), lb = len(ac), lc = len(ab), area = len(cross(ab, ac));
	// triangles which are not too thin
	if (lc < 1 || la < 1 || lb < 1 || area < LD(0.15) * std::max({ la * lb, lb * lc, la * lc })) { R.count("thin triangle, not judged"); return; }
	const LD eps = std::numeric_limits<T>::epsilon();
	holder<K1, T, 3> ha(a), hb(b);
	holder<K2, T, 3> hc(c), hq(q);
	const std::string in = show(a) + show(b) + show(c) + " and " + show(q);
	R.saw(mix(hash_arr(a), mix(hash_arr(b), mix(hash_arr(c), hash_arr(q)))));
	auto zero = [&](const char *how, LD v, LD scale) { R.check(std::fabs(v) <= scale * eps, how, std::string(how) + " is off by " + std::to_string(v / eps) + " eps for " + in); };
	// the closest point of a line: on the line, and the rest is perpendicular to it
	auto on_line = [&](const char *how, const auto &p) { const P3 d = to3(p); zero((std::string(how) + " perpendicular").c_str(), dot(sub(Q, d), ab) / lc, 20000); zero((std::string(how) + " on the line").c_str(), len(cross(sub(d, A), ab)) / lc, 20000); };
	on_line("project_to_line1", project_to_line1(hq.obj(), ha.obj(), hb.obj()));
	on_line("project_to_line2", project_to_line2(hq.obj(), ha.obj(), hb.obj()));
	on_line("project_to_line3", project_to_line3(hq.obj(), ha.obj(), hb.obj()));
	zero("distance_to_line", distance_to_line(hq.obj(), ha.obj(), hb.obj()) - len(cross(sub(Q, A), ab)) / lc, 20000);
	// the closest point of a plane
	const P3 n = cross(ab, ac);
	auto on_plane = [&](const char *how, const auto &p) { const P3 d = to3(p); zero((std::string(how) + " on the plane").c_str(), dot(sub(d, A), n) / area, 80000); zero((std::string(how) + " perpendicular").c_str(), len(cross(sub(Q, d), n)) / area, 80000); };
	on_plane("project_to_plane1", project_to_plane1(hq.obj(), ha.obj(), hb.obj(), hc.obj()));
	on_plane("project_to_plane2", project_to_plane2(hq.obj(), ha.obj(), hb.obj(), hc.obj()));
	// the circle through three points
	const P3 o = to3(three_point_circle_center(ha.obj(), hb.obj(), hc.obj()));
	const LD rad = three_point_circle_radius(ha.obj(), hb.obj(), hc.obj());
	for (auto *p : { &A, &B, &C }) zero("three_point_circle", len(sub(*p, o)) - rad, 200000);
	zero("three_point_circle_center in the plane", dot(sub(o, A), n) / area, 200000);
	// the circle inside the triangle: the same distance from every side
	const P3 i = to3(triangle_incenter(ha.obj(), hb.obj(), hc.obj()));
	const LD d1 = len(cross(sub(i, A), ab)) / lc, d2 = len(cross(sub(i, A), ac)) / lb, d3 = len(cross(sub(i, B), bc)) / la;
	zero("triangle_incenter", d1 - d2, 20000);
	zero("triangle_incenter", d1 - d3, 20000);
	zero("triangle_incenter in the plane", dot(sub(i, A), n) / area, 20000);
	// the sphere inside a tetrahedron with the origin
	const LD vol = dot(A, cross(B, C));
	if (std::fabs(vol) > 20)
	{
		const P3 s = to3(tetrahedron_incenter(ha.obj(), hb.obj(), hc.obj()));
		auto face = [&](const P3 &m) { return std::fabs(dot(s, m)) / len(m); };
		const LD f1 = face(cross(A, B)), f2 = face(cross(B, C)), f3 = face(cross(C, A)), f4 = std::fabs(dot(sub(s, A), n)) / area;
		zero("tetrahedron_incenter", f1 - f2, 80000);
		zero("tetrahedron_incenter", f1 - f3, 80000);
		zero("tetrahedron_incenter", f1 - f4, 80000);
	}
	// a quarter turn, exactly
	{
		const dsga::basic_vector<T, 2> v(a[0], a[1]);
		auto p1 = get_perpendicular1(v), p2 = get_perpendicular2(v);
		R.check(p1[0] == -a[1] && p1[1] == a[0] && p2[0] == -a[1] && p2[1] == a[0], "get_perpendicular", "a quarter turn is wrong for " + in);
	}
	if (R.evals % 1999 == 7) R.sample(in);
}
#endif

int main(int argc, char **argv)
{
	R.start(argc, argv);
	rng r(R.seed);
	for (R.cur_case = 0; R.cur_case < R.cases; ++R.cur_case)
	{
#if WHAT == 2
		R.section(std::string("geometry/") + tname<T>);
		geometry<Vec, Vec>(r);
		geometry<Swz, View>(r);
		geometry<VSwz, CVec>(r);
#else
		for_sizes([&](auto n) {
			constexpr std::size_t N = n;
			const std::string w = std::string("/") + tname<T> + "/" + std::to_string(N);
#if WHAT == 0 || WHAT == 9
			R.section("tolerance" + w);
			tolerance<N, Vec, Vec>(r);
			tolerance<N, Swz, CVec>(r);
			tolerance<N, View, VSwz>(r);
#else
			R.section("curves" + w);
			curves<N, Vec, Vec>(r);
			curves<N, Swz, CView>(r);
			curves<N, VSwz, VV>(r);
#endif
		});
#endif
	}
	return R.finish();
}
