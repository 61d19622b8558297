// P34: streams and std::format (examples/) print every logical lane once, in order, the way they print the lane by itself.
//   ELEM element type    WHAT 0 streams, 1 std::format
#include "kinds.hpp"
#include <charconv>
#include <format>
#include <iomanip>
#include <sstream>
#include "ostream_output.hxx"
#include "format_output.hxx"
using namespace mon;
using T = ELEM;

struct style
{
	std::ios_base::fmtflags flags{};
	std::streamsize precision = 6;
	char fill = ' ';
	void to(std::ostream &o) const { o.flags(flags); o.precision(precision); o.fill(fill); }
};

style styled(rng &r)
{
	style s;
	using I = std::ios_base;
	const I::fmtflags bases[] = { I::dec, I::hex, I::oct }, floats[] = { I::fmtflags{}, I::fixed, I::scientific, I::fixed | I::scientific };
	s.flags = bases[r.below(3)] | floats[r.below(4)];
	for (auto f : { I::showbase, I::showpoint, I::showpos, I::uppercase, I::boolalpha, I::left }) if (r.coin()) s.flags |= f;
	s.precision = static_cast<std::streamsize>(r.below(3) ? r.below(20) : std::numeric_limits<T>::max_digits10);
	if (r.coin()) s.fill = '*';
	return s;
}

std::string scalar(const style &s, T v)
{
	std::ostringstream o;
	s.to(o);
	if constexpr (std::is_same_v<T, bool>) o << std::boolalpha;
	o << v;
	return o.str();
}

template <typename P, std::size_t N>
std::string listed(const std::array<T, N> &a, P &&print, std::size_t from = 0, std::size_t count = N)
{
	std::string s = "[";
	for (std::size_t i = from; i < from + count; ++i) s += (i > from ? ", " : "") + print(a[i]);
	return s + "]";
}

// the lanes which the text shows
template <std::size_t N>
bool read_back(const std::string &s, const std::array<T, N> &a)
{
	const char *p = s.c_str();
	std::size_t n = 0;
	for (; *p; )
	{
		if (*p == '[' || *p == ']' || *p == ',' || *p == ' ') { ++p; continue; }
		if (n == N) return false;
		char *e;
		T v;
		if constexpr (std::is_same_v<T, bool>) { v = std::strncmp(p, "true", 4) == 0; if (!v && std::strncmp(p, "false", 5)) return false; e = const_cast<char *>(p) + (v ? 4 : 5); }
		else if constexpr (std::is_same_v<T, float>) v = std::strtof(p, &e);
		else if constexpr (std::is_same_v<T, double>) v = std::strtod(p, &e);
		else if constexpr (std::is_signed_v<T>) v = static_cast<T>(std::strtoll(p, &e, 10));
		else v = static_cast<T>(std::strtoull(p, &e, 10));
		if (e == p) return false;
		p = e;
		if (!same(v, a[n++])) return false;
	}
	return n == N;
}

template <std::size_t N, typename V>
void stream(rng &r, const V &v, const std::array<T, N> &a, const char *what)
{
	for (int k = 0; k < 2; ++k)
	{
		const style s = styled(r);
		std::ostringstream o;
		s.to(o);
		o << "<" << v << ">" << 1.5 << v;
		std::ostringstream w;
		s.to(w);
		if constexpr (std::is_same_v<T, bool>) w << std::boolalpha;
		const std::string l = listed(a, [&](T e) { return scalar(s, e); });
		w << "<" << l << ">" << 1.5 << l;
		R.saw(mix(hash_arr(a), mix(hash_str(what), static_cast<u64>(s.flags) * 64 + static_cast<u64>(s.precision))), varied(a));
		if (o.str() != w.str()) R.fail(R.sec + ":" + what, std::string(what) + " prints " + o.str() + " want " + w.str());
		if (R.evals % 7919 == 5) R.sample(l);
	}
	// enough digits, nothing lost
	std::ostringstream o;
	o << std::setprecision(std::numeric_limits<T>::max_digits10) << v;
	R.check(read_back(o.str(), a), std::string(what) + " read back", o.str() + " does not read back as " + show(a));
	// a stream which is already bad stays so, and nothing is printed
	std::ostringstream b;
	b.setstate(std::ios_base::badbit);
	b << v;
	R.check(b.bad() && b.str().empty(), std::string(what) + " on a bad stream", "something was printed to a bad stream");
}

#if defined(__cpp_lib_format)
std::string spec(rng &r)
{
	std::string s = "{:";
	if (r.below(3) == 0) { const char *al[] = { "<", ">", "^", "*<", "#>", "_^" }; s += al[r.below(6)]; }
	const bool sgn = !std::is_same_v<T, bool> && r.below(3) == 0;
	if (sgn) { const char *sg[] = { "+", "-", " " }; s += sg[r.below(3)]; }
	bool alt = !std::is_same_v<T, bool> && r.below(4) == 0;
	if (alt) s += "#";
	if (r.below(3) == 0) { if (!std::is_same_v<T, bool> && r.below(3) == 0) s += "0"; s += std::to_string(1 + r.below(20)); }
	if constexpr (std::is_floating_point_v<T>)
	{
		if (r.coin()) s += "." + std::to_string(r.below(20));
		const char *ty[] = { "", "a", "A", "e", "E", "f", "F", "g", "G" };
		s += ty[r.below(9)];
	}
	else if constexpr (!std::is_same_v<T, bool>) { const char *ty[] = { "", "b", "B", "d", "o", "x", "X" }; s += ty[r.below(7)]; }
	else if (r.below(3) == 0) s += "s";
	return s + "}";
}

template <std::size_t N, typename V>
void format(rng &r, const V &v, const std::array<T, N> &a, const char *what)
{
	for (int k = 0; k < 2; ++k)
	{
		const std::string s = spec(r);
		const std::string want = listed(a, [&](T e) { return std::vformat(s, std::make_format_args(e)); });
		const std::string got = std::vformat("<" + s + "|" + s + ">", std::make_format_args(v, v));
		R.saw(mix(hash_arr(a), mix(hash_str(what), hash_str(s.c_str()))), varied(a));
		if (got != "<" + want + "|" + want + ">") R.fail(R.sec + ":" + what, std::string(what) + " with " + s + " prints " + got + " want twice " + want);
		char buf[400];
		const auto n = std::format_to_n(buf, 300, "{}", v);
		*n.out = 0;
		R.check(std::string(buf) == listed(a, [](T e) { return std::format("{}", e); }) && static_cast<std::size_t>(n.size) == std::formatted_size("{}", v), std::string(what) + " into a buffer", std::string(buf) + " for " + show(a));
	}
	R.check(read_back(std::format("{}", v), a), std::string(what) + " read back", std::format("{}", v) + " does not read back as " + show(a));
}
#endif

template <std::size_t N, typename V>
void print(rng &r, const V &v, const std::array<T, N> &a, const char *what)
{
	if constexpr (WHAT == 0) stream<N>(r, v, a, what);
#if defined(__cpp_lib_format)
	else format<N>(r, v, a, what);
#endif
}

template <std::size_t N, kind K>
void one(rng &r, const std::array<T, N> &a, const char *what)
{
	holder<K, T, N> h(a);
	print<N>(r, h.obj(), a, what);
	if (!h.guards() || !std::equal(a.begin(), a.end(), h.read().begin(), [](T p, T q) { return same(p, q); })) R.fail(R.sec + ":argument", "printing wrote to its argument " + show(a));
}

T value(rng &r)
{
	for (;;)
	{
		T v = gen<T>(r);
		if constexpr (std::is_floating_point_v<T>)
		{
			if (std::isnan(v)) return std::numeric_limits<T>::quiet_NaN();
			// text of reasonable length with fixed notation
			if (std::isfinite(v) && std::fabs(v) > T(1e30)) continue;
		}
		return v;
	}
}

template <std::size_t C, std::size_t Rw>
void matrix(rng &r)
{
	if constexpr (dsga::floating_point_scalar<T>)
	{
		auto a = arr<T, C * Rw>([&] { return value(r); });
		dsga::basic_matrix<T, C, Rw> m;
		std::memcpy(&m, a.data(), sizeof a);
		R.saw(mix(hash_arr(a), C * 5 + Rw));
		auto rows = [&](auto &&p) { std::string s = "["; for (std::size_t c = 0; c < C; ++c) s += (c ? ", " : "") + listed(a, p, c * Rw, Rw); return s + "]"; };
		if constexpr (WHAT == 0)
		{
			const style s = styled(r);
			std::ostringstream o;
			s.to(o);
			o << m;
			const std::string want = rows([&](T e) { return scalar(s, e); });
			R.check(o.str() == want, "matrix", "a matrix prints " + o.str() + " want " + want);
			std::ostringstream q;
			q << std::setprecision(std::numeric_limits<T>::max_digits10) << m;
			R.check(read_back(q.str(), a), "matrix read back", q.str() + " does not read back as " + show(a));
		}
#if defined(__cpp_lib_format)
		else
		{
			const std::string s = spec(r), want = rows([&](T e) { return std::vformat(s, std::make_format_args(e)); }), got = std::vformat(s, std::make_format_args(m));
			R.check(got == want, "matrix", "a matrix with " + s + " prints " + got + " want " + want);
			R.check(read_back(std::format("{}", m), a), "matrix read back", std::format("{}", m) + " does not read back as " + show(a));
		}
#endif
	}
}

#if defined(__cpp_lib_format)
// hexadecimal text reads back to the same bits
template <typename U, std::size_t N>
void hexfloats(const dsga::basic_vector<U, N> &v, const std::array<U, N> &a)
{
	if constexpr (std::is_floating_point_v<U>)
	{
		const char *hs[] = { "{:a}", "{:+a}", "{: a}" };
		for (const char *f : hs)
		{
			const std::string t = std::vformat(f, std::make_format_args(a[0]));
			U back{};
			auto res = from_format_hexfloat_chars(t, back);
			R.check(res.ec == std::errc{} && same(back, a[0]) && res.ptr == t.data() + t.size(), "hexfloat", t + " does not read back as " + show(a[0]));
		}
		const std::string t = std::format("{:a}", v);
		std::string rest = t.substr(1);
		bool ok = true;
		for (std::size_t i = 0; ok && i < N; ++i)
		{
			U back{};
			auto res = std::from_chars(rest.data(), rest.data() + rest.size(), back, std::chars_format::hex);
			ok = res.ec == std::errc{} && same(back, a[i]);
			const std::string sep = i + 1 < N ? ", " : "]";
			rest = rest.substr(static_cast<std::size_t>(res.ptr - rest.data()));
			ok = ok && rest.starts_with(sep);
			if (ok) rest = rest.substr(sep.size());
		}
		R.check(ok && rest.empty(), "hexfloat vector", t + " does not read back as " + show(a));
	}
}
#endif

int main(int argc, char **argv)
{
	R.start(argc, argv);
	rng r(R.seed);
	for (R.cur_case = 0; R.cur_case < R.cases; ++R.cur_case)
		for_sizes([&](auto n) {
			constexpr std::size_t N = n;
			R.section(std::string(WHAT ? "format/" : "stream/") + tname<T> + "/" + std::to_string(N));
			auto a = arr<T, N>([&] { return value(r); });
			one<N, Vec>(r, a, "vector");
			one<N, CVec>(r, a, "const vector");
			one<N, Swz>(r, a, "swizzle");
			one<N, View>(r, a, "view");
			one<N, CView>(r, a, "const view");
			one<N, VSwz>(r, a, "view swizzle");
			one<N, VV>(r, a, "view_vector");
			dsga::basic_vector<T, N> v{};
			std::memcpy(&v, a.data(), sizeof v);
			auto b = a;
			dsga::basic_view<true, T, N> w(b.data());
			print<N>(r, v.base, a, "storage");
			print<N>(r, w.base, a, "view storage");
			print<4>(r, v.xxxx, std::array<T, 4>{ a[0], a[0], a[0], a[0] }, "repeating swizzle");
			if constexpr (N > 1) print<3>(r, v.yxy, std::array<T, 3>{ a[1], a[0], a[1] }, "repeating swizzle");
#if defined(__cpp_lib_format)
			if constexpr (WHAT == 1)
			{
				const std::string s = spec(r);
				R.check(std::vformat(s, std::make_format_args(a)) == listed(a, [&](T e) { return std::vformat(s, std::make_format_args(e)); }), "array", "an array is formatted wrongly: " + std::vformat(s, std::make_format_args(a)));
				hexfloats(v, a);
			}
#endif
			if constexpr (N > 1) { matrix<N, 2>(r); matrix<N, 3>(r); matrix<N, 4>(r); }
		});
	return R.finish();
}
