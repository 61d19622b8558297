// P30: the STL converter (examples/stl.cxx), run over generated, degenerate and hostile files in a scratch directory of its own.
#include "mon.hpp"
#include "stl.cxx"
#include <dirent.h>
#include <iterator>
#include <sstream>
#include <sys/stat.h>
using namespace mon;
using LD = long double;

static std::string dir;							// scratch directory, made and removed by this program

using bytes = std::string;
struct facet { float v[3][3]; };
enum fate { good, bad, either };

static void put_file(const std::string &p, const bytes &b) { std::ofstream(p, std::ios::binary) << b; }
static bytes get_file(const std::string &p)
{
	struct stat st;
	if (::stat(p.c_str(), &st) != 0 || !S_ISREG(st.st_mode)) return {};
	std::ifstream f(p, std::ios::binary);
	return bytes(std::istreambuf_iterator<char>(f), {});
}
static bool there(const std::string &p) { struct stat st; return ::lstat(p.c_str(), &st) == 0; }

struct outcome { int status; std::string out, err; bool threw; };

// the converter as a program would be run: its arguments, what it is told, what it says
static outcome convert(const std::vector<std::string> &args, const std::string &answer)
{
	std::vector<std::string> store{ "stl" };
	store.insert(store.end(), args.begin(), args.end());
	std::vector<char *> argv;
	for (auto &s : store) argv.push_back(s.data());
	argv.push_back(nullptr);
	std::istringstream in(answer);
	std::ostringstream out, err;
	auto *i = std::cin.rdbuf(in.rdbuf());
	auto *o = std::cout.rdbuf(out.rdbuf());
	auto *e = std::cerr.rdbuf(err.rdbuf());
	std::cin.clear();
	outcome r{ -1, {}, {}, false };
	try { r.status = stl_main(static_cast<int>(store.size()), argv.data()); }
	catch (const std::exception &x) { r.threw = true; r.err = x.what(); }
	std::cin.rdbuf(i);
	std::cout.rdbuf(o);
	std::cerr.rdbuf(e);
	std::cin.clear();
	r.out = out.str();
	if (!r.threw) r.err = err.str();
	return r;
}

// --------------------------------------------------------------------------------------------------------------- meshes

static facet ordinary(rng &r)
{
	facet f;
	const float scale = std::ldexp(1.0f, static_cast<int>(r.range(-8, 10)));
	for (auto &v : f.v)
		for (auto &c : v) c = gen_mod<float>(r) * scale;
	return f;
}

static facet make_facet(rng &r)
{
	facet f = ordinary(r);
	switch (r.below(8))
	{
		case 0:		// any bits anywhere
			for (auto &v : f.v)
				for (auto &c : v) c = gen<float>(r);
			break;
		case 1:		// one NaN or infinity, in any corner and lane
		{
			const float t[] = { std::numeric_limits<float>::quiet_NaN(), -std::numeric_limits<float>::quiet_NaN(), std::numeric_limits<float>::infinity(), -std::numeric_limits<float>::infinity() };
			f.v[r.below(3)][r.below(3)] = t[r.below(4)];
			break;
		}
		case 2:		// two equal corners
		{
			const std::size_t a = r.below(3);
			std::memcpy(f.v[a], f.v[(a + 1 + r.below(2)) % 3], sizeof f.v[a]);
			break;
		}
		case 3:		// corners on a line, exactly
			for (int i = 0; i < 3; ++i)
			{
				const float o = static_cast<float>(r.range(-100, 100)), d = static_cast<float>(r.range(-100, 100));
				f.v[0][i] = o;
				f.v[1][i] = o + d;
				f.v[2][i] = o + static_cast<float>(static_cast<int>(f.v[2][0]) % 2 ? 3 : -2) * d;
			}
			break;
		case 4:		// in an axis plane: two components of the normal are zero
		{
			const int k = static_cast<int>(r.below(3));
			const float far[] = { 0.0f, -0.0f, std::numeric_limits<float>::max(), std::numeric_limits<float>::lowest(), std::numeric_limits<float>::denorm_min(), -std::numeric_limits<float>::min(), gen<float>(r) };
			f.v[0][k] = f.v[1][k] = f.v[2][k] = far[r.below(7)];
			break;
		}
		case 5:		// thin
			for (int i = 0; i < 3; ++i) f.v[2][i] = f.v[1][i] + (f.v[1][i] - f.v[0][i]) * 1e-3f;
			break;
		default: break;
	}
	return f;
}

static LD cross_of(const facet &f, LD c[3])
{
	LD a[3], b[3];
	for (int i = 0; i < 3; ++i)
	{
		a[i] = static_cast<LD>(f.v[1][i]) - f.v[0][i];
		b[i] = static_cast<LD>(f.v[2][i]) - f.v[0][i];
	}
	LD s = 0, sa = 0, sb = 0;
	for (int i = 0; i < 3; ++i)
	{
		c[i] = a[(i + 1) % 3] * b[(i + 2) % 3] - a[(i + 2) % 3] * b[(i + 1) % 3];
		s += c[i] * c[i];
		sa += a[i] * a[i];
		sb += b[i] * b[i];
	}
	const LD len = std::sqrt(s);
	for (int i = 0; i < 3; ++i) c[i] = len > 0 ? c[i] / len : 0;
	// how far from a sliver: 1 for a right angle, larger for thin ones, negative where single precision cannot hold the products
	if (!(s > 0)) return -1;
	const LD big = std::max(sa, sb), small = std::min(sa, sb);
	if (!(s > 1e-28L && s < 1e28L && big < 1e17L && small > 1e-17L)) return -1;
	return std::sqrt(sa) * std::sqrt(sb) / len;
}

static fate judge(const facet &f)
{
	for (auto &v : f.v)
		for (float c : v)
			if (!std::isfinite(c)) return bad;
	for (int a = 0; a < 3; ++a)
	{
		bool eq = true;
		for (int i = 0; i < 3; ++i) eq = eq && f.v[a][i] == f.v[(a + 1) % 3][i];
		// with corner 1 the same as 2 both products are the same; with 0 in it an edge is zero
		if (eq) return bad;
	}
	bool small = true;
	for (auto &v : f.v)
		for (float c : v) small = small && std::fabs(c) <= 1000 && c == std::trunc(c);
	LD n[3];
	const LD thin = cross_of(f, n);
	if (small)
	{
		// everything is exact
		for (LD c : n) if (c != 0) return thin > 0 && thin < 1e3L ? good : either;
		return bad;
	}
	return thin > 0 && thin < 1e3L ? good : either;
}

static bytes file_of(const std::vector<facet> &m, rng &r, unsigned count)
{
	bytes b;
	const bool text = r.below(3) == 0;
	for (int i = 0; i < 80; ++i) b += text ? "solid "[i % 6] : static_cast<char>(r.next());
	for (int i = 0; i < 4; ++i) b += static_cast<char>(count >> (8 * i));
	for (auto &f : m)
	{
		for (int i = 0; i < 12; ++i) b += static_cast<char>(r.next());				// a normal which is not to be trusted
		for (auto &v : f.v)
			for (float c : v)
			{
				const unsigned u = std::bit_cast<unsigned>(c);
				for (int i = 0; i < 4; ++i) b += static_cast<char>(u >> (8 * i));
			}
		b += static_cast<char>(r.next());
		b += static_cast<char>(r.next());
	}
	return b;
}

// --------------------------------------------------------------------------------------------------------------- reading the text back

struct text_facet { float n[3], v[3][3]; };

static bool line(const char *&p, std::string &l)
{
	const char *e = std::strchr(p, '\n');
	if (!e) return false;
	l.assign(p, e);
	p = e + 1;
	return true;
}

static bool triple(const std::string &l, const char *head, float t[3])
{
	const std::size_t h = std::strlen(head);
	if (l.compare(0, h, head) != 0) return false;
	const char *p = l.c_str() + h;
	for (int i = 0; i < 3; ++i)
	{
		if (*p != ' ') return false;
		char *e;
		t[i] = std::strtof(p, &e);
		if (e == p) return false;
		p = e;
	}
	return *p == 0;
}

static bool parse(const std::string &s, std::vector<text_facet> &m)
{
	if (s.find('\0') != std::string::npos) return false;
	const char *p = s.c_str();
	std::string l;
	if (!line(p, l) || l.compare(0, 5, "solid") != 0) return false;
	for (;;)
	{
		if (!line(p, l)) return false;
		if (l.compare(0, 8, "endsolid") == 0) return *p == 0;
		text_facet f;
		if (!triple(l, "  facet normal", f.n)) return false;
		if (!line(p, l) || l != "    outer loop") return false;
		for (auto &v : f.v)
			if (!line(p, l) || !triple(l, "      vertex", v)) return false;
		if (!line(p, l) || l != "    endloop") return false;
		if (!line(p, l) || l != "  endfacet") return false;
		m.push_back(f);
	}
}

static std::string show(const facet &f)
{
	std::string s;
	for (auto &v : f.v)
	{
		s += " (";
		for (float c : v) s += mon::show(c) + " ";
		s += ")";
	}
	return s;
}

// --------------------------------------------------------------------------------------------------------------- scenarios

static void whole_files(rng &r)
{
	R.section("whole-file");
	const std::size_t n = r.below(12) == 0 ? r.below(200) : r.below(8);
	std::vector<facet> m;
	for (std::size_t i = 0; i < n; ++i) m.push_back(r.coin() ? ordinary(r) : make_facet(r));
	if (n > 1 && r.coin()) m[r.below(n)] = m[r.below(n)];
	const bytes b = file_of(m, r, static_cast<unsigned>(n));
	const std::string src = dir + "/in.stl", dst = dir + "/out.stl";
	put_file(src, b);
	::unlink(dst.c_str());
	const bool existing = r.below(4) == 0;
	if (existing) put_file(dst, bytes(r.below(3000), 'x'));
	const char *yes[] = { "", "\n", "y\n", "Y\n", "yes\n" };
	const outcome o = convert({ src, dst }, existing ? yes[r.below(5)] : "");
	R.check(!o.threw, "throws", "converting a proper file throws " + o.err);
	R.check(get_file(src) == b, "source", "the source was changed");
	std::vector<text_facet> t;
	const std::string text = get_file(dst);
	u64 h = n;
	for (auto &f : m)
		for (auto &v : f.v)
			for (float c : v) h = mix(h, bits_of(c));
	R.saw(h, n > 0);
	if (!parse(text, t)) { R.check(false, "text", "the output is not an ASCII STL file: " + text.substr(0, 400)); return; }
	std::size_t k = 0, goods = 0, bads = 0;
	for (auto &f : m)
	{
		const fate w = judge(f);
		goods += w == good;
		bads += w == bad;
		bool here = k < t.size();
		for (int a = 0; here && a < 3; ++a)
			for (int i = 0; i < 3; ++i) here = here && bits_of(t[k].v[a][i]) == bits_of(f.v[a][i]);
		if (!here)
		{
			R.check(w != good, "facet", "a good facet is missing from the output, or out of order, or reads back differently:" + show(f) + (k < t.size() ? " next in the output is" + show(std::bit_cast<facet>(t[k].v)) : ""));
			continue;
		}
		R.check(w != bad, "bad-facet", "a facet with a NaN or infinite corner, or without a normal, was written:" + show(f));
		LD c[3];
		const LD thin = cross_of(f, c);
		if (w == good)
		{
			const LD tol = 4e-7L + 1e-6L * thin;
			bool ok = true;
			LD len = 0;
			for (int i = 0; i < 3; ++i)
			{
				ok = ok && std::fabs(t[k].n[i] - c[i]) <= tol;
				len += static_cast<LD>(t[k].n[i]) * t[k].n[i];
			}
			R.check(ok && std::fabs(len - 1) < 2e-6L, "normal", "the normal (" + mon::show(t[k].n[0]) + " " + mon::show(t[k].n[1]) + " " + mon::show(t[k].n[2]) + ") is not the unit normal of" + show(f));
		}
		++k;
	}
	R.check(k == t.size(), "extra", "the output has " + std::to_string(t.size()) + " facets, of which only " + std::to_string(k) + " are in the source in that order");
	R.check((o.status == EXIT_SUCCESS) == !t.empty(), "status", "exit status " + std::to_string(o.status) + " with " + std::to_string(t.size()) + " facets written");
	const auto left = n - k;
	R.check((o.err.find("number of bad facets: " + std::to_string(left) + "\n") != std::string::npos) == (left > 0), "report", std::to_string(left) + " facets were left out, and it says: " + o.err);
	R.count("facets/good", goods);
	R.count("facets/bad", bads);
	R.count("facets/either", n - goods - bads);
	if (R.evals % 499 == 3) R.sample(std::to_string(n) + " facets, " + std::to_string(t.size()) + " written, status " + std::to_string(o.status));
}

// what has to be refused: nothing may be written, and nothing changed
static void refused(const std::string &what, const std::vector<std::string> &args, const std::string &src, const std::string &dst, const std::string &answer)
{
	const bool had = there(dst), had_src = there(src);
	const bytes before = get_file(dst), sb = get_file(src);
	const outcome o = convert(args, answer);
	if (o.threw) { R.fail("refused/" + what + ":throws", "not refused, but an exception leaves the program: " + o.err); }
	else R.check(o.status == EXIT_FAILURE, what + "/status", "accepted, status " + std::to_string(o.status));
	R.check(there(dst) == had && get_file(dst) == before, what + "/target", "the target was touched");
	R.check(there(src) == had_src && get_file(src) == sb, what + "/source", "the source was touched");
	R.check(o.threw || !o.err.empty() || !o.out.empty(), what + "/said", "refused without a word");
	R.count("refused/" + what);
}

static void bad_files(rng &r)
{
	R.section("refused");
	const std::string src = dir + "/in.stl", dst = dir + "/out.stl";
	const std::size_t n = r.below(5);
	std::vector<facet> m;
	for (std::size_t i = 0; i < n; ++i) m.push_back(ordinary(r));
	bytes b = file_of(m, r, static_cast<unsigned>(n));
	::unlink(dst.c_str());
	::unlink(src.c_str());
	if (r.coin()) put_file(dst, "something else");
	const std::size_t k = r.below(9);
	R.saw(mix(mix(k, b.size()), r.s));
	switch (k)
	{
		case 0:		// too short, by any number of bytes
			b.resize(r.below(b.size()));
			put_file(src, b);
			refused("truncated", { src, dst }, src, dst, "y\n");
			break;
		case 1:		// too long
			b.append(1 + r.below(120), static_cast<char>(r.next()));
			put_file(src, b);
			refused("overlong", { src, dst }, src, dst, "y\n");
			break;
		case 2:		// a count which is off, also by amounts for which 50 * count + 84 is the size in 32 bits
		{
			unsigned c = static_cast<unsigned>(n);
			switch (r.below(4))
			{
				case 0: c = static_cast<unsigned>(r.next()); break;
				case 1: c += 0x80000000u; break;
				case 2: c = c + 1; break;
				default: c ^= 1u << r.below(32); break;
			}
			if (c == n) ++c;
			put_file(src, file_of(m, r, c));
			refused("count", { src, dst }, src, dst, "y\n");
			break;
		}
		case 3: refused("missing", { src, dst }, src, dst, "y\n"); break;
		case 4: put_file(src, ""); refused("empty", { src, dst }, src, dst, "y\n"); break;
		case 5:
			put_file(src, b);
			switch (r.below(3))
			{
				case 0: refused("arguments", {}, src, dst, "y\n"); break;
				case 1: refused("arguments", { src }, src, dst, "y\n"); break;
				default: refused("arguments", { src, dst, dst }, src, dst, "y\n"); break;
			}
			break;
		case 6:		// told not to overwrite
		{
			put_file(src, b);
			put_file(dst, "precious");
			const char *no[] = { "n\n", "N\n", "no\n", "x\n", " y\n", "0\n" };
			refused("declined", { src, dst }, src, dst, no[r.below(6)]);
			break;
		}
		case 7:		// a target which cannot be one
			put_file(src, b);
			if (r.coin()) refused("target-directory", { src, dir }, src, dir, "y\n");
			else refused("target-nowhere", { src, dir + "/none/out.stl" }, src, dir + "/none/out.stl", "y\n");
			break;
		default:	// the source itself
			put_file(src, b);
			refused("same-file", { src, src }, src, src, "y\n");
			break;
	}
}

// recorded findings, with keys of their own
static void findings(rng &r)
{
	const std::string src = dir + "/in.stl", other = dir + "/link.stl", dst = dir + "/out.stl";
	std::vector<facet> m{ ordinary(r), ordinary(r) };
	const bytes b = file_of(m, r, 2);
	{
		R.section("source-is-no-file");
		::unlink(dst.c_str());
		const std::string sub = dir + "/folder";
		::mkdir(sub.c_str(), 0700);
		const outcome o = convert({ sub, dst }, "y\n");
		R.saw(1);
		if (o.threw) R.fail("source-is-a-directory:throws", "an exception leaves the program when the source is a directory");
		else R.check(o.status == EXIT_FAILURE, "directory", "a directory was accepted as source");
		R.check(!there(dst), "target", "a target was made");
		::rmdir(sub.c_str());
	}
	{
		R.section("source-by-another-name");
		for (int k = 0; k < 3; ++k)
		{
			put_file(src, b);
			::unlink(other.c_str());
			std::string name = other;
			if (k == 0) { if (::symlink(src.c_str(), other.c_str()) != 0) continue; }
			else if (k == 1) { if (::link(src.c_str(), other.c_str()) != 0) continue; }
			else name = dir + "/./in.stl";
			const outcome o = convert({ src, name }, "y\n");
			R.saw(static_cast<u64>(k) + 2);
			R.check(!o.threw, "throws", o.err);
			if (get_file(src) != b) R.fail(std::string("source-by-another-name:") + (k == 0 ? "symlink" : k == 1 ? "hard-link" : "dot"), "the source was overwritten when it was named as the target in another way");
			else R.check(o.status == EXIT_FAILURE, "status", "accepted");
			::unlink(other.c_str());
		}
	}
}

int main(int argc, char **argv)
{
	R.start(argc, argv);
	const char *t = std::getenv("TMPDIR");
	std::string tmpl = std::string(t && *t ? t : "/tmp") + "/p30.XXXXXX";
	if (!::mkdtemp(tmpl.data())) return 9;
	dir = tmpl;
	rng r(R.seed);
	findings(r);
	for (R.cur_case = 0; R.cur_case < R.cases; ++R.cur_case)
	{
		whole_files(r);
		bad_files(r);
	}
	for (const char *f : { "/in.stl", "/out.stl", "/link.stl" }) ::unlink((dir + f).c_str());
	::rmdir(dir.c_str());
	return R.finish();
}
