// Monitoring runtime shared by all harnesses: deterministic input generation, the violation recorder, and the
// bookkeeping of what was actually observed.
#pragma once
#include <algorithm>
#include <array>
#include <bit>
#include <cfloat>
#include <climits>
#include <cmath>
#include <concepts>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <limits>
#include <map>
#include <numbers>
#include <set>
#include <string>
#include <sys/mman.h>
#include <type_traits>
#include <unistd.h>
#include <unordered_set>
#include <utility>
#include <vector>

namespace mon
{
	using u64 = unsigned long long;
	using i64 = long long;

	// splitmix64: small, seedable and identical everywhere
	struct rng
	{
		u64 s;
		explicit constexpr rng(u64 seed) : s(seed) {}
		constexpr u64 next()
		{
			u64 z = (s += 0x9e3779b97f4a7c15ull);
			z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
			z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
			return z ^ (z >> 31);
		}
		constexpr u64 below(u64 n) { return n ? next() % n : 0; }
		constexpr i64 range(i64 lo, i64 hi) { return lo + static_cast<i64>(below(static_cast<u64>(hi - lo) + 1)); }
		constexpr bool coin() { return next() & 1; }
		double unit() { return static_cast<double>(next() >> 11) * 0x1p-53; }
	};

	inline u64 mix(u64 h, u64 v)
	{
		h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
		h *= 0xff51afd7ed558ccdull;
		return h ^ (h >> 33);
	}

	inline u64 hash_str(const char *s)
	{
		u64 h = 1469598103934665603ull;
		for (; *s; ++s)
			h = (h ^ static_cast<unsigned char>(*s)) * 1099511628211ull;
		return h;
	}

	// ----------------------------------------------------------------------------------------------------------------
	// names of types, for keys and messages

	template <typename T> constexpr const char *tname = "?";
	template <> inline constexpr const char *tname<float> = "float";
	template <> inline constexpr const char *tname<double> = "double";
	template <> inline constexpr const char *tname<int> = "int";
	template <> inline constexpr const char *tname<unsigned> = "uint";
	template <> inline constexpr const char *tname<long long> = "llong";
	template <> inline constexpr const char *tname<unsigned long long> = "ullong";
	template <> inline constexpr const char *tname<unsigned long> = "ulong";
	template <> inline constexpr const char *tname<bool> = "bool";

	// ----------------------------------------------------------------------------------------------------------------
	// value formatting and comparison

	template <typename T>
	std::string show(T v)
	{
		char b[80];
		if constexpr (std::is_same_v<T, bool>)
			return v ? "true" : "false";
		else if constexpr (std::is_floating_point_v<T>)
			std::snprintf(b, sizeof b, "%.17g(%a)", static_cast<double>(v), static_cast<double>(v));
		else if constexpr (std::is_signed_v<T>)
			std::snprintf(b, sizeof b, "%lld", static_cast<long long>(v));
		else
			std::snprintf(b, sizeof b, "%llu", static_cast<unsigned long long>(v));
		return b;
	}

	template <typename T, std::size_t N>
	std::string show(const std::array<T, N> &a)
	{
		std::string s = "{";
		for (std::size_t i = 0; i < N; ++i)
			s += (i ? "," : "") + show(a[i]);
		return s + "}";
	}

	template <typename T>
	u64 bits_of(T v)
	{
		if constexpr (std::is_same_v<T, float>)
			return std::bit_cast<unsigned>(v);
		else if constexpr (std::is_same_v<T, double>)
			return std::bit_cast<u64>(v);
		else
			return static_cast<u64>(v);
	}

	template <typename T>
	bool isnan_(T v) { if constexpr (std::is_floating_point_v<T>) return std::isnan(v); else return false; }

	// same value: identical bits, or both NaN
	template <typename T>
	bool same(T a, T b)
	{
		if (isnan_(a) || isnan_(b))
			return isnan_(a) && isnan_(b);
		return bits_of(a) == bits_of(b);
	}

	// same value, not telling the zeros apart
	template <typename T>
	bool same_val(T a, T b)
	{
		if (isnan_(a) || isnan_(b))
			return isnan_(a) && isnan_(b);
		return a == b;
	}

	// distance in units in the last place for finite values of the same type
	template <typename T>
	u64 ulps(T a, T b)
	{
		if (std::isnan(a) && std::isnan(b)) return 0;
		if (std::isnan(a) || std::isnan(b)) return ~0ull;
		using I = std::conditional_t<sizeof(T) == 4, int, long long>;
		auto key = [](T v) -> __int128 { I i = std::bit_cast<I>(v); return i < 0 ? -static_cast<__int128>(i & std::numeric_limits<I>::max()) : static_cast<__int128>(i); };
		__int128 d = key(a) - key(b);
		if (d < 0) d = -d;
		return static_cast<u64>(d);
	}

	// ----------------------------------------------------------------------------------------------------------------
	// hostile value generation

	template <typename T>
	T gen(rng &r)
	{
		if constexpr (std::is_same_v<T, bool>)
			return r.coin();
		else if constexpr (std::is_floating_point_v<T>)
		{
			using L = std::numeric_limits<T>;
			switch (r.below(12))
			{
				case 0:
				{
					const T t[] = { T(0), -T(0), T(1), T(-1), T(0.5), T(-0.5), T(2), L::min(), -L::min(), L::max(), L::lowest(), L::denorm_min(),
									-L::denorm_min(), L::epsilon(), T(1) + L::epsilon(), T(1) - L::epsilon() / 2, L::infinity(), -L::infinity(), L::quiet_NaN(),
									std::nextafter(T(0.5), T(0)), -std::nextafter(T(0.5), T(0)), T(1.5), T(2.5), T(-1.5), T(-2.5), T(3.5) };
					return t[r.below(std::size(t))];
				}
				case 1:		// any bit pattern
					if constexpr (sizeof(T) == 4)
						return std::bit_cast<T>(static_cast<unsigned>(r.next()));
					else
						return std::bit_cast<T>(r.next());
				case 2:		// around a power of two
				{
					T p = std::ldexp(T(1), static_cast<int>(r.range(-30, L::digits + 8)));
					T q = r.below(3) == 0 ? p : (r.coin() ? std::nextafter(p, T(0)) : std::nextafter(p, L::max()));
					return r.coin() ? q : -q;
				}
				case 3:		// around halves
				{
					// of every magnitude which has halves
					T p = r.coin() ? static_cast<T>(r.range(-70000, 70000)) : static_cast<T>(static_cast<i64>(r.next() >> (65 - L::digits + r.below(20))) * (r.coin() ? 1 : -1));
					p += T(0.5);
					return r.below(3) == 0 ? p : (r.coin() ? std::nextafter(p, T(0)) : std::nextafter(p, L::max()));
				}
				case 4: return static_cast<T>(r.range(-10, 10));
				case 5: return static_cast<T>(r.range(-1000000, 1000000));
				case 6: return static_cast<T>((r.unit() * 2 - 1) * std::pow(10.0, static_cast<double>(r.range(-30, 30))));
				case 7: return static_cast<T>(r.range(-40, 40)) / T(8);
				default: return static_cast<T>((r.unit() * 2 - 1) * 100);
			}
		}
		else
		{
			using L = std::numeric_limits<T>;
			using U = std::make_unsigned_t<T>;
			switch (r.below(7))
			{
				case 0:
				{
					const T t[] = { T(0), T(1), static_cast<T>(-1), L::min(), L::max(), static_cast<T>(L::max() - 1), static_cast<T>(L::min() + 1), T(2), T(7), T(64) };
					return t[r.below(std::size(t))];
				}
				case 1: return static_cast<T>(static_cast<U>(r.next()));
				case 2: return static_cast<T>(static_cast<U>(U(1) << r.below(sizeof(T) * 8)));
				case 3: return static_cast<T>(static_cast<U>((U(1) << r.below(sizeof(T) * 8)) - 1));
				case 4: return static_cast<T>(static_cast<U>((U(1) << r.below(sizeof(T) * 8)) + 1));
				default: return std::is_signed_v<T> ? static_cast<T>(r.range(-100, 100)) : static_cast<T>(r.range(0, 200));
			}
		}
	}

	// finite, moderate magnitude
	template <typename T>
	T gen_mod(rng &r, T mag = T(100))
	{
		if constexpr (std::is_same_v<T, bool>)
			return r.coin();
		else if constexpr (std::is_floating_point_v<T>)
		{
			switch (r.below(4))
			{
				case 0: return static_cast<T>(r.range(-static_cast<i64>(mag), static_cast<i64>(mag)));
				case 1: return static_cast<T>(r.range(-static_cast<i64>(mag) * 8, static_cast<i64>(mag) * 8)) / T(8);
				default: return static_cast<T>((r.unit() * 2 - 1) * static_cast<double>(mag));
			}
		}
		else if constexpr (std::is_signed_v<T>)
			return static_cast<T>(r.range(-static_cast<i64>(mag), static_cast<i64>(mag)));
		else
			return static_cast<T>(r.range(0, static_cast<i64>(mag)));
	}

	template <typename T>
	T gen_finite(rng &r)
	{
		for (;;)
		{
			T v = gen<T>(r);
			if constexpr (std::is_floating_point_v<T>)
			{
				if (std::isfinite(v))
					return v;
			}
			else
				return v;
		}
	}

	// pairwise distinct marker values, also distinct from everything small the harness writes
	template <typename T>
	T marker(std::size_t i)
	{
		if constexpr (std::is_same_v<T, bool>)
			return (0xB5u >> (i % 8)) & 1;
		else
			return static_cast<T>(1000 + 37 * i);
	}

	// ----------------------------------------------------------------------------------------------------------------
	// recorder

	struct recorder
	{
		FILE *out = nullptr;
		char *progress = nullptr;
		std::string hashname;
		u64 seed = 1, cases = 1000;
		u64 evals = 0, cur_case = 0;
		std::unordered_set<u64> distinct;
		std::map<std::string, u64> counters;
		std::vector<std::string> samples;
		std::map<std::string, u64> viol;
		std::string sec;
		u64 sec_hash = 0;

		static std::string esc(const std::string &s)
		{
			std::string o;
			for (char c : s)
			{
				if (c == '"' || c == '\\') { o += '\\'; o += c; }
				else if (static_cast<unsigned char>(c) < 32 || static_cast<unsigned char>(c) > 126) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", static_cast<unsigned char>(c)); o += b; }
				else o += c;
			}
			return o;
		}

		void section(const std::string &s)
		{
			sec = s;
			sec_hash = hash_str(s.c_str());
			if (progress)
			{
				std::strncpy(progress, s.c_str(), 255);
			}
		}

		// an input was presented to the code under test and its outcome was judged
		void saw(u64 h, bool nontrivial = true)
		{
			++evals;
			++counters[sec];
			if (nontrivial && distinct.size() < 150000)
				distinct.insert(mix(h, sec_hash));
		}

		void sample(const std::string &s)
		{
			if (samples.size() < 12)
				samples.push_back(s);
		}

		void count(const std::string &what, u64 n = 1) { counters[what] += n; }

		void fail(const std::string &key, const std::string &msg)
		{
			if (++viol[key] > 1 || viol.size() > 40)
				return;
			std::fprintf(out, "{\"type\":\"viol\",\"key\":\"%s\",\"msg\":\"%s\",\"seed\":%llu,\"case\":%llu}\n", esc(key).c_str(), esc(msg).c_str(), seed, cur_case);
			std::fflush(out);
		}

		void check(bool ok, const std::string &what, const std::string &msg)
		{
			if (!ok)
				fail(sec + ":" + what, msg);
		}

		int finish()
		{
			std::string s = "{\"type\":\"stat\",\"evaluations\":" + std::to_string(evals) + ",\"distinct\":" + std::to_string(distinct.size()) + ",\"violations\":" + std::to_string(viol.size()) + ",\"counters\":{";
			bool first = true;
			for (auto &[k, v] : counters)
			{
				s += (first ? "" : ",") + ("\"" + esc(k) + "\":" + std::to_string(v));
				first = false;
			}
			s += "},\"samples\":[";
			first = true;
			for (auto &k : samples)
			{
				s += (first ? "" : ",") + ("\"" + esc(k) + "\"");
				first = false;
			}
			s += "]}\n";
			std::fputs(s.c_str(), out);
			std::fclose(out);
			if (!hashname.empty())
			{
				FILE *h = std::fopen(hashname.c_str(), "wb");
				if (!h)
					std::exit(9);
				for (u64 v : distinct)
					std::fwrite(&v, sizeof v, 1, h);
				std::fclose(h);
			}
			return 0;
		}

		void start(int argc, char **argv)
		{
			std::string outname, progname;
			this->hashname.clear();
			for (int i = 1; i + 1 < argc; i += 2)
			{
				std::string k = argv[i], v = argv[i + 1];
				if (k == "--seed") seed = std::stoull(v);
				else if (k == "--cases") cases = std::stoull(v);
				else if (k == "--out") outname = v;
				else if (k == "--hashes") hashname = v;
				else if (k == "--progress") progname = v;
			}
			out = outname.empty() ? stdout : std::fopen(outname.c_str(), "w");
			if (!out)
				std::exit(9);
			if (!progname.empty())
			{
				int fd = ::open(progname.c_str(), O_RDWR | O_CREAT, 0600);
				if (fd < 0 || ::ftruncate(fd, 256) != 0)
					std::exit(9);
				progress = static_cast<char *>(::mmap(nullptr, 256, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
				if (progress == MAP_FAILED)
					std::exit(9);
			}
			section("start");
		}
	};

	inline recorder R;

	template <typename T, std::size_t N>
	u64 hash_arr(const std::array<T, N> &a, u64 h = 7)
	{
		for (auto v : a)
			h = mix(h, bits_of(v));
		return h;
	}

	template <typename T, std::size_t N>
	bool varied(const std::array<T, N> &a)
	{
		if constexpr (N == 1)
			return true;
		for (std::size_t i = 1; i < N; ++i)
			if (!same(a[i], a[0]))
				return true;
		return false;
	}

	template <typename T, std::size_t N, typename G>
	std::array<T, N> arr(G &&g)
	{
		std::array<T, N> a{};
		for (auto &v : a)
			v = g();
		return a;
	}

	// keep a value out of the reach of constant folding
	template <typename T>
	inline void opaque(T &v) { asm volatile("" : : "g"(&v) : "memory"); }
}
