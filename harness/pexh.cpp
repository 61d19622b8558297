// P10, P13, P14: unary float functions over every bit pattern (a case is a run of 2^16 patterns; the quick tier takes every
// 2^STRIDE-th pattern, from a seeded offset), four lanes at a time, and a dense random sweep over doubles of every exponent.
#include "kinds.hpp"
using namespace mon;
#ifdef THOROUGH
constexpr unsigned STRIDE = 1;
#else
constexpr unsigned STRIDE = 23;
#endif

template <typename T> T wide(T a, long double (*f)(long double)) { return static_cast<T>(f(static_cast<long double>(a))); }

template <typename T, typename F, typename M, typename C>
inline void four(const char *name, const std::array<T, 4> &x, F f, M model, C cmp)
{
	dsga::basic_vector<T, 4> v;
	std::memcpy(&v, x.data(), sizeof(x));
	auto y = f(v);
	for (std::size_t i = 0; i < 4; ++i)
	{
		auto want = model(x[i]);
		if (!cmp(y[i], want)) [[unlikely]]
			R.fail(std::string(name) + "/" + tname<T>, std::string(name) + " of " + show(x[i]) + " is " + show(y[i]) + " want " + show(want));
	}
}

constexpr auto value = [](auto a, auto b) { return a == b || (a != a && b != b); };
template <u64 K> struct close_ { template <typename T> bool operator ()(T a, T b) const { return a == b || ulps(a, b) <= K; } };

template <typename T>
void judge_all(const std::array<T, 4> &x)
{
#if GROUP == 10
	std::array<T, 4> fin = x;
	for (auto &v : fin) if (std::isinf(v)) v = T(0);
	four("floor", x, [](auto v) { return dsga::floor(v); }, [](T a) { return std::floor(a); }, value);
	four("ceil", x, [](auto v) { return dsga::ceil(v); }, [](T a) { return std::ceil(a); }, value);
	four("trunc", x, [](auto v) { return dsga::trunc(v); }, [](T a) { return std::trunc(a); }, value);
	four("round", x, [](auto v) { return dsga::round(v); }, [](T a) { return std::round(a); }, value);
	four("roundEven", x, [](auto v) { return dsga::roundEven(v); }, [](T a) { return std::nearbyint(a); }, value);
	four("fract", fin, [](auto v) { return dsga::fract(v); }, [](T a) { return a - std::floor(a); }, value);
	four("abs", x, [](auto v) { return dsga::abs(v); }, [](T a) { return std::fabs(a); }, value);
#elif GROUP == 13
	constexpr T nan = std::numeric_limits<T>::quiet_NaN();
	std::array<T, 4> pos = x;
	for (auto &v : pos) if (!(v > 0)) v = T(1);
	four("sqrt", x, [](auto v) { return dsga::sqrt(v); }, [](T a) { return a < 0 ? nan : std::sqrt(a); }, close_<1>{});
	auto ref = [](T a) { if constexpr (sizeof(T) == 4) return static_cast<T>(1.0 / std::sqrt(static_cast<double>(a))); else return static_cast<T>(1.0L / std::sqrt(static_cast<long double>(a))); };
	four("inversesqrt", x, [](auto v) { return dsga::inversesqrt(v); }, [ref](T a) { return a < 0 ? nan : ref(a == 0 ? T(0) : a); }, close_<3>{});
	four("fast_inversesqrt", pos, [](auto v) { return dsga::fast_inversesqrt(v); }, ref, close_<4>{});
#endif
}

int main(int argc, char **argv)
{
	R.start(argc, argv);
	rng r(R.seed);
	const u64 offset = r.below(STRIDE);
	R.section("every float");
	for (u64 c = 0; c < R.cases; ++c)
	{
		R.cur_case = c;
		// the runs of a case cover the whole range when there are 65536 of them
		u64 base = (c * 65536 / R.cases) << 16, end = ((c + 1) * 65536 / R.cases) << 16;
		u64 n = 0;
		for (u64 p = base + offset; p < end; p += 4 * STRIDE)
		{
			std::array<float, 4> x;
			for (unsigned i = 0; i < 4; ++i)
				x[i] = std::bit_cast<float>(static_cast<unsigned>(p + i * STRIDE));
			judge_all(x);
			n += 4;
		}
		R.evals += n;
		R.counters["floats"] += n;
		R.distinct.insert(mix(base, 1));
		if (c % 64 == 0)
			R.sample("bit patterns " + std::to_string(base + offset) + " to " + std::to_string(end) + " step " + std::to_string(STRIDE));
	}
	R.section("doubles of every exponent");
	for (u64 e = 0; e < 2048; ++e)
		for (u64 k = 0; k < R.cases / 16 + 4; ++k)
		{
			std::array<double, 4> x;
			for (auto &v : x)
			{
				u64 m = r.next() & 0xfffffffffffffull;
				switch (r.below(6)) { case 0: m = r.below(4); break; case 1: m = 0xfffffffffffffull - r.below(4); break; case 2: m &= ~0ull << r.below(52); break; case 3: m |= (1ull << r.below(52)) - 1; break; }
				v = std::bit_cast<double>((e << 52) | (m & 0xfffffffffffffull) | (r.next() << 63));
			}
			judge_all(x);
			R.saw(hash_arr(x));
			R.evals += 3;
		}
	return R.finish();
}
