// P32: std::hash for vectors, swizzles, views and matrices (examples/hash.hxx) agrees with equality and depends on every lane.
//   ELEM element type
#include "kinds.hpp"
#include <unordered_map>
#include <unordered_set>
#include "hash.hxx"
using namespace mon;
using T = ELEM;

T value(rng &r)
{
	for (;;)
	{
		T v = r.below(3) ? gen_mod<T>(r, T(100)) : gen<T>(r);
		if (!isnan_(v)) return v;
	}
}

template <typename V>
std::size_t h(const V &v) { return std::hash<std::remove_cvref_t<V>>{}(v); }

template <std::size_t N>
using table = std::unordered_map<std::size_t, std::array<T, N>>;

template <std::size_t N, kind K>
std::size_t hash_of(const std::array<T, N> &a)
{
	holder<K, T, N> x(a);
	const std::size_t p = h(x.obj()), q = h(x.obj());
	if (p != q) R.fail(R.sec + ":repeat", std::string("hashing a ") + kname(K) + " twice gives two values for " + show(a));
	if (!x.guards() || !std::equal(a.begin(), a.end(), x.read().begin(), [](T p, T q) { return same(p, q); })) R.fail(R.sec + ":argument", "hashing wrote to its argument " + show(a));
	return p;
}

template <std::size_t N>
std::size_t judge_all(const std::array<T, N> &a)
{
	const std::size_t w = hash_of<N, Vec>(a);
	auto like = [&](const char *what, std::size_t g) {
		R.saw(mix(hash_arr(a), hash_str(what)), varied(a));
		if (g != w) R.fail(R.sec + ":" + what, std::string("a ") + what + " does not hash like the vector equal to it: " + show(a));
	};
	like("const vector", hash_of<N, CVec>(a));
	like("swizzle", hash_of<N, Swz>(a));
	like("view", hash_of<N, View>(a));
	like("const view", hash_of<N, CView>(a));
	like("view swizzle", hash_of<N, VSwz>(a));
	like("const view swizzle", hash_of<N, CVSwz>(a));
	like("view_vector", hash_of<N, VV>(a));
	// the wrappers below a vector and a view
	{
		dsga::basic_vector<T, N> v{};
		std::memcpy(&v, a.data(), sizeof v);
		like("storage", h(v.base));
	}
	{
		std::array<T, N> b = a;
		dsga::basic_view<true, T, N> v(b.data());
		like("view storage", h(v.base));
	}
	// swizzles in order and, of one lane, repeated
	{
		dsga::basic_vector<T, N> v{};
		std::memcpy(&v, a.data(), sizeof v);
		if constexpr (N == 4) like("whole swizzle", h(v.xyzw));
		if constexpr (N == 3) like("whole swizzle", h(v.xyz));
		if constexpr (N == 2) like("whole swizzle", h(v.xy));
		std::array<T, 4> rep{ a[0], a[0], a[0], a[0] };
		R.check(h(v.xxxx) == hash_of<4, Vec>(rep), "repeating swizzle", "a swizzle which repeats a lane does not hash like the vector equal to it: " + show(rep));
	}
	// zeros of both signs are equal
	if constexpr (std::is_floating_point_v<T>)
	{
		std::array<T, N> z = a;
		for (auto &e : z) if (e == 0) e = -e;
		like("vector with zeros of the other sign", hash_of<N, Vec>(z));
	}
	return w;
}

template <std::size_t N>
void lanes_matter(rng &r, table<N> &seen)
{
	std::array<T, N> a = arr<T, N>([&] { return value(r); });
	const std::size_t w = judge_all<N>(a);
	if (R.evals % 4001 < 10) R.sample(show(a) + " hashes to " + std::to_string(w) + " in every storage kind");
	auto differs = [&](const char *what, const std::array<T, N> &b) {
		bool eq = true;
		for (std::size_t i = 0; i < N; ++i) eq = eq && a[i] == b[i];
		if (eq) return;
		const std::size_t g = hash_of<N, Vec>(b);
		R.saw(mix(hash_arr(b), hash_str(what)));
		if (g == w) R.fail(R.sec + ":" + what, show(a) + " and " + show(b) + " hash to the same value");
	};
	for (std::size_t i = 0; i < N; ++i)
	{
		auto b = a;
		b[i] = value(r);
		differs("one lane changed", b);
		for (std::size_t j = 0; j < i; ++j) { b = a; std::swap(b[i], b[j]); differs("lanes exchanged", b); }
	}
	if (seen.size() < 60000)
	{
		auto [it, fresh] = seen.emplace(w, a);
		if (!fresh)
			for (std::size_t i = 0; i < N; ++i)
				if (it->second[i] != a[i]) { R.fail(R.sec + ":collision", show(a) + " and " + show(it->second) + " hash to the same value"); break; }
	}
}

template <std::size_t N>
void container_history(rng &r)
{
	std::unordered_map<dsga::basic_vector<T, N>, int> m;
	std::unordered_set<dsga::basic_vector<T, N>> s;
	std::map<std::array<T, N>, int> mm;
	const std::size_t steps = 60 + r.below(120);
	for (std::size_t k = 0; k < steps; ++k)
	{
		std::array<T, N> a = arr<T, N>([&] { return r.below(4) ? static_cast<T>(r.range(0, 2)) : value(r); });
		if constexpr (std::is_floating_point_v<T>) for (auto &e : a) e += T(0);
		dsga::basic_vector<T, N> v{};
		std::memcpy(&v, a.data(), sizeof v);
		const u64 op = r.below(5);
		R.saw(mix(hash_arr(a), op * 1000 + mm.size()));
		bool ok = true;
		if (op < 2) { ok = s.insert(v).second == !mm.contains(a); m[v] += 1; mm[a] += 1; }
		else if (op == 2) { const auto n = mm.erase(a); ok = s.erase(v) == n; ok = m.erase(v) == n && ok; }
		else if (op == 3) { ok = s.contains(v) == mm.contains(a); auto it = m.find(v); auto jt = mm.find(a); ok = ok && (it == m.end() ? jt == mm.end() : jt != mm.end() && it->second == jt->second); }
		else { if (r.coin()) s.rehash(r.below(300)); else m.rehash(r.below(300)); }
		if (!ok || s.size() != mm.size() || m.size() != mm.size()) { R.fail(R.sec + ":history", "a hashed container of vectors and an ordered one of arrays disagree at step " + std::to_string(k) + " about " + show(a)); return; }
	}
	for (auto &q : s)
		if (!mm.contains(dsga::to_array(q))) { R.fail(R.sec + ":contents", "a hashed container holds a vector which was not inserted"); break; }
}

template <std::size_t C, std::size_t Rw>
void matrices(rng &r)
{
	if constexpr (dsga::floating_point_scalar<T>)
	{
		std::array<T, C * Rw> a = arr<T, C * Rw>([&] { return value(r); });
		using M = dsga::basic_matrix<T, C, Rw>;
		M x;
		std::memcpy(&x, a.data(), sizeof a);
		const std::size_t w = h(x);
		R.saw(mix(hash_arr(a), C * 5 + Rw));
		M y(x);
		R.check(h(y) == w && h(x) == w, "copy", "a copy of a matrix hashes to another value: " + show(a));
		auto z = a;
		for (auto &e : z) if (e == 0) e = -e;
		std::memcpy(&y, z.data(), sizeof z);
		R.check(h(y) == w, "zeros", "equal matrices hash to different values: " + show(a));
		for (std::size_t i = 0; i < C * Rw; ++i)
		{
			auto b = a;
			if (r.coin()) b[i] = value(r); else std::swap(b[i], b[r.below(C * Rw)]);
			bool eq = true;
			for (std::size_t k = 0; k < C * Rw; ++k) eq = eq && a[k] == b[k];
			std::memcpy(&y, b.data(), sizeof b);
			if (!eq) R.check(h(y) != w, "element changed", show(a) + " and " + show(b) + " hash to the same value");
		}
	}
}

int main(int argc, char **argv)
{
	R.start(argc, argv);
	rng r(R.seed);
	table<1> t1; table<2> t2; table<3> t3; table<4> t4;
	for (R.cur_case = 0; R.cur_case < R.cases; ++R.cur_case)
		for_sizes([&](auto n) {
			constexpr std::size_t N = n;
			const std::string w = std::string("hash/") + tname<T> + "/" + std::to_string(N);
			R.section(w);
			if constexpr (N == 1) lanes_matter<N>(r, t1);
			if constexpr (N == 2) lanes_matter<N>(r, t2);
			if constexpr (N == 3) lanes_matter<N>(r, t3);
			if constexpr (N == 4) lanes_matter<N>(r, t4);
			if (r.below(8) == 0) { R.section(w + "/containers"); container_history<N>(r); }
			if constexpr (N > 1) { R.section(w + "/matrix"); matrices<N, 2>(r); matrices<N, 3>(r); matrices<N, 4>(r); }
		});
	return R.finish();
}
