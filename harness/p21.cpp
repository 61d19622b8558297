// P21: views show and change exactly the memory they wrap, through any history of creation, copying, reset, writing and swapping.
//   ELEM element type
#include "kinds.hpp"
#include <memory>
#include <optional>
using namespace mon;
using T = ELEM;
constexpr std::size_t ML = 40;		// lanes of memory which views may wrap; allocated exactly, so that red zones surround it

// the memory, and what a plain array model says about it
struct world
{
	std::unique_ptr<T[]> mem{ new T[ML] };
	std::array<T, ML> model{};
	T *at(std::size_t o) { return mem.get() + o; }
	void write(std::size_t o, T v) { model[o] = v; }
};
world *W;
std::string trace;
void log(const std::string &s) { trace += s + "; "; if (trace.size() > 700) trace = "..." + trace.substr(trace.size() - 600); }

T value(rng &r) { return r.below(3) ? gen_mod<T>(r) : gen<T>(r); }
T other_than(rng &r, T v) { for (;;) { T w = value(r); if (!same(w, v)) return w; } }

void memory_agrees(const char *what)
{
	R.saw(mix(hash_arr(W->model), hash_str(what)), true);
	for (std::size_t i = 0; i < ML; ++i)
		if (!same(W->mem[i], W->model[i]))
		{
			R.fail(R.sec + ":" + what + ":memory", std::string("after ") + what + " lane " + std::to_string(i) + " of the memory is " + show(T(W->mem[i])) + " want " + show(W->model[i]) + ": " + trace);
			return;
		}
}

// bool lanes are written one by one or by set(): the library has no assignment between vectors, swizzles and views of them
template <typename D, typename S>
void store(D &&d, const S &s)
{
	if constexpr (std::is_same_v<T, bool>)
	{
		bool c[4]{};
		for (std::size_t i = 0; i < s.size(); ++i) c[i] = s[i];
		for (std::size_t i = 0; i < s.size(); ++i) std::forward<D>(d)[i] = c[i];
	}
	else
		std::forward<D>(d) = s;		// a temporary view is assigned to as one
}
template <typename D>
void store1(D &&d, T x) { if constexpr (std::is_same_v<T, bool>) std::forward<D>(d)[0] = x; else std::forward<D>(d) = x; }
// a source of another element type, which converts unasked
template <std::size_t N, typename D>
std::array<T, N> store_other(D &&d, rng &r)
{
	using U = std::conditional_t<std::is_same_v<T, double>, float, std::conditional_t<std::is_same_v<T, float> || std::is_same_v<T, long long> || std::is_same_v<T, unsigned long long>, int, T>>;
	auto u = arr<U, N>([&] { return static_cast<U>(r.range(0, 90000)); });
	std::array<T, N> a;
	for (std::size_t i = 0; i < N; ++i) a[i] = static_cast<T>(u[i]);
	U buf[N];
	std::copy(u.begin(), u.end(), buf);
	if constexpr (std::is_same_v<T, bool>) store(std::forward<D>(d), dsga::basic_view<false, U, N>(buf));
	else if (N == 1 && r.coin()) { if constexpr (N == 1) std::forward<D>(d) = buf[0]; }
	else std::forward<D>(d) = dsga::basic_view<false, U, N>(buf);
	return a;
}

// every way of looking at a view
template <std::size_t N, typename V>
__attribute__((noinline)) void shows(V &v, std::size_t off, const char *what)
{
	const auto &c = std::as_const(v);
	std::array<T, N> want;
	for (std::size_t i = 0; i < N; ++i) want[i] = W->model[off + i];
	R.saw(mix(hash_arr(want), hash_str(what)), varied(want));
	auto bad = [&](const char *how) { R.fail(R.sec + ":" + what + ":" + how, std::string("after ") + what + " a view at " + std::to_string(off) + " shows through " + how + " something else than " + show(want) + ": " + trace); };
	if (c.data() != W->at(off) || v.data() != W->at(off)) bad("data()");
	std::array<T, N> g;
	auto judge = [&](const char *how) { for (std::size_t i = 0; i < N; ++i) if (!same(g[i], want[i])) { bad(how); return; } };
	for (std::size_t i = 0; i < N; ++i) g[i] = c[i];
	judge("[] const");
	for (std::size_t i = 0; i < N; ++i) g[i] = v[static_cast<int>(i)];
	judge("[]");
	std::size_t n = 0;
	for (T x : c) g[n++ % N] = x;
	if (n != N) bad("count");
	judge("begin");
	n = N;
	for (auto i = c.rbegin(); i != c.rend(); ++i) g[--n % N] = *i;
	judge("rbegin");
	dsga::basic_vector<T, N> copy(c);
	std::memcpy(g.data(), &copy, sizeof g);
	judge("copy");
	if constexpr (N == 1) { g[0] = c.x[0]; }
	else if constexpr (N == 2) { g[1] = c.yx[0]; g[0] = c.yx[1]; }
	else if constexpr (N == 3) { g[2] = c.zxy[0]; g[0] = c.zxy[1]; g[1] = c.zxy[2]; }
	else { g[3] = c.wzxy[0]; g[2] = c.wzxy[1]; g[0] = c.wzxy[2]; g[1] = c.wzxy[3]; }
	judge("swizzle");
	g[0] = dsga::get<0>(c); g[N - 1] = dsga::get<N - 1>(c);
	judge("get");
	if (c.length() != static_cast<int>(N) || c.size() != N) bad("size");
}

template <bool M, std::size_t N>
struct slot
{
	std::optional<dsga::basic_view<M, T, N>> v;
	std::size_t off = 0;
};

template <std::size_t N>
struct pool
{
	slot<true, N> m[3];
	slot<false, N> c[2];
	void check(const char *what)
	{
		for (auto &s : m) if (s.v) shows<N>(*s.v, s.off, what);
		for (auto &s : c) if (s.v) shows<N>(*s.v, s.off, what);
	}
};

template <std::size_t N>
void create(rng &r, pool<N> &p)
{
	std::size_t o = r.below(4) == 0 ? (r.coin() ? 0 : ML - N) : r.below(ML - N + 1);
	auto &m = p.m[r.below(3)];
	auto &c = p.c[r.below(2)];
	const T *cp = W->at(o);
	switch (r.below(10))
	{
		case 0: log("view" + std::to_string(N) + " at " + std::to_string(o)); m.v.emplace(W->at(o)); m.off = o; break;
		case 1: log("cview" + std::to_string(N) + " at " + std::to_string(o)); c.v.emplace(cp); c.off = o; break;
		case 2: c.v.emplace(W->at(o)); c.off = o; log("cview of pointer to mutable"); break;
		case 3: if (m.v) { log("reset to " + std::to_string(o)); m.v->reset(W->at(o)); m.off = o; } break;
		case 4: if (c.v) { log("creset to " + std::to_string(o)); c.v->reset(cp); c.off = o; } break;
		case 5: if (c.v) { c.v->reset(W->at(o)); c.off = o; log("creset to mutable"); } break;
		case 6: { auto &s = p.m[r.below(3)]; if (m.v && &s != &m) { log("copy view"); dsga::basic_view<true, T, N> t(*m.v); s.v.emplace(t); s.off = m.off; } break; }
		case 7: { auto &s = p.c[r.below(2)]; if (c.v && &s != &c) { log("copy cview"); dsga::basic_view<false, T, N> t(std::move(*c.v)); s.v.emplace(t); s.off = c.off; } break; }
		case 8: { log("default view, then reset"); m.v.emplace(); m.v->reset(W->at(o)); m.off = o; break; }
		default: { log("view by assignment of a pointer"); dsga::basic_view<true, T, N> t = W->at(o); m.v.emplace(t); m.off = o; break; }
	}
}

template <std::size_t N>
void write(rng &r, pool<N> &p)
{
	auto &s = p.m[r.below(3)];
	if (!s.v) return;
	auto &v = *s.v;
	const std::size_t o = s.off, k = r.below(N);
	std::array<T, N> a = arr<T, N>([&] { return value(r); });
	dsga::basic_vector<T, N> vec;
	std::memcpy(&vec, a.data(), sizeof a);
	auto all = [&] { for (std::size_t i = 0; i < N; ++i) W->write(o + i, a[i]); };
	T x = value(r);
	const char *what = "";
	switch (r.below(20))
	{
		case 0: what = "[]"; v[k] = x; W->write(o + k, x); break;
		case 1: what = "assignment"; store(v, vec); all(); break;
		case 2: what = "set"; [&]<std::size_t ...I>(std::index_sequence<I...>) { v.set(a[I]...); }(std::make_index_sequence<N>{}); all(); break;
		case 3: what = "data()"; v.data()[k] = x; W->write(o + k, x); break;
		case 4: what = "begin"; *(v.begin() + static_cast<long>(k)) = x; W->write(o + k, x); break;
		case 5: what = "rbegin"; *(v.rbegin() + static_cast<long>(k)) = x; W->write(o + N - 1 - k, x); break;
		case 6: what = "swizzle of one";
			if constexpr (N == 1) { store1(v.x, x); W->write(o, x); } else if constexpr (N == 2) { store1(v.y, x); W->write(o + 1, x); } else if constexpr (N == 3) { store1(v.z, x); W->write(o + 2, x); } else { store1(v.w, x); W->write(o + 3, x); }
			break;
		case 7: what = "swizzle";
			if constexpr (N == 1) { store(v.x, vec); W->write(o, a[0]); }
			else if constexpr (N == 2) { store(v.yx, vec); W->write(o + 1, a[0]); W->write(o, a[1]); }
			else if constexpr (N == 3) { store(v.yzx, vec); W->write(o + 1, a[0]); W->write(o + 2, a[1]); W->write(o, a[2]); }
			else { store(v.wxzy, vec); W->write(o + 3, a[0]); W->write(o, a[1]); W->write(o + 2, a[2]); W->write(o + 1, a[3]); }
			break;
		case 8: what = "assignment from itself"; { store(v, vec); all(); store(v, dsga::basic_view<false, T, N>(v.data())); } break;
		case 9: what = "get"; dsga::get<N - 1>(v) = x; W->write(o + N - 1, x); break;
		case 10: what = "temporary view"; store(dsga::basic_view<true, T, N>(W->at(o)), vec); all(); break;
		case 11:
		{
			what = "swap";
			auto &q = p.m[r.below(3)];
			if (!q.v) break;
			std::size_t d = q.off > o ? q.off - o : o - q.off;
			bool thrown = false, partial = d > 0 && d < N;
			try { if (r.coin()) v.swap(*q.v); else { using std::swap; swap(v, *q.v); } } catch (const std::range_error &) { thrown = true; }
			if (thrown != partial)
				R.fail(R.sec + ":swap:" + (partial ? "accepted" : "refused"), "swap of views at " + std::to_string(o) + " and " + std::to_string(q.off) + (thrown ? " is refused" : " is not refused"));
			if (!partial && d)
				for (std::size_t i = 0; i < N; ++i) std::swap(W->model[o + i], W->model[q.off + i]);
			break;
		}
		case 12: what = "compound"; if constexpr (std::is_floating_point_v<T>) { v *= T(2); for (std::size_t i = 0; i < N; ++i) W->write(o + i, W->model[o + i] * T(2)); } else if constexpr (!std::is_same_v<T, bool>) { v ^= vec; for (std::size_t i = 0; i < N; ++i) W->write(o + i, static_cast<T>(W->model[o + i] ^ a[i])); } break;
		case 13: what = "assignment from another view"; { auto &q = p.m[r.below(3)]; if (q.v) { for (std::size_t i = 0; i < N; ++i) a[i] = W->model[q.off + i]; store(v, dsga::basic_view<false, T, N>(W->at(q.off))); all(); } } break;
		case 14: what = "std::reverse"; std::reverse(v.begin(), v.end()); std::reverse(W->model.begin() + o, W->model.begin() + o + N); break;
		case 15: what = "through a copy of the view"; { auto t(v); t[k] = x; } W->write(o + k, x); break;
		case 16: what = "temporary view, other elements"; a = store_other<N>(dsga::basic_view<true, T, N>(W->at(o)), r); all(); break;
		case 17: what = "assignment of other elements"; a = store_other<N>(v, r); all(); break;
		case 18: what = "temporary view of one"; store1(dsga::basic_view<true, T, 1>(W->at(o + k)), x); W->write(o + k, x); break;
		default: what = "memory"; W->mem[o + k] = x; W->write(o + k, x); break;
	}
	if (*what) log(std::string(what) + std::to_string(N) + " at " + std::to_string(o));
	memory_agrees(what);
}

// view-backed vectors own their lanes; copies are separate; views may look at them
template <std::size_t N>
__attribute__((noinline)) void owners(rng &r)
{
	using VV = dsga::view_vector<T, N>;
	std::array<T, N> m[3];
	auto all = [&](const std::array<T, N> &a) { return [&]<std::size_t ...I>(std::index_sequence<I...>) { return std::make_unique<VV>(a[I]...); }(std::make_index_sequence<N>{}); };
	std::unique_ptr<VV> v[3];
	// a reset makes one show other memory (its own lanes then keep what they held); a copy owns its lanes again
	std::array<T, N> away[3], hidden[3];
	bool moved[3] = { false, false, false };
	for (int i = 0; i < 3; ++i) { m[i] = arr<T, N>([&] { return value(r); }); v[i] = all(m[i]); away[i] = arr<T, N>([&] { return value(r); }); }
	trace.clear();
	R.section("view_vector/" + std::to_string(N) + "/" + tname<T>);
	auto agree = [&](const char *what) {
		for (int i = 0; i < 3; ++i)
		{
			R.saw(mix(hash_arr(m[i]), hash_str(what)), varied(m[i]));
			for (std::size_t k = 0; k < N; ++k)
				if (!same(T((*v[i])[k]), m[i][k]) || v[i]->data() != (moved[i] ? away[i].data() : v[i]->store)
					|| !same(v[i]->store[k], (moved[i] ? hidden[i] : m[i])[k]) || (moved[i] && !same(away[i][k], m[i][k])))
					R.fail(R.sec + ":" + what, std::string("after ") + what + " view_vector " + std::to_string(i) + " is not " + show(m[i]) + ": " + trace);
		}
	};
	for (int step = 0; step < 12; ++step)
	{
		const std::size_t i = r.below(3), j = r.below(3), k = r.below(N);
		auto a = arr<T, N>([&] { return value(r); });
		dsga::basic_vector<T, N> vec;
		std::memcpy(&vec, a.data(), sizeof a);
		T x = value(r);
		const char *what = "";
		switch (r.below(16))
		{
			case 0: what = "copy"; if (i != j) { v[i] = std::make_unique<VV>(std::as_const(*v[j])); m[i] = m[j]; moved[i] = false; } break;
			case 1: what = "move"; if (i != j) { v[i] = std::make_unique<VV>(std::move(*v[j])); m[i] = m[j]; moved[i] = false; } break;
			case 2: what = "copy assignment"; *v[i] = std::as_const(*v[j]); m[i] = m[j]; break;
			case 3: what = "move assignment"; if (i != j) { *v[i] = std::move(*v[j]); m[i] = m[j]; } break;
			case 4: what = "assignment of a vector"; store(*v[i], vec); m[i] = a; break;
			case 5: what = "assignment of a temporary"; store(*v[i], dsga::basic_vector<T, N>(vec)); m[i] = a; break;
			case 6: what = "[]"; (*v[i])[k] = x; m[i][k] = x; break;
			case 7: what = "view of it"; { dsga::basic_view<true, T, N> w(v[i]->data()); w[k] = x; m[i][k] = x; dsga::basic_view<false, T, N> c(v[i]->data()); for (std::size_t q = 0; q < N; ++q) if (!same(T(c[q]), m[i][q])) R.fail(R.sec + ":cview of it", "a constant view of a view_vector shows something else"); } break;
			case 8: what = "set"; [&]<std::size_t ...I>(std::index_sequence<I...>) { v[i]->set(a[I]...); }(std::make_index_sequence<N>{}); m[i] = a; break;
			case 9: what = "swap"; if (i != j) { v[i]->swap(*v[j]); std::swap(m[i], m[j]); } break;
			case 10: what = "std::swap"; if (i != j) { VV t(std::move(*v[i])); *v[i] = std::move(*v[j]); *v[j] = std::move(t); std::swap(m[i], m[j]); } break;
			case 11: what = "swizzle";
				if constexpr (N == 1) { store1(v[i]->x, x); m[i][0] = x; } else { store(v[i]->yx, dsga::basic_vector<T, 2>(a[0], a[1])); m[i][1] = a[0]; m[i][0] = a[1]; }
				break;
			case 12: what = "vector of them"; { std::vector<VV> q; for (int n = 0; n < 3; ++n) q.push_back(*v[n]); q.erase(q.begin() + static_cast<long>(j)); q.insert(q.begin(), *v[j]); q.reserve(20); *v[i] = q[0]; m[i] = m[j]; } break;
			case 13: what = "reset"; if (!moved[i]) { hidden[i] = m[i]; moved[i] = true; away[i] = a; v[i]->reset(away[i].data()); m[i] = a; } break;
			case 14: what = "reset to its own lanes"; if (moved[i]) { moved[i] = false; v[i]->reset(v[i]->store); m[i] = hidden[i]; } break;
			default: what = "destroyed copy"; { VV t(*v[i]); t[k] = x; } break;
		}
		log(what);
		agree(what);
	}
}

template <std::size_t N>
void interface()
{
	R.section("interface/" + std::to_string(N) + "/" + tname<T>);
	R.saw(N);
	using MV = dsga::basic_view<true, T, N>;
	using CV = dsga::basic_view<false, T, N>;
	R.check(std::is_constructible_v<MV, T *> && std::is_convertible_v<T *, MV>, "mutable-from-mutable", "no view of mutable memory");
	R.check(!std::is_constructible_v<MV, const T *>, "mutable-from-const", "a mutable view of constant memory");
	R.check(std::is_constructible_v<CV, T *> && std::is_constructible_v<CV, const T *> && std::is_convertible_v<const T *, CV>, "const-view", "no constant view");
	R.check(!std::is_constructible_v<MV, const CV &> && !std::is_constructible_v<MV, CV &>, "mutable-from-cview", "a mutable view from a constant view");
	R.check(std::is_copy_constructible_v<MV> && std::is_copy_constructible_v<CV>, "copy", "a view cannot be copied");
	R.check(!requires (CV &v) { v[0] = T(1); } && !requires (CV &v) { v = dsga::basic_vector<T, N>(T(1)); } && !requires (CV &v) { v.x = T(1); } && !requires (CV &v) { *v.begin() = T(1); }
		&& !requires (CV &v) { *v.data() = T(1); } && !requires (CV &v) { dsga::get<0>(v) = T(1); }, "const-view-writes", "a constant view can be written through");
	R.check(!requires (const MV &v) { v[0] = T(1); } && !requires (const MV &v) { *v.begin() = T(1); } && !requires (const MV &v) { *v.data() = T(1); } && !requires (const MV &v) { v = dsga::basic_vector<T, N>(T(1)); }, "const-object-writes", "a constant view object can be written through");
	R.check(!requires (MV &v, const T *p) { v.reset(p); } && requires (MV &v, T *p) { v.reset(p); } && requires (CV &v, const T *p) { v.reset(p); } && requires (CV &v, T *p) { v.reset(p); }, "reset-const", "reset accepts or refuses the wrong pointers");
	R.check(!requires (CV &v) { v.swap(v); }, "const-swap", "constant views can be swapped");
	R.check(std::is_trivially_destructible_v<MV> && sizeof(MV) == sizeof(T *) && sizeof(CV) == sizeof(T *), "size", "a view is not a pointer");
}

int main(int argc, char **argv)
{
	R.start(argc, argv);
	rng r(R.seed);
	interface<1>(); interface<2>(); interface<3>(); interface<4>();
	for (u64 c = 0; c < R.cases; ++c)
	{
		R.cur_case = c;
		world w;
		W = &w;
		trace.clear();
		for (std::size_t i = 0; i < ML; ++i) w.mem[i] = w.model[i] = value(r);
		std::tuple<pool<1>, pool<2>, pool<3>, pool<4>> ps;
		auto on = [&](auto f) { switch (r.below(5)) { case 0: f(std::get<0>(ps)); break; case 1: f(std::get<1>(ps)); break; case 2: f(std::get<2>(ps)); break; default: f(std::get<3>(ps)); break; } };
		for (int step = 0; step < 60; ++step)
		{
			R.section(std::string("history/") + tname<T>);
			if (step < 10 || r.below(4) == 0)
			{
				on([&](auto &p) { create(r, p); });
				memory_agrees("create or reset");
			}
			else
				on([&](auto &p) { write(r, p); });
			std::apply([&](auto &...p) { (p.check(step < 10 ? "creation" : "a step"), ...); }, ps);
		}
		if (c < 3) R.sample(trace);
		owners<1>(r); owners<2>(r); owners<3>(r); owners<4>(r);
		// a matrix and a vector seen through views
		{
			R.section(std::string("wrapped/") + tname<T>);
			auto a = arr<T, 4>([&] { return value(r); });
			dsga::basic_vector<T, 4> vec(a[0], a[1], a[2], a[3]);
			dsga::basic_view<true, T, 4> all(vec.data());
			dsga::basic_view<true, T, 2> mid(vec.data() + 1);
			dsga::basic_view<false, T, 3> tail(vec.data() + 1);
			T x = other_than(r, a[2]);
			store1(mid.y, x);
			a[2] = x;
			R.saw(hash_arr(a), true);
			R.check(same(T(vec.z), x) && same(T(all[2]), x) && same(T(tail[1]), x) && same(T(tail.y[0]), x), "vector", "a write through a view of a vector is not seen");
			store(vec.wx, dsga::basic_vector<T, 2>(a[1], a[3]));
			std::array<T, 4> want{ a[3], a[1], a[2], a[1] };
			for (std::size_t i = 0; i < 4; ++i)
				R.check(same(T(all[i]), want[i]) && (i == 0 || same(T(tail[i - 1]), want[i])) && (i < 1 || i > 2 || same(T(mid[i - 1]), want[i])), "vector-write", "a write to a vector is not seen through its views");
		}
	}
	return R.finish();
}
