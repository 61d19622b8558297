// P36: operations have no hidden effects. Watched around every call: heap traffic, the static and thread-local storage of the
// program, rounding mode and floating-point control, locale, and the standard streams. The same operands must give the same bits
// whatever was computed before, and a result must not change when the operands do.
//   WHAT 1, 2, 3: functions of that many vectors   4: programs which modify vectors and views   5: matrices   ELEM   SLICE of SLICES
#include "funcs.hpp"
#include <cfenv>
#include <clocale>
#include <cstddef>
#include <iostream>
#include <link.h>
#include <numeric>
#include <xmmintrin.h>
using namespace mon;
using T = ELEM;
#ifndef SLICES
#define SLICES 1
#define SLICE 0
#endif

// heap traffic --------------------------------------------------------------------------------------------------------
extern "C" void *__libc_malloc(std::size_t);
extern "C" void *__libc_calloc(std::size_t, std::size_t);
extern "C" void *__libc_realloc(void *, std::size_t);
extern "C" void *__libc_memalign(std::size_t, std::size_t);
extern "C" void __libc_free(void *);

struct watched
{
	bool on = false;
	u64 allocs = 0;
	unsigned char *copy = nullptr;		// of the static storage
	struct part { unsigned char *at; std::size_t size; std::size_t into; } parts[8];
	int nparts = 0;
	unsigned mxcsr = 0;
	unsigned short x87 = 0;
	int rounding = 0;
	char locale[64] = "";
	// outcome of the last region
	bool heap = false, statics = false, environment = false, text = false;
	std::ptrdiff_t where = 0;
	int sink = -1;
};
// not in the static storage which is watched
static watched *W_ = static_cast<watched *>(::mmap(nullptr, 1 << 22, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));

extern "C" void *malloc(std::size_t n) { if (W_ && W_->on) ++W_->allocs; return __libc_malloc(n); }
extern "C" void *calloc(std::size_t n, std::size_t m) { if (W_ && W_->on) ++W_->allocs; return __libc_calloc(n, m); }
extern "C" void *realloc(void *p, std::size_t n) { if (W_ && W_->on) ++W_->allocs; return __libc_realloc(p, n); }
extern "C" void *memalign(std::size_t a, std::size_t n) { if (W_ && W_->on) ++W_->allocs; return __libc_memalign(a, n); }
extern "C" void *aligned_alloc(std::size_t a, std::size_t n) { if (W_ && W_->on) ++W_->allocs; return __libc_memalign(a, n); }
extern "C" void free(void *p) { __libc_free(p); }

static int find_parts(dl_phdr_info *info, std::size_t, void *)
{
	if (info->dlpi_name && info->dlpi_name[0])
		return 0;
	std::uintptr_t ro_lo = 0, ro_hi = 0;
	for (int i = 0; i < info->dlpi_phnum; ++i)
		if (info->dlpi_phdr[i].p_type == PT_GNU_RELRO)
		{
			ro_lo = info->dlpi_addr + info->dlpi_phdr[i].p_vaddr;
			ro_hi = (ro_lo + info->dlpi_phdr[i].p_memsz) & ~std::uintptr_t(4095);
		}
	auto add = [](std::uintptr_t lo, std::uintptr_t hi) {
		if (lo >= hi || W_->nparts >= 8) return;
		std::size_t into = W_->nparts ? W_->parts[W_->nparts - 1].into + W_->parts[W_->nparts - 1].size : 0;
		W_->parts[W_->nparts++] = { reinterpret_cast<unsigned char *>(lo), hi - lo, into };
	};
	for (int i = 0; i < info->dlpi_phnum; ++i)
	{
		const auto &p = info->dlpi_phdr[i];
		if (p.p_type == PT_LOAD && (p.p_flags & PF_W))
		{
			std::uintptr_t lo = info->dlpi_addr + p.p_vaddr, hi = lo + p.p_memsz;
			add(lo, std::min(hi, ro_lo ? ro_lo : lo));
			add(std::max(lo, ro_hi), hi);
		}
		if (p.p_type == PT_TLS && info->dlpi_tls_data)
			add(reinterpret_cast<std::uintptr_t>(info->dlpi_tls_data), reinterpret_cast<std::uintptr_t>(info->dlpi_tls_data) + p.p_memsz);
	}
	return 1;
}

static unsigned short x87_control() { unsigned short c; asm volatile("fnstcw %0" : "=m"(c)); return c; }

__attribute__((noinline)) void watch_begin()
{
	watched &w = *W_;
	for (int i = 0; i < w.nparts; ++i)
		std::memcpy(w.copy + w.parts[i].into, w.parts[i].at, w.parts[i].size);
	w.mxcsr = _mm_getcsr() & ~0x3fu;
	w.x87 = x87_control();
	w.rounding = std::fegetround();
	w.allocs = 0;
	w.on = true;
	asm volatile("" : : : "memory");
}

__attribute__((noinline)) void watch_end()
{
	asm volatile("" : : : "memory");
	watched &w = *W_;
	w.on = false;
	w.heap = w.allocs != 0;
	w.environment = w.mxcsr != (_mm_getcsr() & ~0x3fu) || w.x87 != x87_control() || w.rounding != std::fegetround();
	w.statics = false;
	for (int i = 0; i < w.nparts; ++i)
		if (std::memcmp(w.copy + w.parts[i].into, w.parts[i].at, w.parts[i].size) != 0)
		{
			w.statics = true;
			for (std::size_t k = 0; k < w.parts[i].size; ++k)
				if (w.copy[w.parts[i].into + k] != w.parts[i].at[k]) { w.where = static_cast<std::ptrdiff_t>(k); break; }
		}
}

// the streams and the locale are looked at less often
__attribute__((noinline)) void watch_rarely()
{
	watched &w = *W_;
	std::fflush(stdout);
	std::fflush(stderr);
	std::cout.flush();
	w.text = ::lseek(w.sink, 0, SEEK_END) != 0;
	if (w.text) { if (::ftruncate(w.sink, 0) != 0) std::exit(9); ::lseek(w.sink, 0, SEEK_SET); }
	if (std::strcmp(w.locale, std::setlocale(LC_ALL, nullptr)) != 0) { w.environment = true; std::setlocale(LC_ALL, w.locale); }
}

static void prepare(char **argv)
{
	// no lazy binding, which writes to tables in the watched storage
	if (!std::getenv("LD_BIND_NOW"))
	{
		::setenv("LD_BIND_NOW", "1", 1);
		::execv("/proc/self/exe", argv);
		std::exit(9);
	}
	W_->copy = static_cast<unsigned char *>(::mmap(nullptr, 64 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
	dl_iterate_phdr(find_parts, nullptr);
	std::size_t total = 0;
	for (int i = 0; i < W_->nparts; ++i) total += W_->parts[i].size;
	if (total == 0 || total > (63u << 20)) std::exit(9);
	std::strncpy(W_->locale, std::setlocale(LC_ALL, nullptr), 63);
	W_->sink = ::memfd_create("sink", 0);
	if (W_->sink < 0) std::exit(9);
}
static void divert_streams() { if (::dup2(W_->sink, 1) < 0 || ::dup2(W_->sink, 2) < 0) std::exit(9); }

// do the monitors see what they are for?
static int self_test_cell = 0;
static thread_local int self_test_tls = 0;
static void self_test()
{
	watch_begin(); asm volatile("" : : : "memory"); watch_end();
	bool quiet = !W_->heap && !W_->statics && !W_->environment;
	watch_begin(); void *p = std::malloc(3); opaque(p); watch_end();
	bool heap = W_->heap;
	std::free(p);
	watch_begin(); int *q = new int(4); opaque(q); watch_end();
	heap = heap && W_->heap;
	delete q;
	watch_begin(); ++*const_cast<volatile int *>(&self_test_cell); watch_end();
	bool cell = W_->statics;
	watch_begin(); ++*const_cast<volatile int *>(&self_test_tls); watch_end();
	bool tls = W_->statics;
	watch_begin(); std::fesetround(FE_UPWARD); watch_end();
	bool fp = W_->environment;
	std::fesetround(FE_TONEAREST);
	std::cerr << "x"; watch_rarely();
	bool text = W_->text;
	W_->text = W_->environment = false;
	if (!quiet || !heap || !cell || !tls || !fp || !text) { std::fprintf(R.out, "self test %d%d%d%d%d%d\n", quiet, heap, cell, tls, fp, text); std::exit(9); }
}

// ---------------------------------------------------------------------------------------------------------------------

constexpr kind KS[] = { Vec, CVec, Swz, View, CView, VSwz, CVSwz, VV, SwzA, SwzD, VSwzA, VSwzD };
constexpr std::size_t NK = std::size(KS);
constexpr std::size_t TUPLES = 6;

constexpr std::size_t hash_name(const char *s)
{
	std::size_t h = 5381;
	for (; *s; ++s)
		h = h * 33 + static_cast<unsigned char>(*s);
	return h ^ (h >> 7);
}

T value(rng &r)
{
	if constexpr (std::is_same_v<T, bool>) return r.coin();
	else if constexpr (std::is_floating_point_v<T>) return r.below(4) ? gen_mod<T>(r) : r.below(2) ? static_cast<T>(r.range(-2, 2)) : gen<T>(r);
	else { T v; do v = gen_mod<T>(r, T(30)); while (v == 0); return v; }
}

static std::string inputs_text;

// every other tuple is evaluated in a rounding mode which the program has chosen
static int chosen_mode(std::size_t k)
{
	constexpr int modes[] = { FE_TONEAREST, FE_UPWARD, FE_TONEAREST, FE_DOWNWARD, FE_TONEAREST, FE_TOWARDZERO };
	return modes[k % std::size(modes)];
}

__attribute__((noinline)) void judge_effects(const std::string &kinds)
{
	watched &w = *W_;
	if (w.heap) R.fail(R.sec + ":heap", "heap memory was requested " + std::to_string(w.allocs) + " times, operands " + kinds + " " + inputs_text);
	if (w.statics) R.fail(R.sec + ":state", "static or thread-local storage changed (offset " + std::to_string(w.where) + "), operands " + kinds + " " + inputs_text);
	if (w.environment) R.fail(R.sec + ":environment", "rounding mode, floating-point control or locale changed, operands " + kinds + " " + inputs_text);
	if (w.text) R.fail(R.sec + ":text", "something was printed");
}

__attribute__((noinline)) void judge_same(const digest &first, const digest &now, const char *key, const char *what, const std::string &kinds)
{
	if (!(first == now))
		R.fail(R.sec + ":" + key, std::string(what) + ": " + first.text() + " and " + now.text() + ", operands " + kinds + " " + inputs_text);
}

template <std::size_t N> using lanes3 = std::array<std::array<T, N>, 3>;

template <std::size_t N>
__attribute__((noinline)) void make_tuples(rng &r, domain d, bool nonzero_first, std::array<lanes3<N>, TUPLES> &in)
{
	auto mend = [&](lanes3<N> &t) {
		if constexpr (!std::is_same_v<T, bool>)
			for (std::size_t i = 0; i < N; ++i)
			{
				if (d == PosFirst) t[0][i] = static_cast<T>(0.5 + static_cast<double>(r.below(1000)) / 64);
				if (d == ShiftCount) t[1][i] = static_cast<T>(r.below(31));
				if (d == Ordered23) { t[1][i] = static_cast<T>(r.range(1, 10)); t[2][i] = static_cast<T>(r.range(11, 20)); }
				if (d == Ordered12) { t[0][i] = static_cast<T>(r.range(1, 9)); t[1][i] = static_cast<T>(r.range(10, 20)); }
				if (nonzero_first) t[0][i] = static_cast<T>(r.range(1, 9));
			}
	};
	for (auto &a : in[0]) for (auto &v : a) v = value(r);
	mend(in[0]);
	// each tuple is its neighbour with one lane changed, or two lanes exchanged
	for (std::size_t k = 1; k < TUPLES; ++k)
	{
		lanes3<N> t = in[k - 1], fresh;
		for (auto &a : fresh) for (auto &v : a) v = value(r);
		mend(fresh);
		const std::size_t o = r.below(3), l = r.below(N);
		if (d == AnyLanes && r.below(4) == 0) std::swap(t[o][l], t[o][r.below(N)]);
		else if (r.below(5) == 0) t = fresh;
		else if (d == AnyLanes) t[o][l] = fresh[o][l];
		else for (auto &a : t) a[l] = fresh[static_cast<std::size_t>(&a - &t[0])][l];
		in[k] = t;
	}
}

template <typename F, std::size_t N, kind ...K>
__attribute__((noinline)) void one(const std::array<lanes3<N>, TUPLES> &in)
{
	constexpr std::size_t A = sizeof...(K);
	using stores = std::tuple<holder<K, T, N>...>;
	const std::string kinds = ((std::string(kname(K)) + ",") + ...);
	[&]<std::size_t ...I>(std::index_sequence<I...>) {
		if constexpr (requires (stores s) { F::f(std::get<I>(s).obj()...); })
		{
			digest first[TUPLES];
			// twice unobserved: constants which are made on first use exist from here on
			for (std::size_t k = 0; k < 2; ++k)
			{
				stores s;
				(std::get<I>(s).load(in[TUPLES - 1 - k][I]), ...);
				auto res = F::f(std::get<I>(s).obj()...);
				opaque(res);
			}
			for (std::size_t pass = 0; pass < 2; ++pass)
				for (std::size_t n = 0; n < TUPLES; ++n)
				{
					const std::size_t k = pass ? TUPLES - 1 - n : n;
					stores s;
					(std::get<I>(s).load(in[k][I]), ...);
					opaque(s);
					std::fesetround(chosen_mode(k));
					watch_begin();
					opaque(s);
					auto res = F::f(std::get<I>(s).obj()...);
					opaque(res);
					watch_end();
					std::fesetround(FE_TONEAREST);
					inputs_text = (show(in[k][I]) + ...);
					u64 h = hash_str(kinds.c_str());
					((h = hash_arr(in[k][I], h)), ...);
					R.saw(mix(h, pass));
					judge_effects(kinds);
					digest d = digest_of<decltype(res)>(res);
					if (pass == 0) first[k] = d;
					else judge_same(first[k], d, "history", "the same operands gave different results at different times", kinds);
					// a result is a value: it does not follow its operands
					(std::get<I>(s).load(in[(k + 2) % TUPLES][I]), ...);
					opaque(s);
					judge_same(d, digest_of<decltype(res)>(res), "follows", "the result changed when the operands were overwritten", kinds);
				}
			if (R.cur_case == 0 && N == 3)
				R.sample(std::string(F::name) + " of " + inputs_text + " (" + kinds + "): no effect beside the result " + first[0].text() + ", twice");
		}
	}(std::make_index_sequence<A>{});
}

template <typename F, std::size_t N>
constexpr bool on_vectors()
{
	using V = const dsga::basic_vector<T, N> &;
	if constexpr (F::arity == 1) return requires (V a) { F::f(a); };
	else if constexpr (F::arity == 2) return requires (V a, V b) { F::f(a, b); };
	else return requires (V a, V b, V c) { F::f(a, b, c); };
}

template <typename F, std::size_t N>
void at_size(rng &r)
{
	if constexpr (on_vectors<F, N>())
	{
		R.section(std::string(F::name) + "/" + std::to_string(N) + "/" + tname<T>);
		std::array<lanes3<N>, TUPLES> in;
		make_tuples<N>(r, F::dom, std::is_same_v<F, fn::normalize>, in);
		constexpr std::size_t s = hash_name(F::name) + N;
		auto all = [&]<std::size_t ...J>(std::index_sequence<J...>) {
			if constexpr (F::arity == 1) (one<F, N, KS[(s + 3 * J) % NK]>(in), ...);
			else if constexpr (F::arity == 2) (one<F, N, KS[(s + 3 * J) % NK], KS[(s / 8 + J) % NK]>(in), ...);
			else (one<F, N, KS[(s + 3 * J) % NK], KS[(s / 8 + J) % NK], KS[(s / 64 + 5 * J) % NK]>(in), ...);
		};
		if constexpr (F::arity == 1) one<F, N, Vec>(in);
		else if constexpr (F::arity == 2) one<F, N, Vec, Vec>(in);
		else one<F, N, Vec, Vec, Vec>(in);
#ifdef THOROUGH
		all(std::make_index_sequence<4>{});
#else
		all(std::make_index_sequence<1>{});
#endif
		watch_rarely();
		judge_effects("");
	}
}

template <typename F, std::size_t FI>
void function(rng &r)
{
	if constexpr (FI % SLICES == SLICE)
	{
		constexpr std::size_t odd = hash_name(F::name) % 2;
#ifdef THOROUGH
		constexpr bool all = true;
#else
		constexpr bool all = false;
#endif
		if constexpr (all || odd) at_size<F, 1>(r);
		if constexpr (all || !odd) at_size<F, 2>(r);
		if constexpr (all || odd || std::is_same_v<F, fn::cross> || std::is_same_v<F, fn::cross_matrix>) at_size<F, 3>(r);
		if constexpr (all || !odd) at_size<F, 4>(r);
	}
}

template <typename ...F>
void functions(rng &r)
{
	[&]<std::size_t ...I>(std::index_sequence<I...>) { (function<F, I>(r), ...); }(std::make_index_sequence<sizeof...(F)>{});
}

// programs which modify something: each makes its own target from a, changes it using b, and gives the target ------------------------
namespace act
{
	template <typename A> using vec_of = dsga::basic_vector<fn::elem<A>, count_of<A>>;
#define MON_ACT(Name, cond, ...) \
	struct Name { static constexpr const char *name = #Name; static constexpr int arity = 2; static constexpr domain dom = AnyLanes; \
		template <typename A, typename B, std::size_t N = count_of<A>> static constexpr vec_of<A> f(const A &a, const B &b) requires (cond) { vec_of<A> v(a); (void)b; __VA_ARGS__; return v; } };
	constexpr bool numeric = !std::is_same_v<T, bool>;
	MON_ACT(add_to, numeric, v += b)
	MON_ACT(subtract_from, numeric, v -= b)
	MON_ACT(multiply_by, numeric, v *= b[0])
	MON_ACT(divide_by, numeric, v /= b)
	MON_ACT(assign, true, v = b)
	MON_ACT(set_all, true, [&]<std::size_t ...I>(std::index_sequence<I...>) { v.set(b[I]...); }(std::make_index_sequence<N>{}))
	MON_ACT(increment, numeric, ++v; v++; --v)
	MON_ACT(swizzle_assign, N > 1 && numeric, v.yx = v.xy)
	MON_ACT(swizzle_from, N > 2 && numeric, v.zx = dsga::swizzle(b, 0, 1))
	MON_ACT(swap_members, true, vec_of<A> w(b); v.swap(w))
	MON_ACT(swap_free, true, vec_of<A> w(b); using std::swap; swap(v, w))
	MON_ACT(write_iterators, true, for (auto &x : v) x = b[0])
	MON_ACT(write_reverse, true, std::size_t i = 0; for (auto it = v.rbegin(); it != v.rend(); ++it) *it = b[i++])
	MON_ACT(sort_lanes, numeric, for (auto &x : v) if (isnan_(x)) x = 0; std::sort(v.begin(), v.end()))
	MON_ACT(view_write, true, (dsga::basic_view<true, fn::elem<A>, N>(v.data()) = b))
	MON_ACT(view_reset, true, vec_of<A> w(b); dsga::basic_view<true, fn::elem<A>, N> u(w.data()); u.reset(v.data()); u[0] = b[N - 1])
	MON_ACT(view_swap, true, vec_of<A> w(b); dsga::basic_view<true, fn::elem<A>, N> u(w.data()), x(v.data()); u.swap(x))
	MON_ACT(view_vector_copy, true, dsga::view_vector<fn::elem<A>, N> u(a), x(u); x = b; v = u; v[0] = x[0])
	MON_ACT(array_round_trip, true, v = dsga::to_vector(dsga::to_array(b)))
	MON_ACT(components, (N > 1), v = vec_of<A>(a[0], b))
	MON_ACT(const_view_read, true, const auto w = v; dsga::basic_view<false, fn::elem<A>, N> u(w.data()); v[N - 1] = u[0]; v.x = b[0])
	MON_ACT(nested_apply, true, v = v.apply([&](auto x) { return static_cast<fn::elem<A>>(vec_of<A>(x).apply([&](auto y) { return static_cast<fn::elem<A>>(y == b[0] ? x : b[N - 1]); })[0]); }))
	MON_ACT(tuple_access, true, dsga::get<0>(v) = dsga::get<N - 1>(b))
}

// functions which give part of their result by an operand
namespace act
{
#define MON_OUT(Name, E, expr) \
	struct Name { static constexpr const char *name = #Name; static constexpr int arity = 1; static constexpr domain dom = AnyLanes; \
		template <typename A, std::size_t N = count_of<A>> static constexpr auto f(const A &a) requires std::floating_point<fn::elem<A>> { dsga::basic_vector<E, N> out; auto res = expr; return res; } };
	MON_OUT(modf_fraction, fn::elem<A>, dsga::modf(a, out))
	MON_OUT(modf_whole, fn::elem<A>, (dsga::modf(a, out), out))
	MON_OUT(frexp_significand, int, dsga::frexp(a, out))
	MON_OUT(frexp_exponent, int, (dsga::frexp(a, out), out))
	struct ldexp_exponent { static constexpr const char *name = "ldexp_exponent"; static constexpr int arity = 1; static constexpr domain dom = AnyLanes;
		template <typename A, std::size_t N = count_of<A>> static constexpr auto f(const A &a) requires std::floating_point<fn::elem<A>> { dsga::basic_vector<int, N> e(7); e[0] = -3; return dsga::ldexp(a, e); } };
}

#if WHAT == 5
// matrices: operands are filled from the lanes of vectors
namespace mat
{
	template <std::size_t C, std::size_t Rr>
	dsga::basic_matrix<T, C, Rr> filled(const T *at, std::size_t from)
	{
		dsga::basic_matrix<T, C, Rr> m;
		for (std::size_t i = 0; i < C * Rr; ++i) m[i / Rr][i % Rr] = at[(from + i) % 32];
		return m;
	}
	template <typename F, std::size_t C, std::size_t Rr>
	__attribute__((noinline)) void run(rng &r)
	{
		using M = dsga::basic_matrix<T, C, Rr>;
		if constexpr (requires (const M &m, const M &n, const T &s) { F::f(m, n, s); })
		{
			R.section(std::string(F::name) + "/" + std::to_string(C) + "x" + std::to_string(Rr) + "/" + tname<T>);
			T pool[TUPLES][32];
			for (auto &x : pool[0]) x = value(r);
			for (std::size_t k = 1; k < TUPLES; ++k)
			{
				std::memcpy(pool[k], pool[k - 1], sizeof pool[k]);
				if (r.below(4)) pool[k][r.below(C * Rr)] = value(r); else for (auto &x : pool[k]) x = value(r);
			}
			digest first[TUPLES];
			for (std::size_t pass = 0; pass < 3; ++pass)		// the first one unobserved
				for (std::size_t n = 0; n < TUPLES; ++n)
				{
					const std::size_t k = pass == 1 ? n : TUPLES - 1 - n;
					M a = filled<C, Rr>(pool[k], 0), b = filled<C, Rr>(pool[k], 16);
					T s = pool[k][31];
					opaque(a); opaque(b); opaque(s);
					std::fesetround(chosen_mode(k));
					watch_begin();
					opaque(a); opaque(b); opaque(s);
					auto res = F::f(a, b, s);
					opaque(res);
					watch_end();
					std::fesetround(FE_TONEAREST);
					if (pass == 0) continue;
					inputs_text.clear();
					u64 h = pass;
					for (std::size_t i = 0; i < C * Rr; ++i) { inputs_text += show(pool[k][i]) + " "; h = mix(h, bits_of(pool[k][i])); }
					R.saw(h);
					judge_effects("matrix");
					digest d = digest_of<decltype(res)>(res);
					if (pass == 1) first[k] = d;
					else judge_same(first[k], d, "history", "the same operands gave different results at different times", "matrix");
					for (std::size_t i = 0; i < C; ++i) for (std::size_t j = 0; j < Rr; ++j) { a[i][j] = T(77); b[i][j] = T(78); }
					opaque(a); opaque(b);
					judge_same(d, digest_of<decltype(res)>(res), "follows", "the result changed when the operands were overwritten", "matrix");
				}
			if (R.cur_case == 0 && C == 3)
				R.sample(std::string(F::name) + " of a matrix: no effect beside the result " + first[0].text() + ", twice");
			watch_rarely();
			judge_effects("matrix");
		}
	}
#define MON_MAT(Name, expr) \
	struct Name { static constexpr const char *name = #Name; template <typename M> static constexpr auto f(const M &a, const M &b, const T &s) -> decltype(expr) { (void)b; (void)s; return expr; } };
#define MON_MATP(Name, body) \
	struct Name { static constexpr const char *name = #Name; template <typename M> static constexpr M f(const M &a, const M &b, const T &s) { M v(a); (void)b; (void)s; body; return v; } };
	template <typename M> constexpr std::size_t cols = std::tuple_size_v<M>;
	MON_MAT(plus, a + b) MON_MAT(minus, a - b) MON_MAT(times_scalar, a * s) MON_MAT(scalar_times, s * a) MON_MAT(over, a / s) MON_MAT(scalar_plus, s + a)
	MON_MAT(negated, -a) MON_MAT(comp_mult, dsga::matrixCompMult(a, b)) MON_MAT(product, a * b) MON_MAT(product_transposed, a * dsga::transpose(b))
	MON_MAT(transposed, dsga::transpose(a)) MON_MAT(det, dsga::determinant(a)) MON_MAT(inv, dsga::inverse(a)) MON_MAT(equals, a == b)
	MON_MAT(times_vector, a * a.row(0)) MON_MAT(vector_times, b[0] * a) MON_MAT(row1, a.row(1)) MON_MAT(column1, a[1]) MON_MAT(bigger, (dsga::basic_matrix<T, 4, 4>(a)))
	MON_MAT(smaller, (dsga::basic_matrix<T, 2, 2>(a))) MON_MAT(diagonal, M(s)) MON_MAT(outer, dsga::outerProduct(a[0], b[1])) MON_MAT(array, dsga::to_array(a))
	MON_MATP(inc, ++v; v++; --v) MON_MATP(assign_column, v[0] = b[1]) MON_MATP(iterate, for (auto &c : v) c = b[0]) MON_MATP(swaps, M w(b); v.swap(w))
	template <typename F>
	void shapes(rng &r)
	{
		run<F, 2, 2>(r); run<F, 2, 3>(r); run<F, 2, 4>(r); run<F, 3, 2>(r); run<F, 3, 3>(r); run<F, 3, 4>(r); run<F, 4, 2>(r); run<F, 4, 3>(r); run<F, 4, 4>(r);
	}
	template <typename ...F> void each(rng &r) { (shapes<F>(r), ...); }
}
#endif

int main(int argc, char **argv)
{
	prepare(argv);
	R.start(argc, argv);
	if (R.out == stdout) R.out = ::fdopen(::dup(1), "w");
	divert_streams();
	self_test();
	rng r(R.seed);
	for (u64 c = 0; c < R.cases; ++c)
	{
		R.cur_case = c;
#if WHAT == 1
		using namespace fn;
		functions<MON_FUNCTIONS1, act::modf_fraction, act::modf_whole, act::frexp_significand, act::frexp_exponent, act::ldexp_exponent>(r);
#elif WHAT == 2
		functions<MON_FUNCTIONS2>(r);
#elif WHAT == 3
		functions<MON_FUNCTIONS3>(r);
#elif WHAT == 4
		functions<act::add_to, act::subtract_from, act::multiply_by, act::divide_by, act::assign, act::set_all, act::increment, act::swizzle_assign, act::swizzle_from, act::swap_members, act::swap_free,
			act::write_iterators, act::write_reverse, act::sort_lanes, act::view_write, act::view_reset, act::view_swap, act::view_vector_copy, act::array_round_trip, act::components, act::const_view_read,
			act::nested_apply, act::tuple_access>(r);
#else
		mat::each<mat::plus, mat::minus, mat::times_scalar, mat::scalar_times, mat::over, mat::scalar_plus, mat::negated, mat::comp_mult, mat::product, mat::product_transposed, mat::transposed, mat::det, mat::inv, mat::equals,
			mat::times_vector, mat::vector_times, mat::row1, mat::column1, mat::bigger, mat::smaller, mat::diagonal, mat::outer, mat::array, mat::inc, mat::assign_column, mat::iterate, mat::swaps>(r);
#endif
	}
	return R.finish();
}
