// P29: vectors and matrices are packed arrays of their elements, whose names name the types they say.
//   ELEM element type    ELEM_IS_FLOAT 1: matrices too    WHAT 0: layout, bytes and names    1: every swizzle, its type, place and sequence
#ifndef ELEM_IS_FLOAT
#define ELEM_IS_FLOAT 0
#endif
#ifndef WHAT
#define WHAT 0
#endif
#include "kinds.hpp"
#include "swz_names.inc"
#include <bit>
#include <memory>
#include <vector>
using namespace mon;
using T = ELEM;

T value(rng &r)
{
	if constexpr (std::is_same_v<T, bool>) return r.coin();
	else { T v; u64 b = r.next(); std::memcpy(&v, &b, sizeof(T)); return v; }
}
bool same_bits(const T &a, const T &b) { return std::memcmp(&a, &b, sizeof(T)) == 0; }
bool same_bytes(const void *a, const void *b, std::size_t n) { return std::memcmp(a, b, n) == 0; }

u64 now = 0;
void is(const char *what, bool ok)
{
	R.saw(mix(now, hash_str(what)));
	if (!ok) R.fail(R.sec + ":" + what, std::string(what) + " does not hold");
}

// what makes memory copies and reinterpretation of V valid, and V as big as its E elements
template <typename V, std::size_t E>
void traits()
{
	is("size is that of its elements", sizeof(V) == E * sizeof(T));
	is("alignment is that of its elements", alignof(V) == alignof(T));
	is("standard layout", std::is_standard_layout_v<V>);
	is("trivially copyable", std::is_trivially_copyable_v<V>);
	is("trivially copy constructible", std::is_trivially_copy_constructible_v<V> && std::is_trivially_move_constructible_v<V>);
	is("trivially copy assignable", std::is_trivially_copy_assignable_v<V> && std::is_trivially_move_assignable_v<V>);
	is("trivially destructible", std::is_trivially_destructible_v<V>);
	is("trivially default constructible", std::is_trivially_default_constructible_v<V>);
	is("no virtual functions", !std::is_polymorphic_v<V>);
	is("nothrow copies", std::is_nothrow_copy_constructible_v<V> && std::is_nothrow_copy_assignable_v<V> && std::is_nothrow_default_constructible_v<V>);
	struct after_char { char c; V v; char d; };
	is("offset after a char", offsetof(after_char, v) == alignof(T) && sizeof(after_char) == alignof(T) + sizeof(V) + alignof(T));
	is("arrays have no gaps", sizeof(V[5]) == 5 * E * sizeof(T));
}

// contiguous memory shown as objects, and objects shown as memory. E elements, at(v, i) the i-th through the interface
template <typename V, std::size_t E, typename At>
__attribute__((noinline)) void bytes(rng &r, At at)
{
	std::array<T, E> in;
	for (auto &x : in) x = value(r);
	now = hash_arr(in);
	V v;
	std::memcpy(static_cast<void *>(&v), in.data(), sizeof(in));
	bool ok = true;
	for (std::size_t i = 0; i < E; ++i) ok = ok && same_bits(at(v, i), in[i]) && static_cast<const void *>(&at(v, i)) == reinterpret_cast<const char *>(&v) + i * sizeof(T);
	is("memcpy in, and element addresses", ok);
	for (auto &x : in) x = value(r);
	for (std::size_t i = 0; i < E; ++i) at(v, i) = in[i];
	is("bytes are the elements", same_bytes(&v, in.data(), sizeof(in)));

	// bit_cast, copies of every sort
	if constexpr (std::is_trivially_copyable_v<V> && sizeof(V) == sizeof(in))
	{
		const auto a = std::bit_cast<std::array<T, E>>(v);
		is("bit_cast to an array", same_bytes(a.data(), in.data(), sizeof(in)));
		const V w = std::bit_cast<V>(a);
		is("bit_cast from an array", same_bytes(&w, in.data(), sizeof(in)));
	}
	V c(v), d(std::move(c)), e{}, f{};
	e = v;
	f = std::move(e);
	is("copies and moves", same_bytes(&c, &v, sizeof(v)) && same_bytes(&d, &v, sizeof(v)) && same_bytes(&e, &v, sizeof(v)) && same_bytes(&f, &v, sizeof(v)));
	std::swap(d, v);
	is("std::swap", same_bytes(&d, in.data(), sizeof(in)) && same_bytes(&v, in.data(), sizeof(in)));

	// zero initialisation
	alignas(V) unsigned char dirty[sizeof(V)];
	std::memset(dirty, 0x5a, sizeof(dirty));
	V *z = ::new (dirty) V{};
	T zero{};
	ok = true;
	for (std::size_t i = 0; i < E; ++i) ok = ok && same_bits(at(*z, i), zero);
	is("value initialisation gives zeros", ok);
	static const V kept{};
	ok = true;
	for (std::size_t i = 0; i < E; ++i) ok = ok && same_bits(at(kept, i), zero);
	is("a static object is zeros", ok);

	// arrays, vectors and buffers of objects are flat
	constexpr std::size_t n = 5;
	auto flat = std::make_unique<T[]>(n * E);
	for (std::size_t i = 0; i < n * E; ++i) flat[i] = value(r);
	V many[n];
	std::memcpy(static_cast<void *>(many), flat.get(), sizeof(T) * n * E);
	std::vector<V> vec(many, many + n);
	ok = vec.size() == n;
	for (std::size_t j = 0; j < n; ++j)
		for (std::size_t i = 0; i < E; ++i)
			ok = ok && same_bits(at(many[j], i), flat[j * E + i]) && same_bits(at(vec[j], i), flat[j * E + i]);
	is("an array of objects is flat", ok && same_bytes(vec.data(), flat.get(), sizeof(T) * n * E));
	// a buffer of elements used as objects
	const V *over = reinterpret_cast<const V *>(flat.get());
	ok = true;
	for (std::size_t j = 0; j < n; ++j)
		for (std::size_t i = 0; i < E; ++i) ok = ok && same_bits(at(over[j], i), flat[j * E + i]) && &at(over[j], i) == &flat[j * E + i];
	is("a buffer of elements seen as objects", ok);
	const T fresh = value(r);
	const std::size_t j = r.below(n), i = r.below(E);
	at(many[j], i) = fresh;
	flat[j * E + i] = fresh;
	is("writing one element writes nothing else", same_bytes(many, flat.get(), sizeof(T) * n * E));
}

#if WHAT == 0

template <std::size_t N>
void vector_layout(rng &r)
{
	using V = dsga::basic_vector<T, N>;
	R.section("vector/" + std::to_string(N) + "/" + std::string(tname<T>));
	now = N;
	traits<V, N>();
	is("contiguous range", std::ranges::contiguous_range<V> && std::ranges::contiguous_range<const V> && std::ranges::sized_range<V>);
	is("constants", V::Size == N && V::Count == N && V::Writable && V::Mutable && std::is_same_v<typename V::value_type, T> && std::is_same_v<typename V::sequence_pack, std::make_index_sequence<N>>);
	bytes<V, N>(r, [](auto &v, std::size_t i) -> auto & { return v[i]; });
	bytes<V, N>(r, [](auto &v, std::size_t i) -> auto & { return v.data()[i]; });
	bytes<V, N>(r, [](auto &v, std::size_t i) -> auto & { return *(v.begin() + static_cast<std::ptrdiff_t>(i)); });
	if constexpr (requires (V &v) { v.base[0]; }) bytes<V, N>(r, [](auto &v, std::size_t i) -> auto & { return v.base[i]; });

	// views refer to memory which is not theirs, and are as light as a pointer
	using W = dsga::basic_view<true, T, N>;
	using C = dsga::basic_view<false, T, N>;
	is("views are pointers", sizeof(W) == sizeof(T *) && sizeof(C) == sizeof(T *) && alignof(W) == alignof(T *) && std::is_trivially_copyable_v<W> && std::is_trivially_copyable_v<C> && std::is_standard_layout_v<W> && std::is_standard_layout_v<C> && std::is_trivially_destructible_v<W> && std::is_trivially_copy_constructible_v<W> && std::is_trivially_copy_constructible_v<C>);
	is("view constants", W::Size == N && W::Count == N && W::Writable && W::Mutable && !C::Mutable && std::is_same_v<typename W::value_type, T> && std::ranges::contiguous_range<W> && std::ranges::contiguous_range<const C>);
	std::array<T, N + 2> memory;
	for (auto &x : memory) x = value(r);
	now = hash_arr(memory);
	const auto before = memory;
	W w(memory.data() + 1);
	const C k(memory.data() + 1);
	const auto &cw = w;
	bool ok = w.data() == memory.data() + 1 && k.data() == memory.data() + 1 && cw.data() == memory.data() + 1;
	for (std::size_t i = 0; i < N; ++i) ok = ok && &w[i] == &memory[i + 1] && &k[i] == &memory[i + 1] && &w.begin()[static_cast<std::ptrdiff_t>(i)] == &memory[i + 1] && std::to_address(k.begin() + static_cast<std::ptrdiff_t>(i)) == &memory[i + 1];
	is("a view names the memory itself", ok && same_bytes(&before, &memory, sizeof(memory)));
	const T *stored; W copy(w);
	std::memcpy(&stored, &copy, sizeof(stored));
	is("a view holds its pointer", stored == memory.data() + 1);

	// a view-backed vector holds its lanes after its view
	dsga::view_vector<T, N> vv(dsga::basic_vector<T, N>(dsga::to_vector(std::array<T, N>{})));
	ok = true;
	const char *from = reinterpret_cast<const char *>(&vv), *to = from + sizeof(vv);
	for (std::size_t i = 0; i < N; ++i) { const char *p = reinterpret_cast<const char *>(&vv[i]); ok = ok && p >= from && p + sizeof(T) <= to && &vv[i] == &vv[0] + i && &vv[i] == vv.data() + i; }
	is("a view-backed vector holds its own lanes", ok);
}

#if ELEM_IS_FLOAT
template <std::size_t C, std::size_t W>
void matrix_layout(rng &r)
{
	using M = dsga::basic_matrix<T, C, W>;
	R.section("matrix/" + std::to_string(C) + "x" + std::to_string(W) + "/" + tname<T>);
	now = C * 8 + W;
	traits<M, C * W>();
	is("contiguous range of columns", std::ranges::contiguous_range<M> && std::ranges::contiguous_range<const M>);
	is("columns", std::is_same_v<std::remove_cvref_t<decltype(std::declval<M &>()[0])>, dsga::basic_vector<T, W>> && std::is_same_v<std::remove_cvref_t<decltype(std::declval<M &>().row(0))>, dsga::basic_vector<T, C>>);
	bytes<M, C * W>(r, [](auto &m, std::size_t i) -> auto & { return m[i / W][i % W]; });
	bytes<M, C * W>(r, [](auto &m, std::size_t i) -> auto & { return m.data()[i / W].data()[i % W]; });
	bytes<M, C * W>(r, [](auto &m, std::size_t i) -> auto & { return (*(m.begin() + static_cast<std::ptrdiff_t>(i / W)))[i % W]; });
}
#endif

template <typename A, typename B> void name(const char *text) { R.section("names"); now = hash_str(text); is(text, std::is_same_v<A, B>); }
#define NAME(n, ...) name<dsga::n, __VA_ARGS__>(#n " names " #__VA_ARGS__);
#define VECS(p, E) NAME(p##vec2, dsga::basic_vector<E, 2>) NAME(p##vec3, dsga::basic_vector<E, 3>) NAME(p##vec4, dsga::basic_vector<E, 4>) NAME(p##scal, dsga::basic_vector<E, 1>) \
	NAME(p##view1, dsga::basic_view<true, E, 1>) NAME(p##view2, dsga::basic_view<true, E, 2>) NAME(p##view3, dsga::basic_view<true, E, 3>) NAME(p##view4, dsga::basic_view<true, E, 4>) \
	NAME(c##p##view1, dsga::basic_view<false, E, 1>) NAME(c##p##view2, dsga::basic_view<false, E, 2>) NAME(c##p##view3, dsga::basic_view<false, E, 3>) NAME(c##p##view4, dsga::basic_view<false, E, 4>)
#define SHAPE(p, E, C, W) NAME(p##mat##C##x##W, dsga::basic_matrix<E, C, W>)
#define MATS(p, E) SHAPE(p, E, 2, 2) SHAPE(p, E, 2, 3) SHAPE(p, E, 2, 4) SHAPE(p, E, 3, 2) SHAPE(p, E, 3, 3) SHAPE(p, E, 3, 4) SHAPE(p, E, 4, 2) SHAPE(p, E, 4, 3) SHAPE(p, E, 4, 4) \
	NAME(p##mat2, dsga::basic_matrix<E, 2, 2>) NAME(p##mat3, dsga::basic_matrix<E, 3, 3>) NAME(p##mat4, dsga::basic_matrix<E, 4, 4>)

void names()
{
	VECS(b, bool) VECS(i, int) VECS(u, unsigned) VECS(ll, long long) VECS(ull, unsigned long long) VECS(f, float) VECS(d, double)
	NAME(scal, dsga::basic_vector<float, 1>) NAME(vec2, dsga::basic_vector<float, 2>) NAME(vec3, dsga::basic_vector<float, 3>) NAME(vec4, dsga::basic_vector<float, 4>)
	NAME(view1, dsga::basic_view<true, float, 1>) NAME(view2, dsga::basic_view<true, float, 2>) NAME(view3, dsga::basic_view<true, float, 3>) NAME(view4, dsga::basic_view<true, float, 4>)
	NAME(cview1, dsga::basic_view<false, float, 1>) NAME(cview2, dsga::basic_view<false, float, 2>) NAME(cview3, dsga::basic_view<false, float, 3>) NAME(cview4, dsga::basic_view<false, float, 4>)
	MATS(, float) MATS(d, double)
}

void all(rng &r)
{
	for_sizes([&](auto n) { vector_layout<n>(r); });
#if ELEM_IS_FLOAT
	for_sizes([&](auto x) { for_sizes([&](auto y) { if constexpr (x > 1 && y > 1) matrix_layout<x, y>(r); }); });
#endif
}

#else

// a swizzle of an object whose lanes start at `lanes`, `size` of them; the object itself starts at `object`
struct swizzle_facts { const char *name; const void *at; std::size_t bytes, Count; bool writable, traits; const T *data; std::array<std::size_t, 4> sequence, offsets; std::array<const T *, 4> lane; };

__attribute__((noinline)) void judge(const swizzle_facts &s, const void *object, std::size_t object_bytes, const T *lanes, const std::array<std::size_t, 4> &spelt, std::size_t count)
{
	bool in_place = s.at == object && s.bytes == object_bytes && s.data == lanes && s.Count == count;
	bool sequence = true, distinct = true;
	for (std::size_t i = 0; i < count; ++i)
	{
		sequence = sequence && s.sequence[i] == spelt[i] && s.offsets[i] == spelt[i] && s.lane[i] == lanes + spelt[i];
		for (std::size_t j = 0; j < i; ++j) distinct = distinct && spelt[i] != spelt[j];
	}
	R.saw(mix(hash_str(s.name), hash_str(R.sec.c_str())));
	if (!in_place) R.fail(R.sec + ":" + s.name + ":place", std::string(s.name) + " does not share the memory of its object");
	if (!sequence) R.fail(R.sec + ":" + s.name + ":sequence", std::string(s.name) + ": data(), sequence(), offsets and [] do not lead to the lanes it spells");
	if (s.writable != distinct) R.fail(R.sec + ":" + s.name + ":writable", std::string(s.name) + (s.writable ? " is writable though it repeats a lane" : " is not writable though its lanes are distinct"));
	if (!s.traits) R.fail(R.sec + ":" + s.name + ":traits", std::string(s.name) + " is not trivially copyable with standard layout");
}

template <std::size_t N, typename S>
swizzle_facts facts(const S &s, const char *name)
{
	swizzle_facts f{ name, &s, sizeof(S), s.size(), S::Writable, std::is_standard_layout_v<S> && std::is_trivially_copyable_v<S> && std::is_same_v<typename S::value_type, T>, s.data(), {}, {}, {} };
	[&]<std::size_t ...Is>(std::index_sequence<Is...>) { f.sequence = { Is... }; }(s.sequence());
	for (std::size_t i = 0; i < N; ++i) { if constexpr (requires { S::offsets[i]; }) f.offsets[i] = S::offsets[i]; else f.offsets[i] = f.sequence[i]; f.lane[i] = &s[i]; }
	return f;
}

#define ONE(name, count, ...) judge(facts<count>(o.name, #name), &o, sizeof(O), lanes, std::array<std::size_t, 4>{ __VA_ARGS__ }, count);

template <std::size_t Size, typename O>
__attribute__((noinline)) void every(O &o, const T *lanes)
{
	if constexpr (Size == 1) { SWZ_1(ONE) }
	else if constexpr (Size == 2) { SWZ_2(ONE) }
	else if constexpr (Size == 3) { SWZ_3(ONE) }
	else { SWZ_4(ONE) }
}

void all(rng &r)
{
	for_sizes([&](auto n) {
		dsga::basic_vector<T, n> v{};
		R.section("vector swizzles/" + std::to_string(n) + "/" + std::string(tname<T>));
		every<n>(v, reinterpret_cast<const T *>(&v));
		T memory[8];
		for (auto &x : memory) x = value(r);
		dsga::basic_view<true, T, n> w(memory + r.below(4));
		R.section("view swizzles/" + std::to_string(n) + "/" + std::string(tname<T>));
		every<n>(w, w.data());
		// and after it was moved elsewhere
		T *p = memory + r.below(4);
		w.reset(p);
		every<n>(w, p);
		is("view swizzles follow a reset", w.data() == p);
	});
}
void names() {}

#endif

int main(int argc, char **argv)
{
	R.start(argc, argv);
	rng r(R.seed);
	names();
	for (u64 c = 0; c < R.cases; ++c)
	{
		R.cur_case = c;
		all(r);
		if (c == 0) R.sample(WHAT == 0 ? "traits, names, addresses and bytes of every vector, view and matrix type" : "every swizzle name of every size of vectors and views, with its address, sequence and traits");
	}
	return R.finish();
}
