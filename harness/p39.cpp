// P39: every documented type name means the type it spells. Each name is used as a program would use it: its object is
// filled, read, written through and measured, and compared with the element type, the size and the mutability which the
// letters of the name stand for.
#include "mon.hpp"
#include "dsga.hxx"
using namespace mon;
#ifndef WHAT
#define WHAT 0
#endif
#define LABEL std::to_string(WHAT)

// ------------------------------------------------------------------------------------------------- the letters of a name
// [c] [b i u ll ull f d or nothing for float] (scal | vecN | viewN | matN | matCxR)
struct spelled { bool constant, matrix, view; std::string elem; std::size_t a, b; };
static spelled spell(std::string s)
{
	spelled r{ false, false, false, "float", 1, 1 };
	auto eat = [&](const char *p) { const std::size_t n = std::strlen(p); if (s.compare(0, n, p) == 0) { s.erase(0, n); return true; } return false; };
	r.constant = eat("c");
	if (eat("ull")) r.elem = "ullong";
	else if (eat("ll")) r.elem = "llong";
	else if (s[0] == 'b') { eat("b"); r.elem = "bool"; }
	else if (s[0] == 'i') { eat("i"); r.elem = "int"; }
	else if (s[0] == 'u') { eat("u"); r.elem = "uint"; }
	else if (s[0] == 'f') eat("f");
	else if (s[0] == 'd') { eat("d"); r.elem = "double"; }
	if (eat("scal")) return r;
	r.matrix = eat("mat");
	r.view = eat("view");
	if (!r.matrix && !r.view) eat("vec");
	r.a = static_cast<std::size_t>(s[0] - '0');
	r.b = s.size() == 3 ? static_cast<std::size_t>(s[2] - '0') : r.a;
	return r;
}

static void judge(bool ok, const std::string &name, const std::string &what, u64 h = 0)
{
	R.saw(mix(hash_str((name + ":" + what).c_str()), h));
	if (!ok) R.fail("names:" + name + ":" + what, std::string("dsga::") + name + ": " + what);
}

template <typename T> T some(rng &r)
{
	// values which no other element type keeps: odd ones above 2^53, negative ones, thirds, more than one
	if constexpr (std::is_same_v<T, bool>) return r.coin();
	else if constexpr (std::is_same_v<T, float>) return gen_mod<float>(r) / 3.0f;
	else if constexpr (std::is_same_v<T, double>) return gen_mod<double>(r) / 3.0;
	else if constexpr (std::is_signed_v<T>) return -static_cast<T>(static_cast<std::make_unsigned_t<T>>(r.next()) >> 1) | 1;
	else return static_cast<T>(r.next()) | 1 | (T(1) << (sizeof(T) * 8 - 1));
}

template <typename V, typename E>
void members(const std::string &n, std::size_t lanes, bool mut)
{
	judge(std::is_same_v<typename V::value_type, E>, n, "value_type");
	judge(V::Count == lanes && V::Size == lanes, n, "Count and Size");
	judge(V::Writable == mut, n, "Writable");
	judge(V::Mutable == mut, n, "Mutable");
	judge(std::is_same_v<decltype(std::declval<const V &>()[0]), const E &>, n, "constant element");
	if (mut) judge(std::is_same_v<decltype(std::declval<V &>()[0]), E &>, n, "element");
	judge(V::offsets.size() == lanes, n, "offsets");
	for (std::size_t i = 0; i < lanes; ++i) judge(V::offsets[i] == i, n, "offsets", i);
	judge(V::sequence_pack::size() == lanes, n, "sequence_pack");
	judge(std::is_same_v<typename V::const_iterator, typename std::conditional_t<true, V, V>::const_iterator> && std::is_same_v<typename std::iterator_traits<typename V::const_iterator>::value_type, E>
		&& std::is_same_v<typename std::iterator_traits<typename V::iterator>::value_type, E>
		&& std::is_same_v<typename std::iterator_traits<typename V::const_iterator>::reference, const E &>
		&& std::is_same_v<typename std::iterator_traits<typename V::reverse_iterator>::value_type, E>
		&& std::is_same_v<typename std::iterator_traits<typename V::const_reverse_iterator>::reference, const E &>, n, "iterator types");
}

// what holds of a vector, too, when only its base is known
template <bool W, typename T, std::size_t C, typename D>
void base_is(const dsga::vector_base<W, T, C, D> &, const std::string &n, const spelled &s)
{
	judge(W == !s.constant && tname<T> == s.elem && C == s.a, n, "base");
}

template <typename V, typename E, std::size_t N>
void vector_name(const std::string &n, rng &r)
{
	const spelled s = spell(n);
	R.section("vector/" + n);
	judge(!s.matrix && !s.view && !s.constant && s.a == N && tname<E> == s.elem, n, "spelling");		// of this table
	judge(std::is_same_v<V, dsga::basic_vector<E, N>>, n, "type");
	judge(sizeof(V) == N * sizeof(E) && alignof(V) == alignof(E), n, "size in bytes");
	members<V, E>(n, N, true);
	std::array<E, N> a;
	for (auto &x : a) x = some<E>(r);
	V v = [&]<std::size_t ...I>(std::index_sequence<I...>) { return V(a[I]...); }(std::make_index_sequence<N>{});
	base_is(v, n, s);
	judge(v.length() == static_cast<int>(N) && v.size() == N && V::size.value == N, n, "length");
	for (std::size_t i = 0; i < N; ++i) judge(same(static_cast<E>(v[i]), a[i]), n, "values", mix(i, hash_arr(a)));
	judge(std::memcmp(&v, a.data(), sizeof a) == 0, n, "bytes", hash_arr(a));
	R.sample(n + " of " + show(a));
	for (std::size_t i = 0; i < N; ++i) { const E x = some<E>(r); v[i] = x; a[i] = x; judge(same(static_cast<E>(v[i]), x) && same(v.data()[i], x), n, "writing", mix(i, hash_arr(a))); }
	V w = v, z;
	z = v;
	judge(w == v && z == v, n, "copies", hash_arr(a));
	const auto back = dsga::to_array(v);
	judge(std::is_same_v<std::remove_const_t<decltype(back)>, std::array<E, N>> && same(back.back(), a.back()), n, "to_array", hash_arr(a));
}

template <typename V, typename E, std::size_t N, bool M>
void view_name(const std::string &n, rng &r)
{
	const spelled s = spell(n);
	R.section("view/" + n);
	judge(!s.matrix && s.view && s.constant == !M && s.a == N && tname<E> == s.elem, n, "spelling");
	judge(std::is_same_v<V, dsga::basic_view<M, E, N>>, n, "type");
	members<V, E>(n, N, M);
	std::array<E, N + 2> a;
	for (auto &x : a) x = some<E>(r);
	V v(a.data() + 1);
	base_is(v, n, s);
	judge(v.length() == static_cast<int>(N) && v.size() == N && V::size.value == N, n, "length");
	const V &c = v;
	for (std::size_t i = 0; i < N; ++i) { a[i + 1] = some<E>(r); judge(same(static_cast<E>(c[i]), a[i + 1]) && &c[i] == &a[i + 1], n, "shows", mix(i, hash_arr(a))); }
	judge(std::is_constructible_v<V, E *>, n, "made from a pointer");
	judge(std::is_constructible_v<V, const E *> == !M, n, "made from a constant pointer");
	judge(std::is_assignable_v<decltype(std::declval<V &>()[0]), E> == M, n, "element written");
	judge(requires (V &q, E x) { q.x = x; } == (M && !std::is_same_v<E, bool>), n, "swizzle written");
	judge(requires (V &q, const dsga::basic_vector<E, N> &x) { q = x; } == (M && !std::is_same_v<E, bool>), n, "assigned");
	if constexpr (M)
	{
		auto m = a;
		for (std::size_t i = 0; i < N; ++i) { const E x = some<E>(r); v[i] = x; m[i + 1] = x; judge(a == m, n, "writes", mix(i, hash_arr(m))); }
	}
}

template <typename V, typename E, std::size_t C, std::size_t W>
void matrix_name(const std::string &n, rng &r)
{
	const spelled s = spell(n);
	R.section("matrix/" + n);
	judge(s.matrix && !s.constant && s.a == C && s.b == W && tname<E> == s.elem, n, "spelling");
	judge(std::is_same_v<V, dsga::basic_matrix<E, C, W>>, n, "type");
	judge(sizeof(V) == C * W * sizeof(E), n, "size in bytes");
	judge(V::ComponentCount == C * W, n, "ComponentCount");
	std::array<E, C * W> a;
	for (auto &x : a) x = some<E>(r);
	V m = [&]<std::size_t ...I>(std::index_sequence<I...>) { return V(a[I]...); }(std::make_index_sequence<C * W>{});
	judge(m.length() == static_cast<int>(C) && m.column_length() == static_cast<int>(W) && m.size() == C && m.column_size() == W && V::size.value == C && V::column_size.value == W, n, "length");
	judge(std::is_same_v<std::remove_cvref_t<decltype(m[0])>, dsga::basic_vector<E, W>> && std::is_same_v<std::remove_cvref_t<decltype(m.row(0))>, dsga::basic_vector<E, C>>, n, "columns and rows");
	for (std::size_t i = 0; i < C; ++i)
		for (std::size_t j = 0; j < W; ++j) judge(same(static_cast<E>(m[i][j]), a[i * W + j]) && same(static_cast<E>(m.row(j)[i]), a[i * W + j]), n, "values", mix(i * 4 + j, hash_arr(a)));
	judge(m * dsga::basic_vector<E, C>(E(0)) == dsga::basic_vector<E, W>(E(0)) && dsga::basic_vector<E, W>(E(0)) * m == dsga::basic_vector<E, C>(E(0)), n, "times a vector", hash_arr(a));
	const auto t = dsga::transpose(m);
	judge(std::is_same_v<std::remove_cvref_t<decltype(t)>, dsga::basic_matrix<E, W, C>>, n, "transposed");
	judge(m.data() == &m[0] && static_cast<std::size_t>(m.end() - m.begin()) == C, n, "range");
}

#define VECS(P, E) vector_name<dsga::P##scal, E, 1>(#P "scal", r); vector_name<dsga::P##vec2, E, 2>(#P "vec2", r); vector_name<dsga::P##vec3, E, 3>(#P "vec3", r); vector_name<dsga::P##vec4, E, 4>(#P "vec4", r);
#define VIEWS(P, E) view_name<dsga::P##view1, E, 1, true>(#P "view1", r); view_name<dsga::P##view2, E, 2, true>(#P "view2", r); view_name<dsga::P##view3, E, 3, true>(#P "view3", r); view_name<dsga::P##view4, E, 4, true>(#P "view4", r);
#define CVIEWS(P, E) view_name<dsga::c##P##view1, E, 1, false>("c" #P "view1", r); view_name<dsga::c##P##view2, E, 2, false>("c" #P "view2", r); view_name<dsga::c##P##view3, E, 3, false>("c" #P "view3", r); view_name<dsga::c##P##view4, E, 4, false>("c" #P "view4", r);
#define MAT1(P, E, C, W) matrix_name<dsga::P##mat##C##x##W, E, C, W>(#P "mat" #C "x" #W, r);
#define MATS(P, E) MAT1(P, E, 2, 2) MAT1(P, E, 2, 3) MAT1(P, E, 2, 4) MAT1(P, E, 3, 2) MAT1(P, E, 3, 3) MAT1(P, E, 3, 4) MAT1(P, E, 4, 2) MAT1(P, E, 4, 3) MAT1(P, E, 4, 4) \
	matrix_name<dsga::P##mat2, E, 2, 2>(#P "mat2", r); matrix_name<dsga::P##mat3, E, 3, 3>(#P "mat3", r); matrix_name<dsga::P##mat4, E, 4, 4>(#P "mat4", r);

int main(int argc, char **argv)
{
	R.start(argc, argv);
	rng r(R.seed);
	for (R.cur_case = 0; R.cur_case < R.cases; ++R.cur_case)
	{
#if WHAT == 0
		VECS(b, bool) VECS(i, int) VECS(u, unsigned) VECS(ll, long long) VECS(ull, unsigned long long) VECS(, float) VECS(f, float) VECS(d, double)
#elif WHAT == 1
		VIEWS(b, bool) VIEWS(i, int) VIEWS(u, unsigned) VIEWS(ll, long long) VIEWS(ull, unsigned long long) VIEWS(, float) VIEWS(f, float) VIEWS(d, double)
#elif WHAT == 2
		CVIEWS(b, bool) CVIEWS(i, int) CVIEWS(u, unsigned) CVIEWS(ll, long long) CVIEWS(ull, unsigned long long) CVIEWS(, float) CVIEWS(f, float) CVIEWS(d, double)
#else
		MATS(, float) MATS(d, double)
#endif
	}
	return R.finish();
}
