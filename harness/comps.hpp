// Components of a constructor call: scalars, vectors of every kind and matrices, whose values are known. T is the element type of
// the object which is built and has to be declared before this file is included.
#pragma once
#ifdef THOROUGH
constexpr unsigned SEEDS = 4;
#else
constexpr unsigned SEEDS = 1;
#endif

// a value of U which static_cast<T> may be asked to convert
template <typename U>
U convertible_value(rng &r)
{
	for (;;)
	{
		U v = r.below(3) ? gen<U>(r) : gen_mod<U>(r);
		if constexpr (std::is_floating_point_v<U> && std::is_integral_v<T> && !std::is_same_v<T, bool>)
		{
			if (!(v > static_cast<U>(std::numeric_limits<T>::min()) - U(1) && v < static_cast<U>(std::numeric_limits<T>::max() / 2 + 1) * U(2)))
				continue;
		}
		if constexpr (std::is_same_v<U, double> && std::is_same_v<T, float>)
			if (std::isfinite(v) && std::fabs(v) > static_cast<double>(FLT_MAX))
				continue;
		return v;
	}
}

template <typename U>
struct scalar_comp
{
	U v{};
	void fill(rng &r) { v = convertible_value<U>(r); }
	U &obj() { return v; }
	template <typename F> void each(F &&f) { f(v); }
	bool intact() const { return true; }
	static std::string name() { return tname<U>; }
	static constexpr bool fills = true;
};

template <kind K, typename U, std::size_t C>
struct vector_comp
{
	holder<K, U, C> h;
	std::array<U, C> a{};
	void fill(rng &r) { a = arr<U, C>([&] { return convertible_value<U>(r); }); h.load(a); }
	decltype(auto) obj() { return h.obj(); }
	template <typename F> void each(F &&f) { for (auto v : a) f(v); }
	bool intact() { return h.guards() && hash_arr(h.read()) == hash_arr(a); }
	static std::string name() { return std::string(kname(K)) + std::to_string(C) + "<" + tname<U> + ">"; }
	static constexpr bool fills = (C == 1);
};

template <typename U, std::size_t C, std::size_t W>
struct matrix_comp
{
	dsga::basic_matrix<U, C, W> m;
	std::array<U, C * W> a{};
	void fill(rng &r)
	{
		a = arr<U, C * W>([&] { return convertible_value<U>(r); });
		std::memcpy(&m, a.data(), sizeof(a));
	}
	auto &obj() { return std::as_const(m); }
	template <typename F> void each(F &&f) { for (auto v : a) f(v); }
	bool intact() const { return std::memcmp(&m, a.data(), sizeof(a)) == 0; }
	static std::string name() { return "mat" + std::to_string(C) + "x" + std::to_string(W) + "<" + tname<U> + ">"; }
	static constexpr bool fills = false;
};

// pseudo-random choice of the component, by the compiler
constexpr u64 choose(u64 seed, u64 salt) { return rng(seed * 7919 + salt).next(); }
using every = std::tuple<float, int, double, bool, unsigned, long long, unsigned long long, unsigned long>;
template <u64 H> using elem_at = std::tuple_element_t<H % 8, every>;
// view classes are slow to compile: the quick tier uses two element types for the view kinds per target type
template <typename E> constexpr std::size_t index_of = [] { std::size_t i = 0; [&]<typename ...U>(std::tuple<U...> *) { ((std::is_same_v<U, E> ? true : (++i, false)) || ...); }(static_cast<every *>(nullptr)); return i; }();
constexpr bool view_kind(kind k) { return k != Vec && k != CVec && !kvec_swz(k); }
template <kind K, u64 H> using elem_for = elem_at<SEEDS == 4 || !view_kind(K) ? H : index_of<T> + (H & 8 ? 3 : 0)>;
template <kind K, typename U> constexpr bool combined = SEEDS == 4 || !view_kind(K) || index_of<U> == index_of<T> || index_of<U> == (index_of<T> + 3) % 8;
template <u64 H> constexpr kind kind_at = std::array<kind, 12>{ Vec, CVec, Swz, View, CView, VSwz, CVSwz, VV, SwzA, SwzD, VSwzA, VSwzD }[H % 12];

template <int S, u64 H>
auto comp_type()
{
	if constexpr (S == 5)
		return type_c<matrix_comp<std::conditional_t<(H >> 8) & 1, float, double>, 2 + (H >> 16) % 3, 2 + (H >> 24) % 3>>{};
	else if constexpr (S == 1 && ((H >> 16) & 1))
		return type_c<scalar_comp<elem_at<(H >> 24)>>>{};
	else
		return type_c<vector_comp<kind_at<(H >> 8)>, elem_for<kind_at<(H >> 8)>, (H >> 24)>, S>>{};
}
template <int S, u64 H> using comp = typename decltype(comp_type<S, H>())::type;

template <typename ...C> struct list {};

template <typename Target, typename ...A>
constexpr bool accepts = requires (A &...a) { Target(a...); };
