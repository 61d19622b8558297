// P08: a vector is built from its components left to right, converted exactly, or not at all.
//   ELEM element type of the targets    VIEWS 0: basic_vector targets, 1: view_vector targets
#include "kinds.hpp"
using namespace mon;
using T = ELEM;
#include "comps.hpp"

template <std::size_t N, typename V>
__attribute__((noinline)) void compare(const V &got_v, const std::array<T, N> &want, const std::string &what, u64 h, bool intact)
{
	std::array<T, N> got{};
	if constexpr (std::is_same_v<V, dsga::basic_vector<T, N>>)
		std::memcpy(got.data(), &got_v, sizeof(got));
	else
		std::memcpy(got.data(), got_v.store, sizeof(got));
	R.saw(mix(hash_arr(want), h), varied(want));
	for (std::size_t i = 0; i < N; ++i)
		if (!same(got[i], want[i]))
		{
			R.fail(R.sec + ":" + what, "lane " + std::to_string(i) + ": " + what + " gives " + show(got) + " want " + show(want));
			break;
		}
	if (!intact)
		R.fail(R.sec + ":" + what + ":operand-changed", "building a vector changed a component");
	if constexpr (!std::is_same_v<V, dsga::basic_vector<T, N>>)
		for (std::size_t i = 0; i < N; ++i)
			if (!same(T(got_v[i]), want[i]))
			{
				R.fail(R.sec + ":" + what + ":view", "the view of a view_vector shows something else than its store");
				break;
			}
}

template <typename Target, std::size_t N, typename ...C>
__attribute__((noinline)) void build(rng &r, list<C...>)
{
	const std::string what = ((C::name() + ",") + ...);
	using objs = list<decltype(std::declval<C &>().obj())...>;
	if constexpr (!accepts<Target, std::remove_reference_t<decltype(std::declval<C &>().obj())>...>)
		R.fail(R.sec + ":" + what + ":rejected", "not accepted: a vector of " + std::to_string(N) + " from " + what);
	else
	{
		std::tuple<C...> cs;
		std::vector<T> flat;
		std::apply([&](auto &...c) { (c.fill(r), ...); (c.each([&](auto v) { flat.push_back(static_cast<T>(v)); }), ...); }, cs);
		std::array<T, N> want{};
		for (std::size_t i = 0; i < N; ++i)
			want[i] = sizeof...(C) == 1 && flat.size() == 1 ? flat[0] : flat[i];
		std::apply([&](auto &...c) {
			Target t(c.obj()...);
			compare<N>(t, want, what, hash_str(what.c_str()), (c.intact() && ...));
			if constexpr (SEEDS > 1 || sizeof...(C) == 3)
			{
				// the braced form is the same constructor
				Target b{ c.obj()... };
				compare<N>(b, want, what + "{}", hash_str(what.c_str()) + 1, (c.intact() && ...));
			}
		}, cs);
		if (R.cur_case == 0 && sizeof...(C) == 2)
			R.sample("vector of " + std::to_string(N) + " from " + what + " is " + show(want));
	}
	if constexpr (sizeof...(C) == 1 && (C::fills && ...) && N > 1)
		return;
	// one more component would be unused: not accepted
	R.saw(hash_str(what.c_str()));
	if constexpr (accepts<Target, std::remove_reference_t<decltype(std::declval<C &>().obj())>..., int>)
		R.fail(R.sec + ":" + what + "int:accepted", "accepted although the last component is unused: " + what + "int");
	if constexpr (accepts<Target, std::remove_reference_t<decltype(std::declval<C &>().obj())>..., dsga::basic_vector<T, 2>>)
		R.fail(R.sec + ":" + what + "vec2:accepted", "accepted although the last component is unused: " + what + "vec2");
}

template <typename Target, std::size_t N, typename ...C>
void too_few(list<C...>)
{
	const std::string what = ((C::name() + ",") + ...);
	R.saw(hash_str(what.c_str()));
	if constexpr (!(sizeof...(C) == 1 && (C::fills && ...)))
		if constexpr (accepts<Target, std::remove_reference_t<decltype(std::declval<C &>().obj())>...>)
			R.fail(R.sec + ":" + what + ":accepted", "accepted although there are too few components: " + what);
}

template <typename Target, std::size_t N, std::size_t Have, u64 Seed, typename ...C>
void partitions(rng &r, list<C...>)
{
	if constexpr (sizeof...(C) > 0)
		too_few<Target, N>(list<C...>{});
	[&]<int ...S>(std::integer_sequence<int, S...>) {
		([&] {
			using next = comp<S + 1, choose(Seed, Have * 64 + S * 8 + sizeof...(C) + N * 1024)>;
			constexpr std::size_t count = Have + (S == 4 ? 4 : S + 1);
			if constexpr (count >= N)
				build<Target, N>(r, list<C..., next>{});
			else
				partitions<Target, N, count, choose(Seed, S)>(r, list<C..., next>{});
		}(), ...);
	}(std::make_integer_sequence<int, 5>{});
}

// a single scalar or one-lane vector fills
template <typename Target, std::size_t N>
void fills(rng &r)
{
	for_types<float, int, double, bool, unsigned, long long, unsigned long long, unsigned long>([&](auto u) {
		using U = typename decltype(u)::type;
		build<Target, N>(r, list<scalar_comp<U>>{});
		for_kinds<Vec, CVec, Swz, View, CView, VSwz, CVSwz, VV, SwzA, SwzD, VSwzA, VSwzD>([&](auto k) {
			constexpr kind K = k;
			if constexpr (combined<K, U> && (SEEDS == 4 || view_kind(K) || (sizeof(U) + std::is_signed_v<U> + 2 * std::is_integral_v<U> + K + N) % 4 == 0))
				build<Target, N>(r, list<vector_comp<K, U, 1>>{});
		});
	});
}

#if VIEWS == 0
template <kind K, typename U, std::size_t C, std::size_t N>
__attribute__((noinline)) void convert_one(rng &r)
{
	using Target = dsga::basic_vector<T, N>;
	using object = decltype(std::declval<vector_comp<K, U, C> &>().obj());
	vector_comp<K, U, C> c;
	c.fill(r);
	std::array<T, N> want{};
	for (std::size_t i = 0; i < N; ++i)
		want[i] = static_cast<T>(c.a[i]);
	const std::string what = c.name();
	if constexpr (std::is_convertible_v<object, Target>)
	{
		Target t = c.obj();
		compare<N>(t, want, what + "=", hash_str(what.c_str()), c.intact());
	}
	else
		R.fail(R.sec + ":" + what + ":rejected", "no implicit conversion to " + std::to_string(N) + " lanes from " + what);
	if constexpr (C == N)
	{
		if constexpr (std::is_assignable_v<Target &, object>)
		{
			Target t(T(1));
			auto &back = (t = c.obj());
			compare<N>(t, want, what + "assign", hash_str(what.c_str()) + 1, c.intact());
			if (&back != &t)
				R.fail(R.sec + ":" + what + ":returns", "assignment does not return the target");
		}
		else
			R.fail(R.sec + ":" + what + ":not-assignable", "not assignable to " + std::to_string(N) + " lanes from " + what);
	}
}

// implicit conversion and assignment from any kind and element type which converts without loss of category
template <std::size_t N>
void conversions(rng &r)
{
	using Target = dsga::basic_vector<T, N>;
	for_types<float, int, double, unsigned, long long, unsigned long long, unsigned long>([&](auto u) {
		using U = typename decltype(u)::type;
		if constexpr (!std::is_same_v<T, bool>)
			if constexpr (std::is_same_v<std::common_type_t<U, T>, T>)
				for_kinds<Vec, CVec, Swz, View, CView, VSwz, CVSwz, VV, SwzA, SwzD, VSwzA, VSwzD>([&](auto k) {
					constexpr kind K = k;
					for_sizes([&](auto cc) {
						constexpr std::size_t C = cc;
						if constexpr (combined<K, U> && C >= N && ((C == N && (SEEDS == 4 || (K + N + sizeof(U) / 4 + std::is_signed_v<U>) % 2 == 0)) || (SEEDS == 4 || (K + C + N + sizeof(U)) % 4 == 0)))
						{
							R.section("convert/" + std::to_string(N) + "/" + tname<T>);
							convert_one<K, U, C, N>(r);
						}
					});
				});
	});
	// deduction, copies and moves
	for_kinds<Vec, CVec, Swz, View, CView, VSwz, CVSwz, VV, SwzA, SwzD, VSwzA, VSwzD>([&](auto k) {
		constexpr kind K = k;
		R.section("copy/" + std::to_string(N) + "/" + tname<T>);
		vector_comp<K, T, N> c;
		c.fill(r);
		const std::string what = c.name();
		dsga::basic_vector d(c.obj());
		if constexpr (std::is_same_v<decltype(d), Target>)
		{
			compare<N>(d, c.a, what + "deduced", hash_str(what.c_str()), c.intact());
			Target copy(d), moved(std::move(d)), assigned, from_const = std::as_const(copy);
			assigned = copy;
			compare<N>(copy, c.a, what + "copy", 2, true);
			compare<N>(moved, c.a, what + "move", 3, true);
			compare<N>(assigned, c.a, what + "assigned", 4, true);
			compare<N>(from_const, c.a, what + "from const", 5, true);
			// copies are separate
			T w = c.a[0];
			copy[0] = static_cast<T>(!w);
			if (!same(moved[0], w) || !same(assigned[0], w))
				R.fail(R.sec + ":shared", "copies of a vector share lanes");
		}
		else
			R.fail(R.sec + ":" + what + ":deduced", "basic_vector deduced from " + what + " has another type");
		dsga::view_vector vd(c.obj());
		if constexpr (std::is_same_v<decltype(vd), dsga::view_vector<T, N>>)
			compare<N>(vd, c.a, what + "deduced view_vector", hash_str(what.c_str()), c.intact());
		else
			R.fail(R.sec + ":" + what + ":vv-deduced", "view_vector deduced from " + what + " has another type");
	});
	// scalars deduce the type of the first and the count
	auto a = arr<T, N>([&] { return gen<T>(r); });
	R.section("deduce/" + std::to_string(N) + "/" + tname<T>);
	[&]<std::size_t ...I>(std::index_sequence<I...>) {
		dsga::basic_vector d(a[I]...);
		static_assert(std::is_same_v<decltype(d), Target>);
		compare<N>(d, a, "scalars", 6, true);
		dsga::view_vector vd(a[I]...);
		static_assert(std::is_same_v<decltype(vd), dsga::view_vector<T, N>>);
		compare<N>(vd, a, "scalars view_vector", 7, true);
	}(std::make_index_sequence<N>{});
	// default construction then value initialisation gives zeros
	Target z{};
	compare<N>(z, std::array<T, N>{}, "value initialised", 8, true);
}
#endif

int main(int argc, char **argv)
{
	R.start(argc, argv);
	rng r(R.seed);
	for (u64 c = 0; c < R.cases; ++c)
	{
		R.cur_case = c;
		for_sizes([&](auto nn) {
			constexpr std::size_t N = nn;
			using Target = std::conditional_t<VIEWS, dsga::view_vector<T, N>, dsga::basic_vector<T, N>>;
			R.section("fill/" + std::to_string(N) + "/" + tname<T>);
			fills<Target, N>(r);
			R.section("build/" + std::to_string(N) + "/" + tname<T>);
			[&]<std::size_t ...S>(std::index_sequence<S...>) { (partitions<Target, N, 0, 17 + S * 31 + sizeof(T) + std::is_integral_v<T> * 3 + VIEWS>(r, list<>{}), ...); }(std::make_index_sequence<SEEDS>{});
#if VIEWS == 0
			conversions<N>(r);
#endif
		});
	}
	return R.finish();
}
