// Every way the library lets a program hold N logical lanes of T, behind one interface. Values get in and out through raw
// memory, so the library is never its own judge, and every lane a kind does not name is a guard that must keep its value.
#pragma once
#include "mon.hpp"
#include "dsga.hxx"

namespace mon
{
	// SwzA, VSwzA: neighbouring lanes in storage order; SwzD, VSwzD: all lanes of their own base backwards
	enum kind { Vec, CVec, Swz, View, CView, VSwz, CVSwz, VV, SwzA, SwzD, VSwzA, VSwzD };

	constexpr const char *kname(kind k)
	{
		constexpr const char *n[] = { "vec", "cvec", "swz", "view", "cview", "vswz", "cvswz", "vv", "run", "reversed", "view-run", "view-reversed" };
		return n[k];
	}

	constexpr bool kwritable(kind k) { return k != CVec && k != CView && k != CVSwz; }
	constexpr bool kvec_swz(kind k) { return k == Swz || k == SwzA || k == SwzD; }
	constexpr bool kview_swz(kind k) { return k == VSwz || k == CVSwz || k == VSwzA || k == VSwzD; }
	constexpr bool kswz(kind k) { return kvec_swz(k) || kview_swz(k); }
	// lanes of the vector or view a kind of N lanes names its lanes of
	constexpr std::size_t kbase(kind k, std::size_t n) { return (k == SwzD || k == VSwzD || !kswz(k)) ? n : 4; }

	// the lanes of a four lane base which the swizzles of count N used here name
	template <std::size_t N> struct swz_lanes;
	template <> struct swz_lanes<1> { static constexpr std::size_t at[1] = { 2 }; };
	template <> struct swz_lanes<2> { static constexpr std::size_t at[2] = { 3, 1 }; };
	template <> struct swz_lanes<3> { static constexpr std::size_t at[3] = { 2, 0, 3 }; };
	template <> struct swz_lanes<4> { static constexpr std::size_t at[4] = { 1, 0, 3, 2 }; };

	template <std::size_t N, typename V>
	constexpr auto &pick_swz(V &v)
	{
		if constexpr (N == 1) return v.z;
		else if constexpr (N == 2) return v.wy;
		else if constexpr (N == 3) return v.zxw;
		else return v.yxwz;
	}

	// the same for any kind of swizzle
	template <kind K, std::size_t N>
	constexpr std::size_t kind_lane(std::size_t i)
	{
		if constexpr (K == SwzA || K == VSwzA) return i + (N == 4 ? 0 : 1);
		else if constexpr (K == SwzD || K == VSwzD) return N - 1 - i;
		else if constexpr (kswz(K)) return swz_lanes<N>::at[i];
		else return i;
	}

	template <kind K, std::size_t N, typename V>
	constexpr auto &pick_kind(V &v)
	{
		if constexpr (K == SwzA || K == VSwzA)
		{
			if constexpr (N == 1) return v.y;
			else if constexpr (N == 2) return v.yz;
			else if constexpr (N == 3) return v.yzw;
			else return v.xyzw;
		}
		else if constexpr (K == SwzD || K == VSwzD)
		{
			if constexpr (N == 1) return v.x;
			else if constexpr (N == 2) return v.yx;
			else if constexpr (N == 3) return v.zyx;
			else return v.wzyx;
		}
		else return pick_swz<N>(v);
	}

	template <typename T>
	T guard_value(std::size_t i)
	{
		if constexpr (std::is_same_v<T, bool>)
			return (0x6Du >> (i % 8)) & 1;
		else
			return static_cast<T>(7001 + 13 * i);
	}

	template <kind K, typename T, std::size_t N>
	struct holder
	{
		static constexpr kind K_ = K;
		static constexpr bool writable = kwritable(K);
		static constexpr bool on_vector = (K == Vec || K == CVec);
		static constexpr bool on_swz = kvec_swz(K);
		static constexpr bool on_view = (K == View || K == CView);

		using vec_n = dsga::basic_vector<T, N>;
		using vec_4 = dsga::basic_vector<T, kbase(K, N)>;
		using view_n = dsga::basic_view<(K == View), T, N>;
		using view_4 = dsga::basic_view<(K != CVSwz), T, kbase(K, N)>;

		struct in_vec { T pre[2]; vec_n v; T post[2]; };
		struct in_swz { T pre[2]; vec_4 v; T post[2]; };
		struct in_view { T buf[N + 4]; view_n v; in_view() : buf{}, v(buf + 2) {} };
		struct in_vswz { T buf[kbase(K, N) + 4]; view_4 v; in_vswz() : buf{}, v(buf + 2) {} };
		struct in_vv { T pre[2]; dsga::view_vector<T, N> v; T post[2]; };

		using store_t = std::conditional_t<on_vector, in_vec, std::conditional_t<on_swz, in_swz, std::conditional_t<on_view, in_view,
			std::conditional_t<K == VV, in_vv, in_vswz>>>>;

		store_t s;

		holder() : s() { reset_guards(); }
		explicit holder(const std::array<T, N> &a) : s() { load(a); }
		holder(const holder &) = delete;

		// raw storage which surrounds and holds the lanes, as (pointer, lanes in it, offset of the first base lane)
		T *raw()
		{
			if constexpr (on_view || kview_swz(K)) return s.buf + 2;
			else if constexpr (K == VV) return &s.v[0];
			else return reinterpret_cast<T *>(&s.v);
		}
		const T *raw() const { return const_cast<holder *>(this)->raw(); }

		static constexpr std::size_t lane(std::size_t i)
		{
			return kind_lane<K, N>(i);
		}
		static constexpr std::size_t base_lanes = kbase(K, N);

		T *pre()
		{
			if constexpr (on_view || kview_swz(K)) return s.buf;
			else return s.pre;
		}
		T *post()
		{
			if constexpr (on_view || kview_swz(K)) return s.buf + 2 + base_lanes;
			else return s.post;
		}

		void reset_guards()
		{
			for (std::size_t i = 0; i < 2; ++i) { pre()[i] = guard_value<T>(i); post()[i] = guard_value<T>(i + 2); }
			for (std::size_t i = 0; i < base_lanes; ++i)
			{
				T g = guard_value<T>(i + 4);
				std::memcpy(raw() + i, &g, sizeof(T));
			}
		}

		void load(const std::array<T, N> &a)
		{
			reset_guards();
			for (std::size_t i = 0; i < N; ++i)
				std::memcpy(raw() + lane(i), &a[i], sizeof(T));
		}

		std::array<T, N> read() const
		{
			std::array<T, N> a{};
			for (std::size_t i = 0; i < N; ++i)
				std::memcpy(&a[i], raw() + lane(i), sizeof(T));
			return a;
		}

		bool guards()
		{
			for (std::size_t i = 0; i < 2; ++i)
				if (!same(pre()[i], guard_value<T>(i)) || !same(post()[i], guard_value<T>(i + 2)))
					return false;
			if constexpr (base_lanes > N)
				for (std::size_t i = 0; i < base_lanes; ++i)
				{
					bool named = false;
					for (std::size_t j = 0; j < N; ++j)
						named = named || lane(j) == i;
					if (!named && !same(raw()[i], guard_value<T>(i + 4)))
						return false;
				}
			return true;
		}

		// the object a program would use
		auto &obj()
		{
			if constexpr (K == Vec || K == View || K == VV || K == CView) return s.v;
			else if constexpr (K == CVec) return std::as_const(s.v);
			else return pick_kind<K, N>(s.v);
		}
	};

	template <typename V>
	constexpr std::size_t count_of = std::tuple_size_v<std::remove_cvref_t<decltype(dsga::to_array(std::declval<const std::remove_cvref_t<V> &>()))>>;

	// lanes of any vector-like result, read one by one through its own interface
	template <typename V>
	auto lanes(const V &v)
	{
		using T = std::remove_cvref_t<decltype(v[0])>;
		constexpr std::size_t N = count_of<V>;
		std::array<T, N> a{};
		for (std::size_t i = 0; i < N; ++i)
			a[i] = v[i];
		return a;
	}

	// lanes of a result which is a vector of N lanes, or a scalar when N is 1; through raw memory
	template <typename T, std::size_t N, typename V>
	std::array<T, N> result_lanes(const V &v)
	{
		std::array<T, N> a{};
		if constexpr (std::is_arithmetic_v<V>)
		{
			static_assert(N == 1 && std::is_same_v<V, T>, "unexpected scalar result type");
			a[0] = v;
		}
		else
		{
			static_assert(std::is_same_v<V, dsga::basic_vector<T, N>>, "unexpected vector result type");
			static_assert(sizeof(V) == sizeof(T) * N);
			std::memcpy(a.data(), &v, sizeof(a));
		}
		return a;
	}

	template <typename F, std::size_t ...Is>
	void for_sizes_impl(F &&f, std::index_sequence<Is...>) { (f(std::integral_constant<std::size_t, Is + 1>{}), ...); }
	template <typename F>
	void for_sizes(F &&f) { for_sizes_impl(f, std::make_index_sequence<4>{}); }

	template <typename T> struct type_c { using type = T; };
	template <typename ...Ts, typename F>
	void for_types(F &&f) { (f(type_c<Ts>{}), ...); }

	template <kind ...Ks, typename F>
	void for_kinds(F &&f) { (f(std::integral_constant<kind, Ks>{}), ...); }

	// an operation whose result type differs from what is specified is a violation, not a broken harness
	template <typename V, typename T, std::size_t N>
	constexpr bool has_result_type = (N == 1 && std::is_same_v<V, T>) || std::is_same_v<V, dsga::basic_vector<T, N>>;

	// judge a result against the lanes it must have
	template <typename T, std::size_t N, typename V>
	bool judge(const V &got, const std::array<T, N> &want, const char *what, const std::string &inputs)
	{
		if constexpr (!has_result_type<V, T, N>)
		{
			R.fail(R.sec + ":" + what + ":result-type", "the result is not " + std::to_string(N) + " lanes of " + tname<T> + "; inputs " + inputs);
			return false;
		}
		else
		{
			auto g = result_lanes<T, N>(got);
			for (std::size_t i = 0; i < N; ++i)
				if (!same(g[i], want[i]))
				{
					R.fail(R.sec + ":" + what, "lane " + std::to_string(i) + ": got " + show(g) + " want " + show(want) + " for " + inputs);
					return false;
				}
			return true;
		}
	}
}
