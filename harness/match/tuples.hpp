#pragma once
// values which are pairs, tuples or wrappers themselves: they are one value, not several
#include "grid.hpp"
#include <optional>
#include <tuple>
#include <variant>
namespace
{
	template <typename T> struct Make;
	template <> struct Make<int> { static int of(Rng& r) { return r.below(3); } };
	template <> struct Make<std::string> { static std::string of(Rng& r) { return std::string(static_cast<std::size_t>(r.below(3)), 'a'); } };
	template <typename A, typename B> struct Make<std::pair<A, B>> { static std::pair<A, B> of(Rng& r) { A a = Make<A>::of(r); return {std::move(a), Make<B>::of(r)}; } };
	template <typename... A> struct Make<std::tuple<A...>> { static std::tuple<A...> of(Rng& r) { return std::tuple<A...>{Make<A>::of(r)...}; } };
	template <typename A> struct Make<std::optional<A>> { static std::optional<A> of(Rng& r) { if (r.chance(30)) return std::nullopt; return Make<A>::of(r); } };
	template <typename A, typename B> struct Make<std::variant<A, B>> { static std::variant<A, B> of(Rng& r) { if (r.chance(50)) return Make<A>::of(r); return Make<B>::of(r); } };
	template <typename A, std::size_t N> struct Make<std::array<A, N>> { static std::array<A, N> of(Rng& r) { std::array<A, N> a{}; for (auto& x : a) x = Make<A>::of(r); return a; } };
	template <typename A> struct Make<std::vector<A>> { static std::vector<A> of(Rng& r) { std::vector<A> a; for (int i = r.below(3); i > 0; --i) a.push_back(Make<A>::of(r)); return a; } };

	template <typename T, bool full = false> void one(Rng& rng)
	{
		const T t = Make<T>::of(rng), e = rng.chance(40) ? t : Make<T>::of(rng);
		for (int r = 0; r < 6; ++r) valueCase<full, T, T>(r, t, e);
		T target = t; T expected = e;
		g_what = "tuple-like as plain value";
		viaMock<const T&>(expected, target, t == e);
		viaMock<T>(std::as_const(expected), target, t == e);
		viaMock<T&>(T(e), target, t == e);
		viaMock<const T&>(M::le(expected), target, t <= e);
		viaMock<T&&>(!M::eq(expected), target, !(t == e));
		mm::Mock<void(int, const T&)> mock{};
		mm::ScopedExpectation ex = mock.expect_call(1, expected) && mm::expect::at_most(9);
		bool got = true;
		try { mock(1, target); } catch (const Quiet::No&) { got = false; }
		if (got != (t == e)) fail("C10", std::string{"a call with a tuple-like value as second argument is "} + (got ? "accepted" : "rejected"));
		if (!(target == t) || !(expected == e)) fail("C10", "a tuple-like value of the user is modified");
		std::vector<T> range{t, t}, want{e, t};
		g_what = "range of tuple-like values";
		askLite(M::range::eq(want), range, t == e);
		askLite(M::range::each_element(M::eq(e)), range, t == e);
		askLite(M::range::any_element(M::lt(expected)), range, t < e);
		++stat("tuple_like_cases");
	}
}
