#pragma once
#include "match.hpp"
template <typename T> bool same(const T& a, const T& b)
{
	if constexpr (std::is_floating_point_v<T>) return std::memcmp(&a, &b, std::min(sizeof(T), std::size_t{8})) == 0;
	else return a == b;
}
template <bool full, typename T, typename E> void valueCase(int r, const T& tv, const E& ev)
{
	const bool want = holds(r, tv, ev);
	T target = tv; E expected = ev; const E cexpected = ev;
	g_what = std::string{"matches::"} + relName[r] + "(" + showT(ev) + ")";
	const auto chk = [&](auto&& m) { if constexpr (full) askAll(m, target, want); else askLite(m, target, want); };
	withRel(r, chk, expected);
	withRel(r, chk, cexpected);
	withRel(r, chk, E(ev));
	if (!same(target, tv)) fail("C10", g_what + " modified the target");
	if (!same(expected, ev) || !same(cexpected, ev)) fail("C10", g_what + " modified the expected value of the user");
	++stat("value_cases");
}
template <bool full, typename T, typename E> void valueGrid(Rng&)
{
	for (auto& t : pool<T>())
		for (auto& e : pool<E>())
			for (int r = 0; r < 6; ++r) valueCase<full, T, E>(r, t, e);
}
