// range matchers about other kinds of ranges
#include "seqs.hpp"
template <typename C> static void some(C& c, const Seq& t, const Seq& e)
{
	const std::string on = " on " + show(t);
	Seq user = e;
	g_what = "range::eq(" + show(e) + ")" + on;
	askLite(M::range::eq(user), c, t == e);
	g_what = "range::unordered_eq(" + show(e) + ")" + on;
	askLite(M::range::unordered_eq(user), c, perm(t, e, 0));
	g_what = "range::is_sorted()" + on;
	askLite(M::range::is_sorted(), c, sortedBy(t, c_lt));
	g_what = "range::is_empty()" + on;
	askLite(M::range::is_empty(), c, t.empty());
	if constexpr (std::ranges::sized_range<C>)
		for (int k = -1; k < 6; ++k) { g_what = "range::has_size(" + std::to_string(k) + ")" + on; askLite(M::range::has_size(k), c, k == static_cast<int>(t.size())); }
	for (int k = 0; k < 4; ++k)
	{
		g_what = "range::each_element(lt " + std::to_string(k) + ")" + on;
		askLite(M::range::each_element(M::lt(k)), c, allLt(t, k));
		g_what = "range::any_element(eq " + std::to_string(k) + ")" + on;
		askLite(M::range::any_element(M::eq(k)), c, anyEq(t, k));
	}
	if (user != e) fail("C10", g_what + " modified the expected range of the user");
	stat("other_ranges")++;
}
void range2Case(Rng& rng)
{
	const Seq t = randomSeq(rng), e = related(rng, t);
	{ std::list<int> c{t.begin(), t.end()}; some(c, t, e); }
	{ std::forward_list<int> c{t.begin(), t.end()}; some(c, t, e); }
	{ const std::deque<int> c{t.begin(), t.end()}; some(c, t, e); }
	{ Seq b = t; std::span<int> c{b}; some(c, t, e); }
	{ std::set<int> c{t.begin(), t.end()}; some(c, Seq{c.begin(), c.end()}, e); }
	{ std::array<int, 3> c{rng.below(3), rng.below(3), rng.below(3)}; some(c, Seq{c.begin(), c.end()}, related(rng, Seq{c.begin(), c.end()})); }
}
