// range matchers about a vector: every construction and every way of asking
#include "seqs.hpp"
static void pairs(Seq& c, const Seq& t, const Seq& e)
{
	const std::string on = " on " + show(t);
	Seq user = e; const Seq cuser = e; std::list<int> ul{e.begin(), e.end()};
	g_what = "range::eq(" + show(e) + ")" + on;
	askAll(M::range::eq(user), c, t == e);
	askAll(M::range::eq(Seq(e)), c, t == e);
	askLite(M::range::eq(ul), c, t == e);
	askLite(M::range::eq(cuser), c, t == e);
	g_what = "range::eq(" + show(e) + ", comparator)" + on;
	for (Cmp cmp : {c_lt, c_succ, c_eq, c_mod, c_gt}) askLite(M::range::eq(user, cmp), c, seqEq(t, e, cmp));
	askLite(M::range::eq(user, std::less<>{}), c, seqEq(t, e, c_lt));
	g_what = "range::unordered_eq(" + show(e) + ")" + on;
	askAll(M::range::unordered_eq(user), c, perm(t, e, 0));
	askLite(M::range::unordered_eq(std::deque<int>(e.begin(), e.end())), c, perm(t, e, 0));
	askLite(!M::range::unordered_eq(std::deque<int>(e.begin(), e.end())), c, !perm(t, e, 0));
	askLite(!M::range::eq(Seq(e)), c, t != e);
	g_what = "range::unordered_eq(" + show(e) + ", mod 2)" + on;
	askLite(M::range::unordered_eq(user, c_mod), c, perm(t, e, 2));
	if (user != e || ul != std::list<int>(e.begin(), e.end())) fail("C10", g_what + " modified the expected range of the user");
	stat("range_pairs")++;
}
static void unary(Seq& c, const Seq& t)
{
	const std::string on = " on " + show(t);
	g_what = "range::is_sorted()" + on;
	askAll(M::range::is_sorted(), c, sortedBy(t, c_lt));
	for (Cmp cmp : {c_gt, c_modlt, c_lt}) askLite(M::range::is_sorted(cmp), c, sortedBy(t, cmp));
	g_what = "range::is_empty()" + on;
	askAll(M::range::is_empty(), c, t.empty());
	const int n = static_cast<int>(t.size());
	for (int k = -2; k < 7; ++k)
	{
		g_what = "range::has_size(" + std::to_string(k) + ")" + on;
		askAll(M::range::has_size(k), c, k == n);
		askLite(M::range::has_size(static_cast<std::int8_t>(k)), c, k == n);
		askLite(M::range::has_size(static_cast<long long>(k)), c, k == n);
		askLite(M::range::has_size(static_cast<unsigned>(k)), c, k == n && k >= 0);
		askLite(M::range::has_size(static_cast<std::size_t>(k)), c, k == n && k >= 0);
	}
	askLite(M::range::has_size(256 + n), c, false);
	askLite(M::range::has_size((1ll << 32) + n), c, false);
	for (int k = 0; k < 4; ++k)
	{
		g_what = "range::each_element(lt " + std::to_string(k) + ")" + on;
		const auto lt = M::lt(k); auto eq = M::eq(k); auto ne = !M::lt(k);
		const auto d = lt.describe(), d2 = eq.describe(), d3 = ne.describe();
		askAll(M::range::each_element(lt), c, allLt(t, k));
		askAll(M::range::each_element(M::lt(k)), c, allLt(t, k));
		g_what = "range::each_element(!lt " + std::to_string(k) + ")" + on;
		askLite(M::range::each_element(!M::lt(k)), c, allGe(t, k));
		askLite(M::range::each_element(ne), c, allGe(t, k));
		g_what = "range::any_element(eq " + std::to_string(k) + ")" + on;
		askAll(M::range::any_element(eq), c, anyEq(t, k));
		askAll(M::range::any_element(eq), c, anyEq(t, k)); // the lvalue is usable again
		askAll(M::range::any_element(M::eq(k)), c, anyEq(t, k));
		g_what = "range::any_element(!eq " + std::to_string(k) + ")" + on;
		askLite(M::range::any_element(!eq), c, anyNe(t, k));
		g_what = "range::each_element(_)" + on;
		if (!M::range::each_element(M::_).matches(c)) fail("C10", g_what + " rejects");
		if (M::range::any_element(M::_).matches(c) != !t.empty()) fail("C10", "any_element(_) answers wrongly" + on);
		if (lt.describe() != d || eq.describe() != d2 || ne.describe() != d3) fail("C10", "an element matcher of the user was modified: described as '" + std::string(eq.describe()) + "' / '" + std::string(lt.describe()) + "'");
		int probe = k;
		if (!eq.matches(probe) || lt.matches(probe)) fail("C10", "an element matcher of the user was modified");
	}
	stat("range_unary")++;
}
// sizes beyond what the type of the expected size can hold
template <typename I> static void narrow(std::size_t n, const std::vector<char>& t)
{
	std::vector<I> ks{I{0}, I{1}, std::numeric_limits<I>::max(), std::numeric_limits<I>::min(), static_cast<I>(n), static_cast<I>(-1)};
	for (const I k : ks)
	{
		const bool want = std::cmp_equal(k, n);
		auto m = M::range::has_size(k);
		if (m.matches(t) != want || (!m).matches(t) == want) fail("C10", "range::has_size(" + std::to_string(k) + "), of a type of " + std::to_string(sizeof(I)) + " bytes, answers wrongly for a range of " + std::to_string(n) + " elements");
		const std::span<const char> sp(t);
		if (M::range::has_size(k).matches(sp) != want) fail("C10", "range::has_size(" + std::to_string(k) + ") answers wrongly for a span of " + std::to_string(n) + " elements");
		++stat("questions");
	}
}
static void longRange(Rng& rng)
{
	static const std::vector<std::size_t> sizes{127, 128, 255, 256, 257, 383, 511, 512, 32767, 32768, 65535, 65536, 65537, 131072};
	const std::size_t n = rng.chance(40) ? static_cast<std::size_t>(rng.below(2000)) : rng.pick(sizes);
	const std::vector<char> t(n, 'x');
	narrow<std::int8_t>(n, t); narrow<std::uint8_t>(n, t); narrow<std::int16_t>(n, t); narrow<std::uint16_t>(n, t); narrow<int>(n, t); narrow<unsigned>(n, t); narrow<long long>(n, t); narrow<unsigned long long>(n, t);
	// elements far behind
	std::vector<int> v(n, 1), w = v;
	if (n) { const auto at = static_cast<std::size_t>(rng.below(static_cast<int>(n))); w[at] = 0; if (n > 1 && M::range::is_sorted().matches(w) != (at == 0)) fail("C10", "range::is_sorted answers wrongly for " + std::to_string(n) + " elements, out of order at " + std::to_string(at)); }
	if (!M::range::eq(v).matches(v) || M::range::eq(v).matches(w) != (v == w) || M::range::eq(w).matches(v) != (v == w)) fail("C10", "range::eq answers wrongly for " + std::to_string(n) + " elements");
	if (M::range::each_element(M::eq(1)).matches(w) != (n == 0) || !M::range::each_element(M::eq(1)).matches(v)) fail("C10", "range::each_element answers wrongly for " + std::to_string(n) + " elements");
	if (M::range::any_element(M::eq(0)).matches(w) != (n > 0) || M::range::any_element(M::eq(0)).matches(v)) fail("C10", "range::any_element answers wrongly for " + std::to_string(n) + " elements");
	if (n <= 2000) { auto x = w; std::ranges::reverse(x); if (!M::range::unordered_eq(x).matches(w) || M::range::unordered_eq(v).matches(w) != (v == w)) fail("C10", "range::unordered_eq answers wrongly for " + std::to_string(n) + " elements"); }
	v.push_back(1); if (M::range::eq(v).matches(w) || M::range::eq(w).matches(v)) fail("C10", "range::eq accepts a range which is longer");
	stat("long_ranges")++;
}
void rangeCase(Rng& rng)
{
	if (rng.chance(15)) longRange(rng);
	const Seq t = randomSeq(rng);
	Seq c = t;
	for (int i = 0; i < 3; ++i) pairs(c, t, related(rng, t));
	unary(c, t);
	if (c != t) fail("C10", "a range matcher modified the target");
}
