// nested range matchers, ranges of objects, range matchers in expectations
#include "seqs.hpp"
// elements whose comparisons see only a part of them, and which offer nothing else
struct Coarse
{
	int key, val;
	friend bool operator==(const Coarse& a, const Coarse& b) { return a.key == b.key; }
	friend bool operator<(const Coarse& a, const Coarse& b) { return a.key < b.key; }
	void operator&() const = delete; template <typename T> void operator,(T&&) const = delete;
};
struct Mute { int val; void operator&() const = delete; template <typename T> void operator,(T&&) const = delete; }; // not comparable at all
static std::string show(const Coarse& c) { return std::to_string(c.key) + ":" + std::to_string(c.val); }
static std::string show(const Mute& c) { return std::to_string(c.val); }
template <typename R> static void fine(R c, const Seq& vals, int k)
{
	bool all = true, any = false, all2 = true; for (int v : vals) { all &= v < k; any |= v == k; all2 &= v != k; }
	const auto lt = [k](const auto& x) { return x.val < k; }; const auto eq = [k](const auto& x) { return x.val == k; };
	askLite(M::range::each_element(M::predicate(lt)), c, all);
	askLite(!M::range::each_element(M::predicate(lt)), c, !all);
	askLite(M::range::any_element(M::predicate(eq)), c, any);
	askLite(M::range::each_element(!M::predicate(eq)), c, all2);
	askLite(M::range::is_sorted([](const auto& a, const auto& b) { return a.val < b.val; }), c, sortedBy(vals, c_lt));
	askLite(M::range::has_size(vals.size()), c, true);
	askLite(M::range::is_empty(), c, vals.empty());
}
template <template <typename...> typename Range> static void coarse(const Seq& t, const Seq& e, Rng& rng)
{
	const int k = rng.below(4), keys = rng.between(1, 2);
	g_what = "a range of coarse elements " + show(t) + " about " + std::to_string(k) + " or " + show(e);
	Range<Coarse> c, ce; Range<Mute> m; Seq tk, ek;
	for (int v : t) { c.push_back({rng.below(keys), v}); m.push_back({v}); tk.push_back(c.back().key); }
	for (int v : e) { ce.push_back({rng.below(keys), v}); ek.push_back(ce.back().key); }
	fine(c, t, k); fine(m, t, k);
	const auto val = [](const Coarse& a, const Coarse& b) { return a.val == b.val; };
	askLite(M::range::eq(ce), c, tk == ek);
	askLite(M::range::eq(ce, val), c, t == e);
	askLite(M::range::unordered_eq(ce), c, perm(tk, ek, 0));
	askLite(M::range::unordered_eq(ce, val), c, perm(t, e, 0));
	stat("coarse_ranges")++;
}
void nestedCase(Rng& rng)
{
	const auto& all = shortSeqs();
	const Seq t = randomSeq(rng), e = related(rng, t);
	std::vector<Seq> vv; for (int i = rng.below(4); i > 0; --i) vv.push_back(rng.chance(30) ? Seq{} : rng.chance(30) ? e : rng.pick(all));
	const auto vv0 = vv;
	bool allAny = true, anyAll = false, allSorted = true, anyEmpty = false, someEq = false, noneHas2 = true, eachSize = true;
	for (auto& s : vv) { allAny &= anyEq(s, 1); anyAll |= allLt(s, 1); allSorted &= sortedBy(s, c_lt); anyEmpty |= s.empty(); someEq |= s == e; noneHas2 &= !anyEq(s, 2); eachSize &= s.size() == 2; }
	g_what = "each(any(eq 1)) on " + show(vv);
	askLite(M::range::each_element(M::range::any_element(M::eq(1))), vv, allAny);
	g_what = "any(each(lt 1)) on " + show(vv);
	askLite(M::range::any_element(M::range::each_element(M::lt(1))), vv, anyAll);
	g_what = "each(is_sorted) on " + show(vv);
	askLite(M::range::each_element(M::range::is_sorted()), vv, allSorted);
	g_what = "any(is_empty) on " + show(vv);
	askLite(M::range::any_element(M::range::is_empty()), vv, anyEmpty);
	g_what = "any(range::eq) on " + show(vv);
	askLite(M::range::any_element(M::range::eq(e)), vv, someEq);
	g_what = "each(!any(eq 2)) on " + show(vv);
	askLite(M::range::each_element(!M::range::any_element(M::eq(2))), vv, noneHas2);
	g_what = "each(has_size 2) on " + show(vv);
	const auto hs = M::range::has_size(2);
	askLite(M::range::each_element(hs), vv, eachSize);
	if (hs.describe() != M::range::has_size(2).describe()) fail("C10", "an element matcher of the user was modified");
	if (vv != vv0) fail("C10", "a nested range matcher modified the target");
	switch (rng.below(3)) { case 0: coarse<std::vector>(t, e, rng); break; case 1: coarse<std::deque>(t, e, rng); break; default: coarse<std::list>(t, e, rng); }
	// elements which notice being copied or moved
	g_what = "ranges of objects";
	std::vector<Obs> ov; for (int x : t) ov.emplace_back(x);
	std::vector<Obs> oe; for (int x : e) oe.emplace_back(x);
	const int cp = Obs::copies;
	const auto m1 = M::range::eq(oe); const auto m2 = M::range::unordered_eq(oe);
	ask(m1, ov, t == e, "objects"); ask(m2, ov, perm(t, e, 0), "objects"); ask(M::range::is_sorted(), ov, sortedBy(t, c_lt), "objects");
	const auto me = M::range::each_element(M::predicate([](const Obs& o) { return o.v < 2; }));
	ask(me, ov, allLt(t, 2), "objects");
	if (Obs::copies != cp) fail("C10,C08", "asking a range matcher copies elements");
	for (std::size_t i = 0; i < t.size(); ++i) if (!ov[i].valid || ov[i].v != t[i]) fail("C10", "a range matcher modified the target's elements");
	for (std::size_t i = 0; i < e.size(); ++i) if (!oe[i].valid || oe[i].v != e[i]) fail("C10", "a range matcher modified the expected elements");
	// through a mock
	g_what = "range matcher through a mock, target " + show(t) + " expected " + show(e);
	viaMock<const Seq&>(M::range::eq(e), t, t == e);
	viaMock<Seq>(!M::range::unordered_eq(e), t, !perm(t, e, 0));
	viaMock<Seq>(M::range::each_element(M::lt(2)), t, allLt(t, 2));
	viaMock<const Seq&>(!M::range::any_element(M::eq(2)), t, !anyEq(t, 2));
}
