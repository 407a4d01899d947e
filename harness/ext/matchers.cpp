// User-supplied matchers: by members and by traits, directly and nested, for every kind of parameter.
#include "ext.hpp"
struct Val { int v; friend bool operator==(const Val&, const Val&) = default; };
namespace
{
	const void* g_seen; long g_asked; int g_constAsked, g_mutAsked;
	int valueOf(const Val& v) { return v.v; }
	int valueOf(int v) { return v; }
	void saw(const void* p, bool isConst) { g_seen = p; ++g_asked; (isConst ? g_constAsked : g_mutAsked)++; }
}
// by members
struct Mem
{
	unsigned mask; int id;
	template <typename T> bool matches(T& t) const { saw(&t, std::is_const_v<T>); return mask >> valueOf(t) & 1; }
	mm::StringT describe() const { return "member matcher " + std::to_string(id); }
};
// by traits only; somebody else's type
struct Foreign { unsigned mask; int id; };
template <> struct mm::custom::matcher_traits<Foreign>
{
	template <typename T> bool matches(const Foreign& m, T& t) const { saw(&t, std::is_const_v<T>); return m.mask >> valueOf(t) & 1; }
	mm::StringT describe(const Foreign& m) const { return "foreign matcher " + std::to_string(m.id); }
};
// members exist, but mean something else: the traits decide
struct Both
{
	unsigned mask; int id;
	template <typename T> bool matches(T&) const { fail("C20", "a member is asked although there are traits"); }
	mm::StringT describe() const { fail("C20", "a member describes although there are traits"); }
};
template <> struct mm::custom::matcher_traits<Both>
{
	template <typename T> bool matches(const Both& m, T& t) const { saw(&t, std::is_const_v<T>); return m.mask >> valueOf(t) & 1; }
	mm::StringViewT describe(const Both& m) const { static std::string s; s = "both matcher " + std::to_string(m.id); return s; }
};
// comparable with the argument, but a matcher: the matcher decides
struct Eqq
{
	unsigned mask; int id;
	template <typename T> bool matches(T& t) const { saw(&t, std::is_const_v<T>); return mask >> valueOf(t) & 1; }
	mm::StringT describe() const { return "comparable matcher " + std::to_string(id); }
	friend bool operator==(const Eqq&, const Val&) { fail("C20", "a matcher is compared with the argument"); }
	friend bool operator==(const Eqq&, const Eqq&) = default;
};
// a family of traits
template <typename T> struct Tmpl { T mask; int id; };
template <typename X> struct mm::custom::matcher_traits<Tmpl<X>>
{
	template <typename T> bool matches(const Tmpl<X>& m, T& t) const { saw(&t, std::is_const_v<T>); return m.mask >> valueOf(t) & 1; }
	mm::StringT describe(const Tmpl<X>& m) const { return "template matcher " + std::to_string(m.id); }
};
// move-only
struct Uniq
{
	std::unique_ptr<unsigned> mask; int id;
	template <typename T> bool matches(T& t) const { saw(&t, std::is_const_v<T>); return *mask >> valueOf(t) & 1; }
	mm::StringT describe() const { return "unique matcher " + std::to_string(id); }
};
namespace
{
	std::uint64_t g_hash; int g_true, g_false;
	template <typename Mt> Mt mk(unsigned mask, int id) { if constexpr (std::same_as<Mt, Uniq>) return Uniq{std::make_unique<unsigned>(mask), id}; else return Mt{mask, id}; }
	template <typename Mt> const char* name() { if constexpr (std::same_as<Mt, Mem>) return "member"; else if constexpr (std::same_as<Mt, Foreign>) return "foreign"; else if constexpr (std::same_as<Mt, Both>) return "both"; else if constexpr (std::same_as<Mt, Eqq>) return "comparable"; else if constexpr (std::same_as<Mt, Uniq>) return "unique"; else return "template"; }
	void described(const std::string& part, const char* how)
	{
		bool found = false; const mm::MatchReport& r = Rec::evs.back().all.at(0);
		for (auto& x : r.expectationReports) if (x.description && has(*x.description, part)) found = true;
		if (!found || !has(mm::print(r), part)) fail("C20,C13", std::string(how) + ": the report lacks the description '" + part + "': " + mm::print(r));
	}
	template <typename Mk, typename Call> void decide(Mk&& build, Call&& call, const std::vector<bool>& want, const std::string& desc, const char* how)
	{
		mm::ScopedExpectation e = build();
		for (std::size_t i = 0; i < want.size(); ++i)
		{
			Rec::evs.clear(); g_asked = 0; g_seen = nullptr;
			bool got = true; try { call(static_cast<int>(i)); } catch (const Rejected&) { got = false; }
			if (got != want[i]) fail("C20,C10", std::string(how) + ": a call is " + (got ? "accepted" : "rejected") + " although the matcher of the user decides otherwise (" + desc + ", case " + std::to_string(i) + ")");
			if (Rec::evs.size() != 1) fail("C20", "wrong number of reports");
			described(desc, how);
			(got ? g_true : g_false)++; g_hash = g_hash * 31 + got;
			++stat("matcher_calls");
		}
	}
	std::vector<bool> table(unsigned mask) { std::vector<bool> v; for (int i = 0; i < 8; ++i) v.push_back(mask >> i & 1); return v; }
	template <typename Mt> void one(Rng& rng)
	{
		const unsigned mask = static_cast<unsigned>(rng.below(256)); const int id = rng.below(1000);
		const std::string d = std::string(name<Mt>()) + " matcher " + std::to_string(id);
		const auto want = table(mask); const auto n = mm::expect::at_most(8);
		auto times = [] { return mm::expect::times(0, 9); };
		{ mm::Mock<void(Val)> m{}; decide([&] { return mm::ScopedExpectation{m.expect_call(mk<Mt>(mask, id)) && times()}; }, [&](int i) { m(Val{i}); if (!g_asked) fail("C20", "the matcher was not asked"); }, want, d, "by-value parameter"); }
		{ mm::Mock<void(const Val&)> m{}; decide([&] { return mm::ScopedExpectation{m.expect_call(mk<Mt>(mask, id)) && times()}; }, [&](int i) { const Val v{i}; struct G { const void* p; ~G() { if (g_seen != p) fail("C20,C08", "the matcher sees another object than the argument"); } } g{&v}; m(v); }, want, d, "const reference parameter"); }
		{ mm::Mock<void(Val&)> m{}; decide([&] { return mm::ScopedExpectation{m.expect_call(mk<Mt>(mask, id)) && times()}; }, [&](int i) { Val v{i}; struct G { const void* p; ~G() { if (g_seen != p) fail("C20,C08", "the matcher sees another object than the argument"); } } g{&v}; m(v); }, want, d, "reference parameter"); }
		{ mm::Mock<void(Val&&)> m{}; decide([&] { return mm::ScopedExpectation{m.expect_call(mk<Mt>(mask, id)) && times()}; }, [&](int i) { Val v{i}; m(std::move(v)); }, want, d, "rvalue reference parameter"); }
		{ mm::Mock<void(int, int)> m{}; decide([&] { return mm::ScopedExpectation{m.expect_call(_, _) && mm::expect::arg<1>(mk<Mt>(mask, id)) && times()}; }, [&](int i) { m(7 - i, i); }, want, "arg[1]", "expect::arg"); }
		{ mm::Mock<void(int, int)> m{}; decide([&] { return mm::ScopedExpectation{m.expect_call(_, _) && mm::expect::arg<0>(mk<Mt>(mask, id)) && times()}; }, [&](int i) { m(i, 7 - i); }, want, d, "expect::arg"); }
		{
			mm::Mock<void(int, int)> m{};
			const unsigned mask2 = static_cast<unsigned>(rng.below(256)); std::vector<bool> w; for (int i = 0; i < 8; ++i) w.push_back((mask >> i & 1) && (mask2 >> (i ^ 3) & 1));
			decide([&] { return mm::ScopedExpectation{m.expect_call(mk<Mt>(mask, id), mk<Mem>(mask2, 5000)) && times()}; }, [&](int i) { m(i, i ^ 3); }, w, d, "two matchers");
		}
		// nested in the library's matchers
		std::vector<std::vector<int>> in; std::vector<bool> all, any, none, allAny;
		std::vector<std::vector<std::vector<int>>> in2;
		for (int i = 0; i < 8; ++i)
		{
			std::vector<int> v; for (int k = rng.below(4); k > 0; --k) v.push_back(rng.below(8));
			bool a = true, b = false; for (int x : v) { a = a && (mask >> x & 1); b = b || (mask >> x & 1); }
			in.push_back(v); all.push_back(a); any.push_back(b); none.push_back(!b);
		}
		for (int i = 0; i < 8; ++i)
		{
			std::vector<std::vector<int>> v; bool r = true;
			for (int k = rng.below(3); k > 0; --k) { const auto j = static_cast<std::size_t>(rng.below(8)); v.push_back(in[j]); r = r && any[j]; }
			in2.push_back(v); allAny.push_back(r);
		}
		{ mm::Mock<void(const std::vector<int>&)> m{}; decide([&] { return mm::ScopedExpectation{m.expect_call(M::range::each_element(mk<Mt>(mask, id))) && times()}; }, [&](int i) { m(in[static_cast<std::size_t>(i)]); }, all, "each el in range: el " + d, "each_element"); }
		{ mm::Mock<void(std::vector<int>)> m{}; decide([&] { return mm::ScopedExpectation{m.expect_call(M::range::any_element(mk<Mt>(mask, id))) && times()}; }, [&](int i) { m(in[static_cast<std::size_t>(i)]); }, any, "any el in range: el " + d, "any_element"); }
		{ mm::Mock<void(std::vector<int>&)> m{}; decide([&] { return mm::ScopedExpectation{m.expect_call(!M::range::any_element(mk<Mt>(mask, id))) && times()}; }, [&](int i) { m(in[static_cast<std::size_t>(i)]); }, none, "none el in range: el " + d, "!any_element"); }
		{ mm::Mock<void(const std::vector<std::vector<int>>&)> m{}; decide([&] { return mm::ScopedExpectation{m.expect_call(M::range::each_element(M::range::any_element(mk<Mt>(mask, id)))) && times()}; }, [&](int i) { m(in2[static_cast<std::size_t>(i)]); }, allAny, "each el in range: el any el in range: el " + d, "each_element of any_element"); }
		// a requirement assembled by the user
		{
			mm::Mock<void(int, int)> m{};
			decide([&]
			{
				auto proj = [](const auto& info) -> int { return std::get<0>(info.args).get() ^ std::get<1>(info.args).get(); };
				auto desc = [](mm::StringViewT s) { return "both args: " + mm::StringT(s); };
				return mm::ScopedExpectation{m.expect_call(_, _) && mm::expectation_policies::Requirement<Mt, decltype(proj), decltype(desc)>{mk<Mt>(mask, id), proj, desc} && times()};
			}, [&](int i) { m(i ^ 5, 5); }, want, "both args: " + d, "requirement with projection");
		}
	}
}
void matchersCase(Rng& rng)
{
	g_hash = 5; g_true = g_false = g_constAsked = g_mutAsked = 0;
	one<Mem>(rng); one<Foreign>(rng); one<Both>(rng); one<Eqq>(rng); one<Tmpl<unsigned>>(rng); one<Uniq>(rng);
	if (!g_constAsked || !g_mutAsked) fail("C20", "the workload is too narrow");
	stat("asked_const") += g_constAsked; stat("asked_mutable") += g_mutAsked; stat("accepted") += g_true; stat("rejected") += g_false;
	proto::distinct(g_hash);
	proto::sample(std::to_string(g_true) + " calls accepted / " + std::to_string(g_false) + " rejected by matchers of the user");
}
