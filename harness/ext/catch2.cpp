// Catch2's own matchers as requirements (the experimental integration): they must decide and describe exactly as they do in Catch2.
#include <catch2/catch_test_macros.hpp>
#include <catch2/matchers/catch_matchers_all.hpp>
#include "mimic++/mimic++.hpp"
#include "mimic++/adapters/Catch2.hpp"
#include "ext.hpp"
#include <functional>
#include <cmath>
namespace CM = Catch::Matchers;
namespace
{
	std::string g_case;
	// old style and new style, written by a user
	struct Multiple final : CM::MatcherBase<int> { int n; long* asked; Multiple(int n, long* a) : n{n}, asked{a} {} bool match(const int& v) const override { ++*asked; return v % n == 0; } std::string describe() const override { return "is a multiple of " + std::to_string(n); } };
	struct SizeIs final : CM::MatcherGenericBase { std::size_t n; explicit SizeIs(std::size_t n) : n{n} {} template <typename R> bool match(const R& r) const { return std::size(r) == n; } std::string describe() const override { return "has size " + std::to_string(n); } };
	struct Throwing final : CM::MatcherBase<int> { bool match(const int& v) const override { if (v == 3) throw 3; return true; } std::string describe() const override { return "throws"; } };

	struct Vals { int i; double d; std::string s; std::vector<int> v; };
	Vals make(Rng& r)
	{
		Vals x{}; static const double ds[] = {0, 1, 1.05, -1, 2.5, 1e300, std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN()};
		x.i = r.below(13) - 4; x.d = ds[r.below(8)];
		for (int n = r.below(5); n > 0; --n) x.s.push_back("abA{"[r.below(4)]);
		for (int n = r.below(5); n > 0; --n) x.v.push_back(r.below(3));
		return x;
	}
	// asks a mock with this requirement about each value, alone and negated, plain and inside each_element
	template <typename T, typename Make>
	void ask(const char* what, const Make& make, const std::vector<T>& values)
	{
		const auto m = make(); // combinations refer to their parts and can only be moved
		const std::string desc = m.describe();
		auto negated = !m;
		mm::Mock<void(const T&)> plain{}, inverted{}; mm::Mock<void(T)> byArg{}; mm::Mock<void(std::vector<T>)> each{};
		mm::ScopedExpectation e1 = plain.expect_call(make()) and mm::expect::at_most(1000000);
		mm::ScopedExpectation e2 = inverted.expect_call(std::move(negated)) and mm::expect::at_most(1000000);
		mm::ScopedExpectation e3 = byArg.expect_call(_) and mm::expect::arg<0>(make()) and mm::expect::at_most(1000000);
		mm::ScopedExpectation e4 = each.expect_call(M::range::each_element(make())) and mm::expect::at_most(1000000);
		bool all = true; std::string answers;
		const auto check = [&](const char* how, bool want, auto&& call, bool described)
		{
			Rec::evs.clear(); bool got = true;
			try { call(); } catch (const Rejected&) { got = false; }
			if (got != want) fail("C20", std::string{"a Catch2 matcher ("} + what + ", " + desc + ") used " + how + (got ? " accepts" : " rejects"));
			if (Rec::evs.size() != 1 || Rec::evs[0].all.size() != 1) fail("C20", std::string{"not exactly one report about a call with a Catch2 matcher, used "} + how);
			bool found = !described;
			for (auto& x : Rec::evs[0].all[0].expectationReports) if (x.description && has(*x.description, desc)) found = true;
			if (!found) fail("C20", std::string{"the description of a Catch2 matcher is missing ("} + desc + "), used " + how);
			answers += got ? '+' : '-'; ++stat("catch2_questions");
		};
		for (const T& v : values)
		{
			const bool want = m.match(v); all = all && want;
			check("plain", want, [&] { plain(v); }, true);
			check("negated", !want, [&] { inverted(v); }, true);
			check("by expect::arg", want, [&] { byArg(v); }, true);
		}
		check("in each_element", all, [&] { each(values); }, true);
		g_case += std::string{what} + desc + answers;
	}
}
void catchCase(Rng& rng)
{
	const Vals e = make(rng); std::vector<int> is; std::vector<double> ds; std::vector<std::string> ss; std::vector<std::vector<int>> vs;
	for (int n = 1 + rng.below(4); n > 0; --n) { Vals x = make(rng); is.push_back(x.i); ds.push_back(x.d); ss.push_back(x.s); vs.push_back(x.v); }
	long asked = 0; const int divisor = 1 + rng.below(4); const double tolerance = rng.below(3) * .1;
	ask<int>("old style", [&] { return Multiple{divisor, &asked}; }, is);
	if (!asked) fail("C20", "a Catch2 matcher is never asked");
	ask<int>("predicate", [&] { return CM::Predicate<int>([&](const int& v) { return v > e.i; }, "greater"); }, is);
	const Multiple two{2, &asked}, three{3, &asked};
	ask<int>("both", [&] { return two && three; }, is);
	ask<int>("either", [&] { return two || three; }, is);
	ask<int>("negation", [&] { return !two; }, is);
	if (!std::isnan(e.d)) { ask<double>("WithinAbs", [&] { return CM::WithinAbs(std::isinf(e.d) ? 1. : e.d, tolerance); }, ds); }
	ask<double>("WithinULP", [&] { return CM::WithinULP(1., 3); }, ds);
	const auto cs = rng.chance(50) ? Catch::CaseSensitive::Yes : Catch::CaseSensitive::No;
	ask<std::string>("StartsWith", [&] { return CM::StartsWith(e.s, cs); }, ss);
	ask<std::string>("EndsWith", [&] { return CM::EndsWith(e.s, cs); }, ss);
	ask<std::string>("ContainsSubstring", [&] { return CM::ContainsSubstring(e.s, cs); }, ss);
	ask<std::string>("Equals", [&] { return CM::Equals(e.s, cs); }, ss);
	ask<std::vector<int>>("new style", [&] { return SizeIs{e.v.size()}; }, vs);
	ask<std::vector<int>>("IsEmpty", [&] { return CM::IsEmpty(); }, vs);
	ask<std::vector<int>>("SizeIs", [&] { return CM::SizeIs(e.v.size()); }, vs);
	const int element = rng.below(3);
	ask<std::vector<int>>("Contains", [&] { return CM::Contains(element); }, vs);
	ask<std::vector<int>>("AllMatch", [&] { return CM::AllMatch(Multiple{divisor, &asked}); }, vs);
	ask<std::vector<int>>("UnorderedEquals", [&] { return CM::UnorderedEquals(e.v); }, vs);
	ask<std::vector<int>>("RangeEquals", [&] { return CM::RangeEquals(e.v); }, vs);
	// a matcher that throws is contained like any other requirement
	mm::Mock<void(int)> m{}; mm::ScopedExpectation older = m.expect_call(_) and mm::expect::at_most(5), bad = m.expect_call(Throwing{}) and mm::expect::at_most(5);
	Rec::evs.clear(); m(3);
	if (Rec::evs.size() != 2 || Rec::evs[0].kind != 'X' || Rec::evs[1].kind != 'F' || bad.is_satisfied() == false) fail("C20,C14", "an exception thrown by a Catch2 matcher is not contained");
	++stat("catch2_throws");
}
int main(int argc, char** argv)
{
	return proto::run(argc, argv, [](long, std::uint64_t seed)
	{
		static const bool once = (mm::install_reporter<Rec>(), true); (void)once;
		Rng rng{seed}; Rec::evs.clear(); g_case.clear(); catchCase(rng); proto::distinct(g_case);
	});
}
