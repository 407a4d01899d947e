// Texts rendered from reports of every shape: the reports are made up, the text is parsed back into facts.
#include "../core/text.hpp"
#include "../common/loc.hpp"
#include <climits>
namespace mm = mimicpp; namespace T = eng::text; using proto::fail; using proto::Rng;
namespace
{
	std::uint64_t g_hash;
	template <typename X> const X& one(Rng& r, const std::vector<X>& v) { return r.pick(v); }
	std::string word(Rng& r)
	{
		static const std::vector<std::string> all{"expect: arg[0] == 1", "expect: arg[0] > 3", "expect: arg[1] starts with \"a,b\"", "{}", "{0} {{", "}", "%s%n", "a:b", ",", "x,", "\"", "from: here", "value: 3", "is equal to \"\"", "\\n", "0", "{ 1, 2 }", "\xc3\xa4"};
		switch (r.below(6)) { case 0: return "r" + std::to_string(r.below(3)); case 1: return std::string(static_cast<std::size_t>(r.between(1, 300)), 'w'); default: return one(r, all); }
	}
	std::string requirement(Rng& r) { auto w = word(r); return w == "}" ? "}}" : w; } // a lone brace would end the block
	std::source_location loc(Rng& r) { return r.chance(30) ? testloc::odd(r.below(testloc::oddCount)) : testloc::at(100000u + static_cast<unsigned>(r.below(40))); }
	std::optional<std::source_location> maybeLoc(Rng& r) { if (r.chance(8)) return std::nullopt; return loc(r); }
	int size(Rng& r, int common, int rare) { return r.chance(10) ? r.below(rare + 1) : r.below(common + 1); }
	mm::CallReport call(Rng& r)
	{
		static const std::vector<std::type_index> types{typeid(int), typeid(void), typeid(std::string), typeid(const int*), typeid(double), typeid(std::vector<std::string>)};
		mm::CallReport c{.returnTypeIndex = one(r, types), .fromLoc = loc(r)};
		static const std::vector<mm::ValueCategory> vs{mm::ValueCategory::lvalue, mm::ValueCategory::rvalue, mm::ValueCategory::any}; static const std::vector<mm::Constness> cs{mm::Constness::non_const, mm::Constness::as_const, mm::Constness::any}; c.fromCategory = one(r, vs); c.fromConstness = one(r, cs);
		for (int n = size(r, 4, 20); n > 0; --n) { auto t = one(r, types); auto w = word(r); c.argDetails.push_back({t, w}); }
		return c;
	}
	mm::sequence::Tag tag(Rng& r) { return mm::sequence::Tag{static_cast<std::ptrdiff_t>(r.below(5) * 64)}; }
	std::string N(long long v) { return std::to_string(v); }
	std::string times(long long n) { return n == 0 ? "never" : n == 1 ? "once" : n == 2 ? "twice" : N(n) + " times"; }
	mm::control_state_t state(Rng& r, int which)
	{
		static const std::vector<int> edges{0, 1, 2, 3, 4, 7, 10, 99, 255, 256, 65535, 65536, 1000000, INT_MAX - 1, INT_MAX};
		int a = one(r, edges), b = one(r, edges), c = one(r, edges);
		if (which == 2) { if (a > b) std::swap(a, b); std::vector<mm::sequence::Tag> t; for (int n = size(r, 3, 12); n > 0; --n) t.push_back(tag(r)); return mm::state_saturated{a, b, b, t}; }
		if (a > b) std::swap(a, b);
		if (b == 0) b = 1;
		if (c >= b) c = b - 1;
		std::vector<mm::sequence::rating> ratings; for (int n = size(r, 3, 12); n > 0; --n) { const int p = r.below(9); ratings.emplace_back(p, tag(r)); }
		if (which == 0) return mm::state_applicable{a, b, c, ratings};
		std::vector<mm::sequence::Tag> t; for (int n = 1 + size(r, 2, 12); n > 0; --n) t.push_back(tag(r));
		return mm::state_inapplicable{a, b, c, ratings, t};
	}
	std::string counts(long long min, long long max, long long n)
	{
		if (n == max) return "already saturated (matched " + times(n) + ")";
		if (min <= n) return "accepts further matches (matched " + N(n) + " out of " + N(max) + " times)";
		return "matched " + times(n) + " - " + (min < max ? "between " + N(min) + " and " + N(max) + " times" : "exactly " + times(max)) + " is expected";
	}
	std::string reason(const mm::MatchReport& m)
	{
		if (auto* i = std::get_if<mm::state_inapplicable>(&m.controlReport)) return "reason: " + counts(i->min, i->max, i->count) + ",\n\tbut is not the current element of " + N(static_cast<long>(i->inapplicableSequences.size())) + " sequence(s) (" + N(static_cast<long>(i->inapplicableSequences.size() + i->sequenceRatings.size())) + " total).";
		if (auto* s = std::get_if<mm::state_saturated>(&m.controlReport)) return "reason: " + counts(s->min, s->max, s->count) + (s->sequences.empty() ? "" : ",\n\tand is part of " + N(static_cast<long>(s->sequences.size())) + " sequence(s).");
		return "";
	}
	mm::MatchReport match(Rng& r, mm::MatchResult want)
	{
		mm::MatchReport m{.sourceLocation = maybeLoc(r)};
		m.controlReport = state(r, want == mm::MatchResult::full ? 0 : want == mm::MatchResult::inapplicable ? 1 + r.below(2) : r.below(3));
		const int n = size(r, 5, 30); int bad = 0;
		for (int i = 0; i < n; ++i) { mm::MatchReport::Expectation e{}; e.isMatching = want != mm::MatchResult::none || r.chance(60); bad += !e.isMatching; if (!r.chance(15)) e.description = requirement(r); m.expectationReports.push_back(e); }
		if (want == mm::MatchResult::none && !bad) { mm::MatchReport::Expectation e{}; if (r.chance(70)) e.description = requirement(r); m.expectationReports.insert(m.expectationReports.begin() + r.below(n + 1), e); }
		return m;
	}
	mm::ExpectationReport expectation(Rng& r)
	{
		mm::ExpectationReport e{.sourceLocation = maybeLoc(r)};
		if (!r.chance(10)) e.timesDescription = r.chance(50) ? "already saturated (matched never)" : word(r);
		for (int n = size(r, 5, 30); n > 0; --n) { if (r.chance(15)) e.expectationDescriptions.emplace_back(); else e.expectationDescriptions.emplace_back(requirement(r)); }
		return e;
	}
	struct Own : std::runtime_error { using std::runtime_error::runtime_error; };
	template <typename F> bool throwsText(F&& f, const mm::CallReport& c)
	{
		T::g_text.clear();
		try { f(); }
		catch (const mm::UnmatchedCallT& e) { T::g_text = e.what(); if (!(std::get<0>(e.data()) == c)) fail("C13,C16", "the exception of the default reporter carries another call"); if (!testloc::same(e.where(), c.fromLoc)) fail("C13,C16", "the exception of the default reporter names another place"); return true; }
		catch (const mm::UnfulfilledExpectationT& e) { T::g_text = e.what(); return true; }
		catch (const mm::Error<>& e) { T::g_text = e.what(); return true; }
		return false;
	}
	void textCase(Rng& r)
	{
		g_hash = 5;
		std::ostringstream out; mm::DefaultReporter def{&out}; mm::DefaultReporter mute{};
		const auto c = call(r), c2 = c;
		for (int none = 0; none < 2; ++none)
		{
			std::vector<mm::MatchReport> ms; for (int n = size(r, 4, 70) + (none ? 0 : 1); n > 0; --n) ms.push_back(match(r, none ? mm::MatchResult::none : mm::MatchResult::inapplicable));
			T::rejection(none, c, ms, reason);
			const auto tapped = T::g_text;
			for (int k = 0; k < 2; ++k)
			{
				auto& d = k ? mute : def; out.str("");
				if (!throwsText([&] { if (none) d.report_no_matches(c, ms); else d.report_inapplicable_matches(c, ms); }, c)) fail("C16", "the default reporter does not throw");
				T::rejectionText(none, c, ms, reason);
				if (k == 0 && out.str().find(tapped) == std::string::npos) fail("C16,C13", "the default reporter writes another text to its stream: " + out.str());
			}
			for (auto& m : ms) T::match(mm::print(m), m, reason(m));
			g_hash = g_hash * 31 + ms.size();
			if (ms.size() > 32) ++proto::stat("long_lists");
		}
		T::full(c, match(r, mm::MatchResult::full));
		const auto e = expectation(r);
		T::unfulfilled(e); T::expectation(mm::print(e), e);
		if (!throwsText([&] { mute.report_unfulfilled_expectation(e); }, c)) fail("C16", "the default reporter does not throw");
		T::unfulfilledText(e);
		T::error(word(r));
		std::exception_ptr x; const auto what = word(r);
		if (r.chance(60)) x = std::make_exception_ptr(Own{what}); else if (r.chance(50)) x = std::make_exception_ptr(what); else x = std::make_exception_ptr(std::bad_alloc{});
		T::unhandled(c, e, x);
		T::call(mm::print(c), c);
		if (!(c == c2)) fail("C13", "rendering changes the report");
		for (auto& l : T::lines(mm::print(c))) g_hash = proto::fnv(l, g_hash);
		proto::distinct(g_hash);
		proto::sample("call with " + std::to_string(c.argDetails.size()) + " arguments; expectation with " + std::to_string(e.expectationDescriptions.size()) + " requirements");
	}
	// reports of calls and expectations with long values and descriptions
	struct Got { std::optional<mm::CallReport> call; std::vector<mm::MatchReport> matches; std::optional<mm::ExpectationReport> exp; char kind{}; } g_got;
	struct Rejected {};
	struct Collect final : mm::IReporter
	{
		void report_no_matches(mm::CallReport c, std::vector<mm::MatchReport> m) override { g_got = {c, m, {}, 'N'}; throw Rejected{}; }
		void report_inapplicable_matches(mm::CallReport c, std::vector<mm::MatchReport> m) override { g_got = {c, m, {}, 'I'}; throw Rejected{}; }
		void report_full_match(mm::CallReport c, mm::MatchReport m) noexcept override { g_got = {c, {m}, {}, 'F'}; }
		void report_unfulfilled_expectation(mm::ExpectationReport e) override { g_got = {{}, {}, e, 'U'}; }
		void report_error(mm::StringT t) override { fail("C13", "an error is reported: " + t); }
		void report_unhandled_exception(mm::CallReport, mm::ExpectationReport, std::exception_ptr) override { fail("C13", "an exception is reported although nothing throws"); }
	};
	struct OwnMatcher { std::string text; int wanted; bool matches(const std::string& s) const { return static_cast<int>(s.size()) % 7 == wanted; } std::string describe() const { return text; } };
	std::string longText(Rng& r)
	{
		static const std::vector<int> sizes{0, 1, 15, 16, 63, 127, 128, 255, 256, 257, 500, 511, 512, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 5000, 10000, 32768, 65535, 65536, 70000};
		std::string s; const int n = r.chance(50) ? one(r, sizes) : r.below(3000);
		for (int i = 0; i < n; ++i) s += static_cast<char>('a' + (i * 7 + n) % 26);
		if (n > 0) s.back() = static_cast<char>('A' + r.below(26));
		return s;
	}
	std::string listText(const std::vector<int>& v) { std::string s = "{ "; for (std::size_t i = 0; i < v.size(); ++i) s += (i ? ", " : "") + N(v[i]); return s + " }"; }
	std::string brief(const std::string& s) { return s.size() < 200 ? s : s.substr(0, 80) + "[...]" + s.substr(s.size() - 80) + " of size " + N(static_cast<long>(s.size())); }
	void same(const char* what, const std::optional<mm::StringT>& got, const std::string& want) { if (got != want) fail("C13", std::string{what} + " is `" + brief(got.value_or("<none>")) + "` instead of `" + brief(want) + "`"); }
	void longCase(Rng& r)
	{
		mm::install_reporter<Collect>(); g_got = {};
		const std::string wanted = longText(r), given = r.chance(50) ? wanted : longText(r), pred = longText(r), own = longText(r);
		std::vector<int> list; for (int n = r.chance(20) ? r.below(3000) : r.below(40); n > 0; --n) list.push_back(r.below(100000));
		std::vector<int> givenList = list; if (r.chance(40)) { if (givenList.empty() || r.chance(50)) givenList.push_back(1); else givenList.back() ^= 1; }
		const bool accepts = r.chance(50); const int ownWanted = r.chance(50) ? static_cast<int>(given.size()) % 7 : r.below(7);
		const bool ok[4]{wanted == given, list == givenList, accepts, static_cast<int>(given.size()) % 7 == ownWanted};
		const bool all = ok[0] && ok[1] && ok[2] && ok[3];
		const std::string want[4]{"expect: arg[0] == \"" + wanted + "\"", "expect: arg[1] elements are " + listText(list), "expect: arg[0] " + pred, "expect: arg[0] " + own};
		const auto check = [&](const auto& descriptions, auto&& get)
		{
			int found[4]{};
			for (auto& d : descriptions) for (int i = 0; i < 4; ++i) if (get(d, i)) { ++found[i]; break; }
			for (int i = 0; i < 4; ++i)
			{
				int n = 0; for (int k = 0; k < 4; ++k) n += want[k] == want[i];
				if (n == 1 && found[i] != 1)
				{
					std::string all2; for (auto& d : descriptions) { if constexpr (requires { d.description; }) all2 += "`" + brief(d.description.value_or("<none>")) + "` "; else all2 += "`" + brief(d.value_or("<none>")) + "` "; }
					fail("C13", "the requirement `" + brief(want[i]) + "` is " + (found[i] ? "listed twice" : "not listed") + ": " + all2);
				}
			}
		};
		{
			mm::Mock<void(const std::string&, std::vector<int>)> m{};
			mm::ScopedExpectation e = m.expect_call(mm::matches::eq(wanted), mm::matches::range::eq(list))
				and mm::expect::arg<0>(mm::matches::predicate([&](const std::string&) { return accepts; }, pred))
				and mm::expect::arg<0>(OwnMatcher{own, ownWanted});
			bool rejected = false;
			try { m(given, givenList, testloc::at(100700u)); } catch (const Rejected&) { rejected = true; }
			if (rejected == all || g_got.kind != (all ? 'F' : 'N') || g_got.matches.size() != 1 || !g_got.call) fail("C13,C01", "wrong report about the call");
			if (g_got.call->argDetails.size() != 2) fail("C13", "the call report does not carry both arguments");
			same("the first argument", g_got.call->argDetails[0].stateString, "\"" + given + "\""); same("the second argument", g_got.call->argDetails[1].stateString, listText(givenList));
			check(g_got.matches[0].expectationReports, [&](auto& d, int i) { if (d.description != want[i]) return false; int n = 0; for (auto& w : want) n += w == want[i]; if (n == 1 && d.isMatching != ok[i]) fail("C13", "`" + brief(want[i]) + "` is reported as " + (ok[i] ? "violated" : "met")); return true; });
			if (!all)
			{
				const auto t = mm::print(g_got.matches[0]);
				for (int i = 0; i < 4; ++i) if (t.find(want[i]) == std::string::npos) fail("C13", "the text of the report lacks `" + brief(want[i]) + "`: " + brief(t));
				const auto c = mm::print(*g_got.call);
				if (c.find(given) == std::string::npos || c.find(listText(givenList)) == std::string::npos) fail("C13", "the text of the call lacks an argument: " + brief(c));
			}
			if (all) g_got = {};
		}
		if (all) { if (g_got.kind) fail("C13,C02", "a fulfilled expectation is reported"); }
		else
		{
			if (g_got.kind != 'U') fail("C13,C02", "an unfulfilled expectation is not reported");
			check(g_got.exp->expectationDescriptions, [&](auto& d, int i) { return d == want[i]; });
			const auto t = mm::print(*g_got.exp);
			for (auto& w : want) if (t.find(w) == std::string::npos) fail("C13", "the text of the report lacks `" + brief(w) + "`: " + brief(t));
		}
		++proto::stat(all ? "long_answered" : "long_rejected"); if (wanted.size() > 1000 || pred.size() > 1000 || own.size() > 1000) ++proto::stat("long_descriptions");
		proto::trace("long " + N(static_cast<long>(wanted.size())) + " " + N(static_cast<long>(given.size())) + " " + N(static_cast<long>(list.size())) + (all ? " F" : " N"));
		proto::distinct(proto::fnv(wanted, proto::fnv(given, list.size())));
	}
}
int main(int argc, char** argv)
{
	return proto::run(argc, argv, [](long, std::uint64_t seed) { Rng r{seed}; if (proto::g_profile == "long") longCase(r); else textCase(r); });
}
