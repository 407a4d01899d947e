// Reports can be compared: two are equal exactly if everything they tell is. Recent reports and changed copies of them are compared field by field.
#pragma once
#include "text.hpp"
#include "../common/loc.hpp"
#include <deque>

namespace eng::same
{
	inline proto::Rng g_rng{11};
	inline std::uint64_t g_equal = 0, g_different = 0;
	inline std::deque<mm::CallReport> g_calls; inline std::deque<mm::MatchReport> g_matches; inline std::deque<mm::ExpectationReport> g_exps;
	inline void reset() { g_rng = proto::Rng{11}; g_calls.clear(); g_matches.clear(); g_exps.clear(); }

	inline bool tells(const std::source_location& a, const std::source_location& b) { return testloc::same(a, b); }
	inline bool tells(const std::optional<std::source_location>& a, const std::optional<std::source_location>& b) { return !a || !b ? !a == !b : testloc::same(*a, *b); }
	inline bool tells(const std::optional<mm::StringT>& a, const std::optional<mm::StringT>& b) { return !a || !b ? !a == !b : *a == *b; }
	inline bool tells(const mm::sequence::rating& a, const mm::sequence::rating& b) { return a.priority == b.priority && a.tag == b.tag; }
	inline bool tells(const mm::sequence::Tag& a, const mm::sequence::Tag& b) { return static_cast<std::ptrdiff_t>(a) == static_cast<std::ptrdiff_t>(b); }
	inline bool tells(const mm::CallReport::Arg& a, const mm::CallReport::Arg& b) { return a.typeIndex == b.typeIndex && a.stateString == b.stateString; }
	inline bool tells(const mm::MatchReport::Expectation& a, const mm::MatchReport::Expectation& b) { return a.isMatching == b.isMatching && tells(a.description, b.description); }
	template <typename T> bool tells(const std::vector<T>& a, const std::vector<T>& b)
	{
		if (a.size() != b.size()) return false;
		for (std::size_t i = 0; i < a.size(); ++i) if (!tells(a[i], b[i])) return false;
		return true;
	}
	inline bool tells(const mm::control_state_t& a, const mm::control_state_t& b)
	{
		if (a.index() != b.index()) return false;
		auto limits = [](auto& x, auto& y) { return x.min == y.min && x.max == y.max && x.count == y.count; };
		if (auto* x = std::get_if<mm::state_inapplicable>(&a)) { auto& y = std::get<mm::state_inapplicable>(b); return limits(*x, y) && tells(x->sequenceRatings, y.sequenceRatings) && tells(x->inapplicableSequences, y.inapplicableSequences); }
		if (auto* x = std::get_if<mm::state_applicable>(&a)) { auto& y = std::get<mm::state_applicable>(b); return limits(*x, y) && tells(x->sequenceRatings, y.sequenceRatings); }
		auto& x = std::get<mm::state_saturated>(a); auto& y = std::get<mm::state_saturated>(b); return limits(x, y) && tells(x.sequences, y.sequences);
	}
	inline bool tells(const mm::CallReport& a, const mm::CallReport& b) { return a.returnTypeIndex == b.returnTypeIndex && tells(a.argDetails, b.argDetails) && tells(a.fromLoc, b.fromLoc) && a.fromCategory == b.fromCategory && a.fromConstness == b.fromConstness; }
	inline bool tells(const mm::MatchReport& a, const mm::MatchReport& b) { return tells(a.sourceLocation, b.sourceLocation) && tells(a.finalizeReport.description, b.finalizeReport.description) && tells(a.controlReport, b.controlReport) && tells(a.expectationReports, b.expectationReports); }
	inline bool tells(const mm::ExpectationReport& a, const mm::ExpectationReport& b) { return tells(a.sourceLocation, b.sourceLocation) && tells(a.finalizerDescription, b.finalizerDescription) && tells(a.timesDescription, b.timesDescription) && tells(a.expectationDescriptions, b.expectationDescriptions); }

	// changes a copy, sometimes in a way that tells the same
	inline void edit(std::source_location& l)
	{
		static std::deque<testloc::Impl> copies; static std::deque<std::string> names;
		auto own = [](const char* s) { return names.emplace_back(s).c_str(); };
		if (copies.size() > 64) { l = testloc::odd(g_rng.below(12)); return; }
		testloc::Impl i{own(l.file_name()), own(l.function_name()), l.line(), l.column()};
		switch (g_rng.below(6)) { case 0: i.file = "other.cpp"; break; case 1: i.function = "other"; break; case 2: i.line ^= 1u << g_rng.below(32); break; case 3: i.column ^= 1u << g_rng.below(32); break; default: break; }
		const testloc::Impl* p = &copies.emplace_back(i);
		l = std::bit_cast<std::source_location>(p);
	}
	inline void edit(std::optional<std::source_location>& l) { if (l && g_rng.chance(80)) edit(*l); else if (l) l.reset(); else l = testloc::odd(g_rng.below(12)); }
	inline void edit(mm::StringT& s) { switch (g_rng.below(4)) { case 0: s += 'x'; break; case 1: if (!s.empty()) s.back() ^= 1; break; case 2: if (!s.empty()) s.front() ^= 1; break; default: s.push_back('\0'); } }
	inline void edit(std::optional<mm::StringT>& s) { if (s && g_rng.chance(60)) edit(*s); else if (s) s.reset(); else s = g_rng.chance(50) ? "" : "d"; }
	inline void edit(mm::sequence::rating& r) { if (g_rng.chance(50)) r.priority ^= 1 << g_rng.below(31); else r.tag = mm::sequence::Tag{static_cast<std::ptrdiff_t>(r.tag) ^ (std::ptrdiff_t{1} << g_rng.below(60))}; }
	inline void edit(mm::sequence::Tag& t) { t = mm::sequence::Tag{static_cast<std::ptrdiff_t>(t) ^ (std::ptrdiff_t{1} << g_rng.below(60))}; }
	inline void edit(mm::CallReport::Arg& a) { if (g_rng.chance(60)) edit(a.stateString); else a.typeIndex = g_rng.chance(50) ? std::type_index{typeid(long)} : std::type_index{typeid(int)}; }
	inline void edit(mm::MatchReport::Expectation& e) { if (g_rng.chance(50)) e.isMatching = !e.isMatching; else edit(e.description); }
	template <typename T> void edit(std::vector<T>& v)
	{
		switch (v.empty() ? 0 : g_rng.below(5))
		{
		case 0: if (!v.empty()) v.push_back(v[static_cast<std::size_t>(g_rng.below(static_cast<int>(v.size())))]); break;
		case 1: v.pop_back(); break;
		case 2: std::swap(v.front(), v.back()); break;
		default: edit(v[static_cast<std::size_t>(g_rng.below(static_cast<int>(v.size())))]);
		}
	}
	inline void edit(mm::control_state_t& c)
	{
		std::visit([&](auto& s) {
			switch (g_rng.below(5))
			{
			case 0: s.min ^= 1 << g_rng.below(31); break;
			case 1: s.max ^= 1 << g_rng.below(31); break;
			case 2: s.count ^= 1 << g_rng.below(31); break;
			default:
				if constexpr (requires { s.sequences; }) edit(s.sequences);
				else if constexpr (requires { s.inapplicableSequences; }) { if (g_rng.chance(50)) edit(s.inapplicableSequences); else edit(s.sequenceRatings); }
				else edit(s.sequenceRatings);
			}
		}, c);
		if (g_rng.chance(20))
		{
			const auto [min, max, count] = std::visit([](auto& s) { return std::tuple{s.min, s.max, s.count}; }, c);
			if (c.index() == 2) c = mm::state_applicable{.min = min, .max = max, .count = count}; else c = mm::state_saturated{.min = min, .max = max, .count = count};
		}
	}
	inline void edit(mm::CallReport& r)
	{
		switch (g_rng.below(5))
		{
		case 0: r.returnTypeIndex = g_rng.chance(50) ? std::type_index{typeid(long)} : std::type_index{typeid(int)}; break;
		case 1: edit(r.argDetails); break;
		case 2: edit(r.fromLoc); break;
		case 3: r.fromCategory = r.fromCategory == mm::ValueCategory::any ? mm::ValueCategory::lvalue : r.fromCategory == mm::ValueCategory::lvalue ? mm::ValueCategory::rvalue : mm::ValueCategory::any; break;
		default: r.fromConstness = r.fromConstness == mm::Constness::any ? mm::Constness::as_const : r.fromConstness == mm::Constness::as_const ? mm::Constness::non_const : mm::Constness::any;
		}
	}
	inline void edit(mm::MatchReport& r) { switch (g_rng.below(4)) { case 0: edit(r.sourceLocation); break; case 1: edit(r.finalizeReport.description); break; case 2: edit(r.controlReport); break; default: edit(r.expectationReports); } }
	inline void edit(mm::ExpectationReport& r) { switch (g_rng.below(4)) { case 0: edit(r.sourceLocation); break; case 1: edit(r.finalizerDescription); break; case 2: edit(r.timesDescription); break; default: edit(r.expectationDescriptions); } }

	template <typename T> void compare(const T& a, const T& b, const char* what)
	{
		const bool want = tells(a, b);
		++(want ? g_equal : g_different);
		if ((a == b) != want || (a != b) == want || (b == a) != want)
			proto::fail("C13", std::string{"two "} + what + "s which tell " + (want ? "the same" : "different things") + " compare " + (a == b ? "equal" : "unequal"));
	}
	template <typename T> void seen(std::deque<T>& recent, const T& r, const char* what)
	{
		compare(r, T{r}, what);
		for (const T& o : recent) compare(r, o, what);
		T changed{r};
		edit(changed); compare(r, changed, what);
		if (g_rng.chance(30)) { edit(changed); compare(r, changed, what); }
		recent.push_back(r);
		if (recent.size() > 3) recent.pop_front();
	}
	inline void seen(const mm::CallReport& r) { seen(g_calls, r, "call report"); }
	inline void seen(const mm::MatchReport& r) { seen(g_matches, r, "match report"); }
	inline void seen(const mm::ExpectationReport& r) { seen(g_exps, r, "expectation report"); }
}
