// C09: a mock with several signatures against a plain class declaring the same call operators.
#pragma once
#include "mimic++/mimic++.hpp"
#include "../common/proto.hpp"
#include <functional>
#include <memory>
#include <optional>
#include <typeinfo>

namespace mm = mimicpp;
using proto::fail; using proto::stat; using proto::Rng;

namespace ovl
{
	template <typename...> struct L {};
	template <typename T> struct X {};
	template <int k> struct Tag { int id; };      // the result type of an overload (some share one)
	struct Base { virtual ~Base() = default; };
	struct Derived : Base {};
	struct FromInt { int v; FromInt(int x) : v{x} {} };  // implicit conversion
	enum class En : int { a };
	// accepts exactly one (lvalue) parameter type
	template <typename P> struct Exactly
	{
		template <typename T> requires std::same_as<T&, P> constexpr bool matches(T&) const { return true; }
		mm::StringT describe() const { return "is of the type"; }
	};
	template <int v, typename T> using View = std::conditional_t<v == 0, T&, std::conditional_t<v == 1, const T&, std::conditional_t<v == 2, T&&, const T&&>>>;
	inline constexpr const char* g_views[] = {"an lvalue", "a const lvalue", "an rvalue", "a const rvalue"};
	template <typename T> T make()
	{
		using D = std::remove_cvref_t<T>;
		static D pool[8]{}; static int next = 0;
		D& d = pool[next++ % 8];
		if constexpr (std::is_lvalue_reference_v<T>) return d; else return static_cast<T>(std::move(d));
	}
	template <> inline FromInt make<FromInt>() { return FromInt{1}; }
	template <> inline const char* make<const char*>() { return "x"; }

	struct Seen { bool matched = false; mm::ValueCategory category{}; mm::Constness constness{}; std::size_t args = 0; } inline g_seen;
	struct NotAnswered {};
	class Reporter final : public mm::IReporter
	{
	public:
		void report_no_matches(mm::CallReport, std::vector<mm::MatchReport>) override { throw NotAnswered{}; }
		void report_inapplicable_matches(mm::CallReport, std::vector<mm::MatchReport>) override { throw NotAnswered{}; }
		void report_full_match(mm::CallReport c, mm::MatchReport) noexcept override { g_seen = {true, c.fromCategory, c.fromConstness, c.argDetails.size()}; ++stat("matches"); }
		void report_unfulfilled_expectation(mm::ExpectationReport) override { fail("C09,C02", "unfulfilled"); }
		void report_error(mm::StringT m) override { fail("C09", "error: " + m); }
		void report_unhandled_exception(mm::CallReport, mm::ExpectationReport, std::exception_ptr) override { fail("C09", "unhandled exception"); }
	};

	template <typename Plain, typename M> struct Set
	{
		std::string what;
		struct Overload { mm::ValueCategory category; mm::Constness constness; bool noex; std::size_t args; };
		std::vector<Overload> overloads;
		struct Call { std::string text; int overload; std::function<int(M&)> run; };
		struct Exp { std::string text; int overload; std::function<mm::ScopedExpectation(M&, int)> make; };
		std::vector<Call> calls; std::vector<Exp> exps;

		[[noreturn]] void bad(const std::string& m) const { fail("C09", what + ": " + m); }
		template <int v, typename... A> void call1(const char* text)
		{
			using VP = View<v, Plain>; using VM = View<v, M>;
			constexpr bool ip = std::is_invocable_v<VP, A...>, im = std::is_invocable_v<VM, A...>;
			const std::string t = std::string{"calling "} + g_views[v] + " with (" + text + ")";
			if (ip != im) bad(t + (ip ? " is possible for the class but not for the mock" : " is possible for the mock but not for the class"));
			++stat("invocability_comparisons");
			if constexpr (ip && im)
			{
				if (!std::is_same_v<std::invoke_result_t<VP, A...>, std::invoke_result_t<VM, A...>>) bad(t + " has another result type");
				if (std::is_nothrow_invocable_v<VP, A...> != std::is_nothrow_invocable_v<VM, A...>) bad(t + " differs in noexcept");
				Plain p{};
				const int k = static_cast<VP>(p)(make<A>()...).id;
				calls.push_back({t, k, [](M& m) -> int { if constexpr (std::is_invocable_v<VM, A...>) return static_cast<VM>(m)(make<A>()...).id; else return -1; }});
			}
		}
		template <typename... A> void call(const char* text) { call1<0, A...>(text); call1<1, A...>(text); call1<2, A...>(text); call1<3, A...>(text); }
		template <int v, typename... P> void exp1(const char* text)
		{
			using VP = View<v, Plain>; using VM = View<v, M>;
			constexpr bool ip = requires(VP p) { static_cast<VP>(p).expect(X<std::add_lvalue_reference_t<P>>{}...); };
			constexpr bool im = requires(VM m) { static_cast<VM>(m).expect_call(Exactly<std::add_lvalue_reference_t<P>>{}...); };
			const std::string t = std::string{"expecting a call of "} + g_views[v] + " with (" + text + ")";
			if (ip != im) bad(t + (ip ? " is possible for the class but not for the mock" : " is possible for the mock but not for the class"));
			++stat("expressibility_comparisons");
			if constexpr (ip && im)
			{
				Plain p{};
				const auto tag = static_cast<VP>(p).expect(X<std::add_lvalue_reference_t<P>>{}...);
				exps.push_back({t, tag.id, [](M& m, int id) -> mm::ScopedExpectation
				{
					using T = std::remove_const_t<decltype(tag)>;
					return static_cast<VM>(m).expect_call(Exactly<std::add_lvalue_reference_t<P>>{}...) && mm::finally::returns(T{id}) && mm::expect::at_least(0);
				}});
			}
		}
		template <typename... P> void expect(const char* text) { exp1<0, P...>(text); exp1<1, P...>(text); exp1<2, P...>(text); exp1<3, P...>(text); }

		void run(Rng& r)
		{
			if (exps.empty() || calls.empty()) return;
			M first{};
			std::optional<M> second;
			std::vector<mm::ScopedExpectation> live; std::vector<int> over;
			std::string log;
			auto install = [&](M& m) { const auto& e = r.pick(exps); live.push_back(e.make(m, static_cast<int>(over.size()))); over.push_back(e.overload); log += " | " + e.text; };
			for (int k = r.below(1 + static_cast<int>(exps.size())); k >= 0; --k) install(first);
			const bool moved = r.chance(20);
			if (moved) second.emplace(std::move(first));
			M& m = moved ? *second : first;
			for (int k = 0; k < 30; ++k)
			{
				if (r.chance(5)) install(m);
				const auto& c = r.pick(calls);
				int want = -1;
				for (std::size_t i = 0; i < over.size(); ++i) if (over[i] == c.overload) want = static_cast<int>(i);
				if (want < 0 && overloads.at(static_cast<std::size_t>(c.overload)).noex) continue; // would terminate
				int got = -1;
				g_seen = {};
				try { got = c.run(m); } catch (const NotAnswered&) {}
				++stat(want < 0 ? "unmatched_calls" : "answered_calls");
				if (got != want) bad(c.text + " selects overload " + std::to_string(c.overload) + " of the class and should be answered by expectation " + std::to_string(want) + ", but was by " + std::to_string(got) + " [expectations:" + log + "]");
				if (want >= 0)
				{
					const Overload& o = overloads[static_cast<std::size_t>(c.overload)];
					if (!g_seen.matched || g_seen.category != o.category || g_seen.constness != o.constness) bad(c.text + ": the report names another constness or value category than the overload has");
					if (g_seen.args != o.args) bad(c.text + ": the report lists another number of arguments");
				}
				proto::g_stats["pairs"] += static_cast<long>(over.size());
				fp = fp * 31 + static_cast<std::uint64_t>(want + 2);
			}
		}
		std::uint64_t fp = 7;
	};

	struct Case { void (*fn)(Rng&); const char* what; };
	inline std::vector<Case>& cases() { static std::vector<Case> c; return c; }
	struct Reg { Reg(void (*fn)(Rng&), const char* what) { cases().push_back({fn, what}); } };
}
