// C08/C09: many parameters and many overloads, directly and behind the interface macros. Every parameter has its own value and object; matchers,
// actions and results must find each of them in its place.
#pragma once
#include "mimic++/mimic++.hpp"
#include "../common/proto.hpp"
#include <array>
#include <memory>
#include <optional>
#include <typeindex>
#include <string>

namespace wide
{
	namespace mm = mimicpp; namespace M = mm::matches;
	using proto::fail; using proto::stat; using proto::Rng;
	struct Base { long v; explicit Base(long x) : v{x} {} virtual ~Base() = default; };
	struct Obj : Base { using Base::Base; Obj(const Obj&) = delete; };

	inline long val(int v) { return v; }
	inline long val(double v) { return static_cast<long>(v); }
	inline long val(const std::string& s) { return std::stol(s); }
	inline long val(const Base& b) { return b.v; }
	inline long val(const std::unique_ptr<int>& p) { return p ? *p : -1; }
	inline long val(const int* p) { return p ? *p : -1; }

	struct NoMatch {};
	inline std::optional<std::pair<mm::CallReport, std::vector<mm::MatchReport>>> g_rejected;
	struct Reporter final : mm::IReporter
	{
		[[noreturn]] void report_no_matches(mm::CallReport c, std::vector<mm::MatchReport> m) override { g_rejected.emplace(std::move(c), std::move(m)); throw NoMatch{}; }
		[[noreturn]] void report_inapplicable_matches(mm::CallReport, std::vector<mm::MatchReport>) override { fail("C01", "inapplicable match"); }
		void report_full_match(mm::CallReport, mm::MatchReport) noexcept override {}
		void report_unfulfilled_expectation(mm::ExpectationReport) override { fail("C02", "unfulfilled expectation"); }
		void report_error(mm::StringT m) override { fail("C16", "error: " + m); }
		void report_unhandled_exception(mm::CallReport, mm::ExpectationReport, std::exception_ptr) override { fail("C14", "unhandled exception"); }
	};

	// owns whatever an argument of type P needs and passes it as such
	template <typename P> struct Arg;
	template <> struct Arg<int> { int v; explicit Arg(long x) : v{static_cast<int>(x)} {} int pass() { return v; } const void* at() { return nullptr; } };
	template <> struct Arg<int&> { int v; explicit Arg(long x) : v{static_cast<int>(x)} {} int& pass() { return v; } const void* at() { return &v; } };
	template <> struct Arg<int&&> { int v; explicit Arg(long x) : v{static_cast<int>(x)} {} int&& pass() { return std::move(v); } const void* at() { return &v; } };
	template <> struct Arg<double> { double v; explicit Arg(long x) : v{static_cast<double>(x)} {} double pass() { return v; } const void* at() { return nullptr; } };
	template <> struct Arg<const std::string&> { std::string v; explicit Arg(long x) : v{std::to_string(x)} {} const std::string& pass() { return v; } const void* at() { return &v; } };
	template <> struct Arg<std::string> { std::string v; explicit Arg(long x) : v{std::to_string(x)} {} std::string pass() { return v; } const void* at() { return nullptr; } };
	template <> struct Arg<std::unique_ptr<int>> { std::unique_ptr<int> v; explicit Arg(long x) : v{std::make_unique<int>(static_cast<int>(x))} {} std::unique_ptr<int> pass() { return std::move(v); } const void* at() { return nullptr; } };
	template <> struct Arg<const Base&> { Obj v; explicit Arg(long x) : v{x} {} const Base& pass() { return v; } const void* at() { return &v; } };
	template <> struct Arg<const int*> { int v; explicit Arg(long x) : v{static_cast<int>(x)} {} const int* pass() { return &v; } const void* at() { return nullptr; } };

	struct Case { const char* what; void (*fn)(Rng&); };
	inline std::vector<Case>& cases() { static std::vector<Case> v; return v; }
	struct Reg { Reg(const char* w, void (*f)(Rng&)) { cases().push_back({w, f}); } };

	template <typename... P> void checkArgs(const mm::CallReport& c, long base, auto& say)
	{
		constexpr std::size_t n = sizeof...(P);
		const std::type_index types[]{typeid(P)...};
		if (c.argDetails.size() != n) say("the report lists " + std::to_string(c.argDetails.size()) + " arguments");
		for (std::size_t j = 0; j < n; ++j)
		{
			if (c.argDetails[j].typeIndex != types[j]) say("the reported type of argument " + std::to_string(j) + " is " + c.argDetails[j].typeIndex.name());
			if ((types[j] == typeid(int) || types[j] == typeid(std::string)) && c.argDetails[j].stateString.find(std::to_string(base + static_cast<long>(j))) == std::string::npos) say("the reported state of argument " + std::to_string(j) + " is " + c.argDetails[j].stateString);
		}
	}
	// nothing answers: the report tells what arrived
	template <typename... P, typename Call> void unanswered(Rng& r, const char* what, Call&& call)
	{
		auto say = [&](const std::string& s) { fail("C08,C09,C13", std::string{what} + " with " + std::to_string(sizeof...(P)) + " parameters: " + s); };
		const long base = 100000 + r.below(800000);
		[&]<std::size_t... i>(std::index_sequence<i...>)
		{
			auto all = std::make_unique<std::tuple<Arg<P>...>>(static_cast<long>(base + static_cast<long>(i))...);
			g_rejected.reset();
			try { call(std::get<i>(*all).pass()...); say("the call is answered"); } catch (const NoMatch&) {}
			checkArgs<P...>(g_rejected->first, base, say);
		}(std::index_sequence_for<P...>{});
		++stat("unanswered");
		stat("most_parameters") = std::max<std::uint64_t>(stat("most_parameters"), sizeof...(P));
	}

	template <typename... P, typename Mock, typename Call> void run(Rng& r, const char* what, Mock& mock, Call&& call)
	{
		constexpr std::size_t n = sizeof...(P);
		using Seq = std::index_sequence_for<P...>;
		auto say = [&](const std::string& s) { fail("C08,C09,C01", std::string{what} + " with " + std::to_string(n) + " parameters: " + s); };
		std::array<long, n> want{}; std::array<const void*, n> at{};
		std::array<bool, n> asked{};
		int acted = 0;
		auto check = [&](const auto&... a)
		{
			++acted;
			std::size_t i = 0;
			auto one = [&](const auto& x, bool ref) { if (val(x) != want[i]) say("the action sees " + std::to_string(val(x)) + " as argument " + std::to_string(i)); if (ref && at[i] && static_cast<const void*>(std::addressof(x)) != at[i]) say("argument " + std::to_string(i) + " is another object"); ++i; };
			(..., one(a, std::is_reference_v<P>));
		};
		auto pred = [&](std::size_t i) { return M::predicate([&, i](const auto& x) { asked[i] = true; return val(x) == want[i]; }, "", ""); };
		auto make = [&]<std::size_t... i>(std::index_sequence<i...>)
		{
			return mm::ScopedExpectation{mock.expect_call(pred(i)...) && mm::expect::times(0, 1000000) && mm::then::apply_all(check)
				&& mm::then::apply_arg<n - 1>([&](const auto& x) { ++acted; if (val(x) != want[n - 1]) say("the last argument is " + std::to_string(val(x))); })
				&& mm::then::apply_args<n / 2, 0>([&](const auto& x, const auto& y) { ++acted; if (val(x) != want[n / 2] || val(y) != want[0]) say("two of the arguments are " + std::to_string(val(x)) + " and " + std::to_string(val(y))); })
				&& mm::finally::returns_apply_result_of<n - 2>([&](const auto& x) { return val(x); })};
		};
		mm::ScopedExpectation e = make(Seq{});
		for (int k = 0; k < 4; ++k)
		{
			const long base = 100000 + r.below(800000);
			const int off = r.chance(50) ? r.below(static_cast<int>(n)) : -1;
			[&]<std::size_t... i>(std::index_sequence<i...>)
			{
				std::tuple<Arg<P>...> args{static_cast<long>(base + static_cast<long>(i))...};
				((want[i] = base + static_cast<long>(i), at[i] = std::get<i>(args).at()), ...);
				if (off >= 0) want[static_cast<std::size_t>(off)] = -7;
				asked = {}; acted = 0;
				g_rejected.reset();
				long result = -1; bool answered = false;
				try { result = call(std::get<i>(args).pass()...); answered = true; } catch (const NoMatch&) {}
				for (std::size_t j = 0; j < n; ++j) if (!asked[j]) say("requirement " + std::to_string(j) + " has not been asked");
				if (answered != (off < 0)) say(answered ? "a call is answered although argument " + std::to_string(off) + " is rejected" : std::string{"the call is rejected"});
				if (answered)
				{
					if (result != want[n - 2]) say("the result is " + std::to_string(result) + " instead of " + std::to_string(want[n - 2]));
					if (acted != 3) say(std::to_string(acted) + " instead of 3 actions ran");
				}
				else
				{
					if (!g_rejected || acted) say("the rejected call has not been reported, or actions ran");
					auto& [c, ms] = *g_rejected;
					if (ms.size() != 1 || ms[0].expectationReports.size() < n) say("the report lists " + std::to_string(ms.size()) + " expectations");
					checkArgs<P...>(c, base, say);
					int rejecting = 0; for (auto& x : ms[0].expectationReports) rejecting += !x.isMatching;
					if (rejecting != 1) say(std::to_string(rejecting) + " requirements are reported as rejecting the call");
				}
				++stat(answered ? "answered" : "rejected");
			}(Seq{});
		}
		stat("most_parameters") = std::max<std::uint64_t>(stat("most_parameters"), n);
	}
}
