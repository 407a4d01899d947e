#pragma once
// C10: matchers decide exactly their documented relation; negation its complement; nothing the user passed in is modified.
// Oracle: the relation evaluated directly (on separate copies of the values) and textbook definitions over index sequences.
#include "mimic++/mimic++.hpp"
#include "../common/proto.hpp"
#include <array>
#include <cmath>
#include <deque>
#include <forward_list>
#include <limits>
#include <list>
#include <memory>
#include <set>
#include <span>
#include <vector>

namespace mm = mimicpp;
namespace M = mimicpp::matches;
using proto::fail; using proto::stat; using proto::Rng;

struct Quiet final : mm::IReporter
{
	struct No {};
	[[noreturn]] void report_no_matches(mm::CallReport, std::vector<mm::MatchReport>) override { throw No{}; }
	[[noreturn]] void report_inapplicable_matches(mm::CallReport, std::vector<mm::MatchReport>) override { throw 1; }
	void report_full_match(mm::CallReport, mm::MatchReport) noexcept override {}
	void report_unfulfilled_expectation(mm::ExpectationReport) override {}
	void report_error(mm::StringT) override {}
	void report_unhandled_exception(mm::CallReport, mm::ExpectationReport, std::exception_ptr e) override { proto::fail("C10,C14", "matcher threw"); }
};

inline std::string g_what;
inline std::uint64_t g_hash;
inline int g_true, g_false;

template <typename T> concept showable = requires (const T& t) { std::to_string(t); };
template <typename T> std::string show(const T& t)
{
	if constexpr (showable<T>) return std::to_string(t);
	else if constexpr (std::convertible_to<const T&, std::string_view>) return proto::quoted(std::string(std::string_view(t)));
	else if constexpr (std::ranges::range<const T>) { std::string r = "["; for (auto&& x : t) r += show(x) + ","; return r + "]"; }
	else return "?";
}
template <typename T> std::string showT(T& t) { if constexpr (requires { show(t); }) return show(t); else return "?"; }

// asks one matcher in every way there is; `want` is the oracle's answer
template <typename Mt, typename T>
void ask(const Mt& m, T& target, bool want, const char* how)
{
	for (int i = 0; i < 2; ++i)
	{
		if (m.matches(target) != want)
			fail("C10", g_what + " (" + how + ", asked " + std::to_string(i + 1) + "x) yields " + (want ? "false" : "true") + " for target " + showT(target));
		if (mm::detail::matches_hook::matches(m, target) != want) fail("C10", g_what + " (" + how + ", via hook) answers wrongly");
		if constexpr (requires (const T& ct) { m.matches(ct); })
			if (m.matches(std::as_const(target)) != want) fail("C10", g_what + " (" + how + ", const target) answers wrongly for " + showT(target));
	}
	++stat("questions");
}
template <typename Mt, typename T>
void askAll(const Mt& m, T& target, bool want)
{
	(want ? g_true : g_false)++;
	const auto d1 = m.describe();
	ask(m, target, want, "plain");
	if constexpr (requires { !m; })
	{
		const auto n = !m;
		ask(n, target, !want, "negated copy");
		ask(!n, target, want, "twice negated");
		const auto dn = n.describe();
		if (dn == d1) fail("C10,C13", g_what + ": the negated matcher is described like the plain one: " + std::string(d1));
		if ((!n).describe() != d1) fail("C10,C13", g_what + ": the twice negated matcher is described as '" + std::string((!n).describe()) + "' instead of '" + std::string(d1) + "'");
		Mt copy{m};
		ask(copy, target, want, "copy");
		const auto n2 = !std::move(copy);
		ask(n2, target, !want, "negated by move");
		if (n2.describe() != dn) fail("C10,C13", g_what + ": description depends on how the negation was built");
		ask(m, target, want, "plain, after copies were negated");
	}
	if (m.describe() != d1) fail("C10", g_what + ": asking changed the description");
	g_hash = g_hash * 1099511628211ull + static_cast<std::uint64_t>(want) + proto::fnv(std::string(d1));
}
// the bulk version: plain and negated only
template <typename Mt, typename T>
void askLite(const Mt& m, T& target, bool want)
{
	(want ? g_true : g_false)++;
	const auto d = m.describe();
	for (int i = 0; i < 2; ++i)
	{
		if (m.matches(target) != want) fail("C10", g_what + " yields " + (want ? "false" : "true") + " for target " + showT(target) + " (asked " + std::to_string(i + 1) + "x)");
		if constexpr (requires { !m; }) if ((!m).matches(target) == want) fail("C10", g_what + ", negated, yields " + (want ? "true" : "false") + " for target " + showT(target) + " (asked " + std::to_string(i + 1) + "x)");
	}
	if (m.describe() != d) fail("C10", g_what + ": asking changed the description");
	g_hash = g_hash * 1099511628211ull + static_cast<std::uint64_t>(want) + proto::fnv(std::string(d));
	++stat("questions");
}
// the same question asked by a mock call
template <typename P, typename Mt, typename V>
void viaMock(Mt&& matcher, V&& value, bool want)
{
	mm::Mock<void(P)> mock{};
	mm::ScopedExpectation e = mock.expect_call(std::forward<Mt>(matcher)) && mm::expect::at_most(9);
	for (int i = 0; i < 2; ++i)
	{
		bool got = true;
		try { mock(static_cast<P>(value)); } catch (const Quiet::No&) { got = false; }
		if (got != want) fail("C10", g_what + ": a call is " + (got ? "accepted" : "rejected") + " by an expectation with this matcher, target " + showT(value));
	}
	++stat("mock_calls");
}

enum Rel { EQ, NE, LT, LE, GT, GE };
inline const char* const relName[] = {"eq", "ne", "lt", "le", "gt", "ge"};
template <typename A, typename B> bool holds(int r, const A& a, const B& b)
{
	switch (r) { case EQ: return a == b; case NE: return a != b; case LT: return a < b; case LE: return a <= b; case GT: return a > b; default: return a >= b; }
}
template <typename F, typename V> void withRel(int r, F&& f, V&& v)
{
	switch (r)
	{
	case EQ: f(M::eq(std::forward<V>(v))); break;
	case NE: f(M::ne(std::forward<V>(v))); break;
	case LT: f(M::lt(std::forward<V>(v))); break;
	case LE: f(M::le(std::forward<V>(v))); break;
	case GT: f(M::gt(std::forward<V>(v))); break;
	default: f(M::ge(std::forward<V>(v))); break;
	}
}
template <typename T> const std::vector<T>& pool()
{
	if constexpr (std::is_floating_point_v<T>)
	{
		static const std::vector<T> v{T(0), T(-0.0), T(1), T(-1), T(0.1), std::numeric_limits<T>::quiet_NaN(), std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity(), std::numeric_limits<T>::denorm_min(), std::numeric_limits<T>::max(), std::numeric_limits<T>::epsilon()};
		return v;
	}
	else if constexpr (std::is_integral_v<T>)
	{
		static const std::vector<T> v{T(0), T(1), T(2), T(7), T(-1), T(-2), std::numeric_limits<T>::min(), std::numeric_limits<T>::max(), T(std::numeric_limits<T>::max() - 1)};
		return v;
	}
	else
	{
		static const std::vector<T> v{T(""), T("a"), T("b"), T("A"), T("ab"), T(std::string(3, '\0').c_str()), T("a longer string which does not fit into a small buffer")};
		return v;
	}
}
// a type which knows whether it was moved from or copied and whose comparison counts
struct Obs
{
	int v; bool valid = true; mutable int reads = 0;
	static inline int copies = 0;
	Obs(int x) : v{x} {}
	Obs(const Obs& o) : v{o.v}, valid{o.valid} { ++copies; }
	Obs(Obs&& o) noexcept : v{o.v}, valid{o.valid} { o.valid = false; o.v = -999; }
	Obs& operator=(const Obs&) = default;
	Obs& operator=(Obs&& o) noexcept { v = o.v; valid = o.valid; o.valid = false; o.v = -999; return *this; }
	friend bool operator==(const Obs& a, const Obs& b) { if (!a.valid || !b.valid) fail("C10", "a matcher works with a moved-from value: " + g_what); return a.v == b.v; }
	friend auto operator<=>(const Obs& a, const Obs& b) { if (!a.valid || !b.valid) fail("C10", "a matcher works with a moved-from value: " + g_what); return a.v <=> b.v; }
};
inline std::string show(const Obs& o) { return std::to_string(o.v); }

void valuesCase(long no, Rng& rng);
void values2Case(long no, Rng& rng);
void objectsCase(Rng& rng);
void rangeCase(Rng& rng);
void nestedCase(Rng& rng);
void range2Case(Rng& rng);
void argsCase(Rng& rng);
void tuplesCase(Rng& rng);
