// strings as call arguments: plain arguments mean equality, matchers work for every kind of parameter
#include "str.hpp"
struct Quiet final : mm::IReporter
{
	struct No {};
	[[noreturn]] void report_no_matches(mm::CallReport, std::vector<mm::MatchReport>) override { throw No{}; }
	[[noreturn]] void report_inapplicable_matches(mm::CallReport, std::vector<mm::MatchReport>) override { throw 1; }
	void report_full_match(mm::CallReport, mm::MatchReport) noexcept override {}
	void report_unfulfilled_expectation(mm::ExpectationReport) override {}
	void report_error(mm::StringT) override {}
	void report_unhandled_exception(mm::CallReport, mm::ExpectationReport, std::exception_ptr) override { fail("C11,C14", "a string matcher threw"); }
};
void installQuiet() { mm::install_reporter<Quiet>(); }

template <typename P, typename Builder, typename Arg>
static void decide(mm::Mock<void(P)>& mock, Builder&& b, Arg&& arg, bool want, const std::string& what)
{
	mm::ScopedExpectation e = std::forward<Builder>(b) && mm::expect::at_most(1);
	bool got = true;
	try { mock(std::forward<Arg>(arg)); } catch (const Quiet::No&) { got = false; }
	if (got != want) fail("C11,C10", what + ": the call is " + (got ? "accepted" : "rejected"));
	++stat("mock_calls");
}
void mockCase(Rng& rng)
{
	static const std::vector<char> a{'a', 'A', 'b', '\xe4', '\xff', 'z'};
	for (int i = 0; i < 20; ++i)
	{
		const std::string t = randomStr(rng, a, 4), p = derived(rng, t, a);
		const std::string w = "target " + show(t) + " pattern " + show(p);
		const bool zeros = (t + p).find('\0') != std::string::npos;
		mm::Mock<void(std::string)> ms; mm::Mock<void(const std::string&)> mr; mm::Mock<void(std::string_view)> mv;
		decide(ms, ms.expect_call(p), t, t == p, "plain string, " + w);
		decide(mr, mr.expect_call(p), t, t == p, "plain string, " + w);
		decide(mv, mv.expect_call(p), t, t == p, "plain string for view, " + w);
		decide(mr, mr.expect_call(S::contains(p)), t, oracle(CONTAINS, t, p, false), "contains, " + w);
		decide(mv, mv.expect_call(!S::starts_with(p, mm::case_insensitive)), t, !oracle(STARTS, t, p, true), "!starts_with ci, " + w);
		decide(ms, ms.expect_call(S::ends_with(p, mm::case_insensitive)), t, oracle(ENDS, t, p, true), "ends_with ci, " + w);
		if (!zeros)
		{
			mm::Mock<void(const char*)> mc; mm::Mock<void(char*)> mm_;
			decide(mc, mc.expect_call(p.c_str()), t.c_str(), t == p, "plain pointer, " + w);
			decide(mc, mc.expect_call(p), t.c_str(), t == p, "string for pointer, " + w);
			decide(mr, mr.expect_call(p.c_str()), t, t == p, "pointer for string, " + w);
			decide(mc, mc.expect_call(S::eq(p.c_str(), mm::case_insensitive)), t.c_str(), oracle(EQ, t, p, true), "eq ci, " + w);
			decide(mc, mc.expect_call(!S::contains(p)), t.c_str(), !oracle(CONTAINS, t, p, false), "!contains, " + w);
			std::string buf = t;
			decide(mm_, mm_.expect_call(p), buf.data(), t == p, "mutable pointer, " + w);
		}
		const std::wstring wt(t.begin(), t.end()), wp(p.begin(), p.end());
		mm::Mock<void(std::wstring)> mw;
		decide(mw, mw.expect_call(wp), wt, wt == wp, "plain wstring, " + w);
	}
	// literals
	mm::Mock<void(std::string)> ms; mm::Mock<void(const char*)> mc;
	decide(ms, ms.expect_call("lit"), "lit", true, "literal"); decide(ms, ms.expect_call("lit"), "liT", false, "literal");
	decide(mc, mc.expect_call("lit"), "lit", true, "literal"); decide(mc, mc.expect_call("lit"), "lits", false, "literal");
	decide(mc, mc.expect_call(S::starts_with("")), "", true, "empty literal"); decide(mc, mc.expect_call(S::ends_with("x")), "", false, "empty target");
}
