import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from seedlib import seed
only = sys.argv[1:]
def S(sid, *a, **k):
    if not only or sid in only:
        try: seed(sid, *a, **k)
        except AssertionError as e: print(e)
S("c12-g", "C12", [("Printer.hpp", """						std::ranges::data(view),
						std::ranges::size(view)
					});""", """						std::ranges::data(view),
						std::min<std::size_t>(std::ranges::size(view), 4096u)
					});""")],
"""int main() { std::string a(5000, 'x'), b = a; b.back() = 'y'; CHECK(mm::print(a) != mm::print(b)); }""",
"a string of more than 4096 characters", "only the first part of a string is printed")

S("c12-h", "C12", [("Printer.hpp", """			for (; iter != end; ++iter)
			{
				out = print(
					format::format_to(std::move(out), ", "),
					*iter);
			}
		}
""", """			for (std::size_t printed{1}; iter != end; ++iter, ++printed)
			{
				if (printed == 256u)
				{
					out = format::format_to(std::move(out), ", ...");
					break;
				}

				out = print(
					format::format_to(std::move(out), ", "),
					*iter);
			}
		}
""")],
"""int main() { std::vector<int> a(300, 1), b = a; b.back() = 2; CHECK(mm::print(a) != mm::print(b)); }""",
"a range of more than 256 elements", "only the first elements are printed")

S("c16-e", "C16", [("Reporter.hpp", """			if (0 == std::uncaught_exceptions())
			{
				const auto msg = detail::stringify_unfulfilled_expectation(expectationReport);
""", """			if (0 == std::uncaught_exceptions()
				&& !std::current_exception())
			{
				const auto msg = detail::stringify_unfulfilled_expectation(expectationReport);
""")],
"""int main() { bool reported{}; try { throw 1; } catch (int) { try { mm::Mock<void()> m{}; mm::ScopedExpectation e = m.expect_call() and mm::expect::once(); } catch (const mm::UnfulfilledExpectationT&) { reported = true; } } CHECK(reported); }""",
"an unfulfilled expectation is destroyed while an exception is being handled (in a catch block)", "the default reporter does not tell")

S("c16-f", "C16", [("Reporter.hpp", """		void report_error(const StringT message) override
		{
			if (0 == std::uncaught_exceptions())
			{
				send_fail(message);""", """		void report_error(const StringT message) override
		{
			if (0 == std::uncaught_exceptions()
				&& !std::current_exception())
			{
				send_fail(message);""")],
"""struct Fail { std::string text; };
using R = mm::BasicReporter<[](const mm::StringT&) {}, [](const mm::StringT&) {}, [](const mm::StringT& s) { throw Fail{s}; }>;
int main() { mm::install_reporter<R>(); bool reported{}; try { throw 1; } catch (int) { try { mm::detail::get_reporter()->report_error("x"); } catch (const Fail&) { reported = true; } } CHECK(reported); }""",
"an error is reported while an exception is being handled (in a catch block)", "reporters of test frameworks do not tell")

S("c02-e", "C02", [("Expectation.hpp", """			if (!expectation->is_satisfied())
			{
				detail::report_unfulfilled_expectation(
					expectation->report());
			}
		}
""", """			// something went wrong already; do not obscure the original failure
			if (!expectation->is_satisfied()
				&& !std::current_exception())
			{
				detail::report_unfulfilled_expectation(
					expectation->report());
			}
		}
""")],
"""int main() { mm::install_reporter<Rep>(); mm::Mock<void()> m{}; try { throw 1; } catch (int) { mm::ScopedExpectation e = m.expect_call() and mm::expect::once(); } CHECK(Rep::unfulfilled == 1); }""",
"an unfulfilled expectation is destroyed in a catch block", "it is not reported")

S("c13-h", "C13", [("ExpectationPolicies.hpp", """			return std::invoke(
				m_Describer,
				detail::describe_hook::describe(m_Matcher));
""", """			StringT description{detail::describe_hook::describe(m_Matcher)};
			if (1024u < description.size())
			{
				description.resize(1024u);
				description += "...";
			}

			return std::invoke(
				m_Describer,
				description);
""")],
"""int main() { mm::install_reporter<Rep>(); mm::Mock<void(std::string)> m{}; std::string s(3000, 'x'); s += "end"; mm::ScopedExpectation e = m.expect_call(mm::matches::eq(s)) and mm::expect::at_most(1); CHECK(violates([&] { m("a"); })); CHECK(Rep::last.at(0).expectationReports.at(0).description->find("end") != std::string::npos); }""",
"a requirement with a description of more than 1024 characters", "the description is cut off")

