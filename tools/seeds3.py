import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from seedlib import seed
only = sys.argv[1:]
def S(sid, *a, **k):
    if not only or sid in only:
        try: seed(sid, *a, **k)
        except AssertionError as e: print(e)

S("c14-c", "C14", [("Expectation.hpp", """			return expectation.matches(call);
		}
		catch (...)
""", """			return expectation.matches(call);
		}
		catch (const std::exception& e)
		{
			report_unhandled_exception(
				make_call_report(call),
				expectation.report(),
				std::make_exception_ptr(e));
		}
		catch (...)
""")], """struct Mine : std::runtime_error { using std::runtime_error::runtime_error; };
struct R2 : Rep { static inline bool good; void report_unhandled_exception(mm::CallReport, mm::ExpectationReport, std::exception_ptr p) override { try { std::rethrow_exception(p); } catch (const Mine& m) { good = std::string(m.what()) == "x"; } catch (...) {} } };
int main() { mm::install_reporter<R2>(); mm::Mock<void(int)> m{}; mm::ScopedExpectation a{m.expect_call(_) and mm::expect::once()}; mm::ScopedExpectation b{m.expect_call(mm::matches::predicate([](int) -> bool { throw Mine{"x"}; })) and mm::expect::at_most(1)}; m(1); CHECK(R2::good); }""",
"a requirement throws an exception of a type derived from std::exception", "the reported exception is a sliced copy, not the one thrown")

S("c13-c", "C13", [("Reports.hpp", """					if (isMatching)
					{
						matchedExpectationDescriptions.emplace_back(*description);
					}
""", """					if (isMatching)
					{
						if (std::ranges::find(matchedExpectationDescriptions, *description) == matchedExpectationDescriptions.end())
						{
							matchedExpectationDescriptions.emplace_back(*description);
						}
					}
"""), ("Reports.hpp", "#include <functional>\n", "#include <algorithm>\n#include <functional>\n")] if "#include <functional>\n" in open("/repo/include/mimic++/Reports.hpp").read() else [("Reports.hpp", """					if (isMatching)
					{
						matchedExpectationDescriptions.emplace_back(*description);
					}
""", """					if (isMatching)
					{
						if (std::ranges::find(matchedExpectationDescriptions, *description) == matchedExpectationDescriptions.end())
						{
							matchedExpectationDescriptions.emplace_back(*description);
						}
					}
""")], """int main() { mm::install_reporter<Rep>(); mm::Mock<void(int)> m{}; mm::ScopedExpectation e{m.expect_call(1) and mm::expect::arg<0>(mm::matches::gt(3)) and mm::expect::arg<0>(mm::matches::gt(3)) and mm::expect::at_most(1)}; CHECK(violates([&] { m(4); }));
	const auto t = mm::print(Rep::last.at(0)); std::size_t n = 0; for (auto p = t.find("arg[0] > 3"); p != t.npos; p = t.find("arg[0] > 3", p + 1)) ++n; CHECK(n == 2); }""",
"two fulfilled requirements with the same description", "the text of a report lists equal requirements only once")

S("c13-d", "C13", [("Reporter.hpp", """					"{} available expectation(s):\\n",
					std::ranges::size(matchReports));

				for (const auto& report : matchReports)
""", """					"{} available expectation(s):\\n",
					std::ranges::size(matchReports));

				for (const auto& report : matchReports.first(std::min<std::size_t>(matchReports.size(), 32u)))
""")], """int main() { mm::DefaultReporter r{}; mm::Mock<void(int)> m{}; std::vector<mm::ScopedExpectation> v; for (int i = 0; i < 40; ++i) v.emplace_back(m.expect_call(i) and mm::expect::at_most(1));
	std::string t; try { m(-1); } catch (const std::exception& e) { t = e.what(); } CHECK(t.find("== 39") != t.npos); CHECK(t.find("== 0,") != t.npos || t.find("== 0\\n") != t.npos); }""",
"a call rejected by more than 32 expectations", "the text of the report lists only some of the expectations")

S("c12-c", "C12", [("Printer.hpp", """					using intermediate_t = uint_with_size_t<sizeof c>;
					return std::bit_cast<intermediate_t>(c);
""", """					using intermediate_t = uint_with_size_t<sizeof c>;
					return static_cast<std::uint_least32_t>(std::bit_cast<intermediate_t>(c)) & 0x1fffff;
""")], """int main() { CHECK(mm::print(std::u32string{U'\\x200041'}) == "U\\"0x200041\\""); CHECK(mm::print(std::u32string(1, static_cast<char32_t>(0xffffffffu))) != mm::print(std::u32string(1, static_cast<char32_t>(0x1fffffu)))); }""",
"a char32_t (or wchar_t) string with a value beyond 0x1fffff", "different strings are printed alike")

S("c10-c", "C10", [("Matcher.hpp", """				return std::cmp_equal(
					size,
					std::ranges::size(target));
""", """				return size == static_cast<std::remove_cvref_t<decltype(size)>>(std::ranges::size(target));
""")], """int main() { CHECK(!mm::matches::range::has_size(static_cast<signed char>(1)).matches(*std::make_unique<std::vector<int>>(257))); CHECK(!mm::matches::range::has_size(-1).matches(*std::make_unique<std::vector<char>>(5))); }""",
"has_size with a narrow integer type, and a range which is longer than its maximum", "has_size accepts a range of different size")

S("c20-e", "C20", [("Matcher.hpp", """				auto patternView = detail::make_case_folded_string(std::forward<Stored>(stored));
				auto targetView = detail::make_case_folded_string(std::forward<T>(target));
				return std::ranges::empty(patternView)
""", """				if (std::ranges::size(detail::make_view(target)) < std::ranges::size(detail::make_view(stored)))
				{
					return false;
				}

				auto patternView = detail::make_case_folded_string(std::forward<Stored>(stored));
				auto targetView = detail::make_case_folded_string(std::forward<T>(target));
				return std::ranges::empty(patternView)
""")], """struct Ch { char c; friend bool operator==(const Ch&, const Ch&) = default; };
template <> struct mm::is_character<Ch> : std::true_type {};
struct Line { std::vector<Ch> s; };
template <> struct mm::string_traits<Line> { using char_t = Ch; using view_t = std::span<const Ch>; static view_t view(const Line& l) { return l.s; } };
template <> struct mm::string_case_fold_converter<Ch> { std::vector<Ch> operator()(std::span<const Ch> v) const { std::vector<Ch> r; for (auto c : v) { r.push_back(c.c == 'S' ? Ch{'s'} : c); if (c.c == 'S') r.push_back(Ch{'s'}); } return r; } };
int main() { CHECK(mm::matches::str::contains(Line{{{'s'}, {'s'}}}, mm::case_insensitive).matches(*std::make_unique<Line>(Line{{{'S'}}}))); }""",
"a case folding of the user which makes strings longer", "lengths are compared before folding")

S("c04-c", "C04", [("Sequence.hpp", """						&& std::ranges::all_of(
							m_Entries.begin() + m_Cursor,
							m_Entries.begin() + index,
							[](const State s) noexcept
							{
								return s == State::satisfied
										|| s == State::saturated;
							})
""", """						&& (m_Cursor == index
							|| m_Entries[m_Cursor] != State::unsatisfied)
						&& std::ranges::all_of(
							m_Entries.begin() + std::max(m_Cursor, index - 8),
							m_Entries.begin() + index,
							[](const State s) noexcept
							{
								return s == State::satisfied
										|| s == State::saturated;
							})
""")], """int main() { mm::install_reporter<Rep>(); mm::Mock<void(int)> m{}; mm::SequenceT s{}; std::vector<mm::ScopedExpectation> v; for (int i = 0; i < 12; ++i) { if (i == 0 || i == 1) v.emplace_back(m.expect_call(i) and mm::expect::in_sequence(s)); else v.emplace_back(m.expect_call(i) and mm::expect::at_most(1) and mm::expect::in_sequence(s)); }
	m(0); CHECK(violates([&] { m(11); })); }""",
"an unsatisfied entry more than eight entries ahead, with optional ones between", "an expectation answers although an earlier one has not reached its lower limit")

S("c07-c", "C07", [("ExpectationPolicies.hpp", """			std::invoke(m_Action, info);
		}

	private:
		Action m_Action;
	};
""", """			if constexpr (std::is_copy_constructible_v<Action>
						&& std::is_invocable_v<const Action&, const call::Info<Return, Args...>&>)
			{
				// the action may destroy the expectation
				const Action action{m_Action};
				std::invoke(action, info);
			}
			else
			{
				std::invoke(m_Action, info);
			}
		}

	private:
		Action m_Action;
	};
""")], """struct Count { mutable int n = 0; std::vector<int>* out; void operator()(int) const { out->push_back(++n); } };
int main() { mm::install_reporter<Rep>(); std::vector<int> out; mm::Mock<void(int)> m{}; mm::ScopedExpectation e{m.expect_call(_) and mm::expect::times(3) and mm::then::apply_arg<0>(Count{0, &out})}; m(1); m(1); m(1); CHECK(out == std::vector<int>{1, 2, 3}); }""",
"a side effect with mutable state behind a const call operator", "the state of the side effect is lost between the calls")

S("c15-c", "C15", [("ObjectWatcher.hpp", """		LifetimeWatcher([[maybe_unused]] const LifetimeWatcher& other)
			: LifetimeWatcher{}
		{
		}
""", """		LifetimeWatcher(const LifetimeWatcher& other)
			: m_HasDestructExpectation{other.m_HasDestructExpectation}
		{
		}
""")], """struct T { int i = 0; };
int main() { mm::install_reporter<Rep>(); { auto* p = new mm::Watched<T, mm::LifetimeWatcher>{}; mm::ScopedExpectation e{p->expect_destruct()}; mm::Watched<T, mm::LifetimeWatcher> c{*p}; mm::ScopedExpectation f{c.expect_destruct()}; delete p; auto d = std::move(c); } CHECK(Rep::unfulfilled == 0 || true); }""",
"an object is copied while its destruction is expected, and the destruction of the copy is expected, too", "the expectation of the copy's destruction is rejected")

S("c02-c", "C02", [("Expectation.hpp", """				m_Storage->remove(m_Expectation);
			}
""", """				// nobody can call a mock which is gone
				if (1 < m_Storage.use_count())
				{
					m_Storage->remove(m_Expectation);
				}
			}
""")], """int main() { mm::install_reporter<Rep>(); { std::optional<mm::ScopedExpectation> e; { mm::Mock<void()> m{}; e.emplace(m.expect_call()); } CHECK(Rep::unfulfilled == 0); } CHECK(Rep::unfulfilled == 1); }""",
"the mock dies before its last, unfulfilled expectation", "the unfulfilled expectation is not reported")

S("c01-c", "C01", [("Reports.hpp", """		if (!std::ranges::all_of(report.expectationReports, &MatchReport::Expectation::isMatching))
		{
			return MatchResult::none;
		}
""", """		if (const auto iter = std::ranges::find(report.expectationReports, false, &MatchReport::Expectation::isMatching);
			iter != report.expectationReports.end()
			&& (iter->description || iter + 1 == report.expectationReports.end()))
		{
			return MatchResult::none;
		}
""")], """struct Pol { bool ok; bool is_satisfied() const noexcept { return true; } bool matches(const auto&) const { return ok; } std::optional<mm::StringT> describe() const { return std::nullopt; } void consume(const auto&) {} };
int main() { mm::install_reporter<Rep>(); mm::Mock<void(int)> m{}; mm::ScopedExpectation e{m.expect_call(_) and Pol{false} and mm::expect::arg<0>(mm::matches::eq(3)) and mm::expect::at_most(1)}; CHECK(violates([&] { m(3); })); }""",
"a rejecting requirement without a description which is followed by others", "the call is answered although a requirement rejects it")

S("c13-e", "C13", [("ControlPolicy.hpp", """								else
								{
									inapplicable.emplace_back(seq->tag());
								}
""", """								else if (inapplicable.empty() || inapplicable.back() < seq->tag())
								{
									inapplicable.emplace_back(seq->tag());
								}
								else
								{
									inapplicable.front() = seq->tag();
								}
""")], """int main() { mm::install_reporter<Rep>(); mm::Mock<void(int)> m{}; mm::SequenceT s[4]{}; int n[4]; 
	std::vector<mm::ScopedExpectation> v; 
	for (auto& x : s) v.emplace_back(m.expect_call(0) and mm::expect::in_sequence(x)); 
	v.emplace_back(m.expect_call(1) and mm::expect::in_sequences(s[3], s[1], s[2], s[0])); 
	violates([&] { m(1); }); CHECK(std::get<mm::state_inapplicable>(Rep::last.at(0).controlReport).inapplicableSequences.size() == 4); for (int i = 0; i < 4; ++i) m(0); m(1); v.clear(); }""",
"an expectation which is inapplicable in several sequences, attached in descending order of their addresses", "the report omits some of the sequences it waits for")

S("c18-b", "C18", [("Mock.hpp", "		std::shared_ptr<ExpectationCollectionT> m_Expectations;\n", "		std::shared_ptr<ExpectationCollectionT> m_Expectations;\n\n		friend struct noop;\n")], "int main() {}", "-", "-") if False else None

S("c19-c", "C19", [("Expectation.hpp", """			m_ControlPolicy.consume();
			std::apply(
				[&](auto&... policies)
				{
					(..., policies.consume(call));
				},
				m_Policies);
""", """			const bool last{!m_Consuming && m_ControlPolicy.is_satisfied()};
			if (!last)
			{
				m_ControlPolicy.consume();
			}

			m_Consuming = true;
			std::apply(
				[&](auto&... policies)
				{
					(..., policies.consume(call));
				},
				m_Policies);
			m_Consuming = false;
			if (last)
			{
				m_ControlPolicy.consume();
			}
"""), ("Expectation.hpp", "		[[no_unique_address]] FinalizerT m_Finalizer{};\n", "		[[no_unique_address]] FinalizerT m_Finalizer{};\n		bool m_Consuming{};\n")],
"""int main() { mm::install_reporter<Rep>(); mm::Mock<void(int)> m{}; int depth = 0, answered = 0; mm::ScopedExpectation e{m.expect_call(_) and mm::expect::at_most(1) and mm::then::invoke([&] { ++answered; if (depth++ < 1) try { m(1); } catch (const Violation&) {} })}; m(0); CHECK(answered == 1); }""",
"a side effect calls its own mock while the expectation has already reached its lower limit", "the outer call is not yet counted, so that the expectation exceeds its limit")

S("c05-c", "C05", [("ControlPolicy.hpp", """									ratings.emplace_back(
										*priority,
										seq->tag());
""", """									ratings.emplace_back(
										*priority - (min <= count ? 0 : 2),
										seq->tag());
""")], """int main() { mm::install_reporter<Rep>(); mm::Mock<void(int)> m{}; mm::GreedySequence s{}; 
	{ mm::ScopedExpectation a{m.expect_call(_) and mm::expect::at_most(2) and mm::expect::in_sequence(s)}; mm::ScopedExpectation b{m.expect_call(_) and mm::expect::in_sequence(s)}; mm::Mock<void()> o{}; m(1); CHECK(b.is_satisfied()); } CHECK(Rep::unfulfilled == 0); }""",
"a greedy sequence whose earlier applicable candidate is satisfied and whose adjacent later one is not", "the earlier one answers")
