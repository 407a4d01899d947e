import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from seedlib import seed
only = sys.argv[1:]
def S(sid, *a, **k):
    if not only or sid in only:
        try: seed(sid, *a, **k)
        except AssertionError as e: print(e)

S("c01-a", "C01", [("Expectation.hpp", "			if (!std::ranges::empty(inapplicableMatches))\n", "			if (std::ranges::size(inapplicableMatches) > std::ranges::size(noMatches) / 2)\n")],
"""int main() {
	mm::install_reporter<Rep>();
	mm::Mock<void(int)> m{};
	std::vector<mm::ScopedExpectation> rejecting;
	mm::ScopedExpectation used{m.expect_call(1)};
	for (int i = 2; i < 5; ++i) rejecting.emplace_back(m.expect_call(i) and mm::expect::at_most(1));
	m(1);
	CHECK(violates([&] { m(1); }));
	CHECK(Rep::inapplicable == 1 && Rep::none == 0);
}""", "a call accepted only by a used-up expectation while at least twice as many other live expectations reject it", "the call is reported as matching nothing instead of inapplicable")

S("c01-b", "C01", [("Expectation.hpp", """				detail::report_full_match(
					make_call_report(call),
					std::move(report));
				exp->consume(call);
""", """				exp->consume(call);
				detail::report_full_match(
					make_call_report(call),
					std::move(report));
""")],
"""int main() {
	mm::install_reporter<Rep>();
	mm::Mock<void(int&)> m{}; int v = 0, reportedBefore = -1;
	mm::ScopedExpectation e{m.expect_call(_) and mm::then::invoke([&] { reportedBefore = Rep::full; })};
	m(v);
	CHECK(reportedBefore == 1);
}""", "an observer which relates the report to the side effects (e.g. a side effect changing an argument, or calling the mock again)", "the full match is reported after the side effects of the call instead of before them")

S("c02-a", "C02", [("ControlPolicy.hpp", "		int m_Count{};\n", "		std::uint16_t m_Count{};\n")],
"""int main() {
	mm::install_reporter<Rep>();
	{
		mm::Mock<void()> m{}; mm::ScopedExpectation e{m.expect_call() and mm::expect::at_least(1)};
		for (int i = 0; i < 65536; ++i) m();
	}
	CHECK(Rep::unfulfilled == 0);
}""", "an expectation answers more than 65535 calls", "the count of answered calls wraps around, so that a satisfied expectation is reported as unfulfilled (and upper limits above are never reached)")

S("c02-b", "C02", [("ControlPolicy.hpp", "			std::numeric_limits<int>::max()\n", "			std::numeric_limits<int>::max() - (0 < min ? min : 0)\n")],
"""int main() {
	bool threw = false;
	try { (void)mm::expect::at_least(1); (void)mm::expect::at_least(1500000000); } catch (...) { threw = true; }
	CHECK(!threw);
}""", "at_least with a limit above half of the largest int", "a valid call limit is rejected")

S("c03-a", "C03", [("Expectation.hpp", "			m_Expectations.erase(iter);\n", "			*iter = std::move(m_Expectations.back());\n			m_Expectations.pop_back();\n")],
"""int main() {
	mm::install_reporter<Rep>();
	mm::Mock<int()> m{};
	mm::ScopedExpectation a{m.expect_call() and mm::expect::at_least(0) and mm::finally::returns(1)};
	std::optional<mm::ScopedExpectation> old{std::in_place, m.expect_call() and mm::expect::at_least(0) and mm::finally::returns(2)};
	mm::ScopedExpectation b{m.expect_call() and mm::expect::at_least(0) and mm::finally::returns(3)};
	mm::ScopedExpectation c{m.expect_call() and mm::expect::at_least(0) and mm::finally::returns(4)};
	CHECK(m() == 4);
	old.reset();
	CHECK(m() == 4);
}""", "an expectation which is not among the two latest ones is destroyed out of order", "the order of creation gets lost: an earlier expectation answers")

S("c03-b", "C03", [("Expectation.hpp", "			m_Expectations.emplace_back(std::move(expectation));\n", "			// reuse the slot of an expectation of the same location (e.g. set up in a loop)\n			const auto pos = std::ranges::find_if(\n				m_Expectations,\n				[&](const auto& el) { return el->is_satisfied() && el->from().line() == expectation->from().line(); });\n			m_Expectations.insert(pos, std::move(expectation));\n")],
"""int main() {
	mm::install_reporter<Rep>();
	mm::Mock<int()> m{};
	std::vector<mm::ScopedExpectation> v;
	for (int i = 0; i < 3; ++i)
	{
		v.emplace_back(m.expect_call() and mm::expect::at_least(0) and mm::finally::returns(i));
		CHECK(m() == i);
	}
}""", "several satisfied but still usable expectations set up by the same line of code", "an earlier expectation is preferred to the latest one")

S("c04-a", "C04", [("Sequence.hpp", "							m_Entries.begin() + m_Cursor,\n							m_Entries.begin() + index,\n", "							m_Entries.begin() + std::max(m_Cursor, index - 1),\n							m_Entries.begin() + index,\n")],
"""int main() {
	mm::install_reporter<Rep>();
	mm::Mock<void(int)> m{}; mm::SequenceT s{};
	mm::ScopedExpectation a{m.expect_call(1) and mm::expect::in_sequence(s)};
	mm::ScopedExpectation b{m.expect_call(2) and mm::expect::in_sequence(s) and mm::expect::at_most(1)};
	mm::ScopedExpectation c{m.expect_call(3) and mm::expect::in_sequence(s) and mm::expect::at_most(1)};
	CHECK(violates([&] { m(3); }));
	m(1); m(3);
}""", "an unsatisfied entry is followed by an optional one, and the entry after both is called", "a sequenced expectation answers although an earlier one has not reached its lower limit")

S("c04-b", "C04", [("Sequence.hpp", "					m_Entries.cbegin() + m_Cursor,\n					m_Entries.cend(),\n					[](const State s) noexcept\n					{\n						return s == State::satisfied\n								|| s == State::saturated;\n					});\n\n				if (iter", "					m_Entries.cbegin() + m_Cursor,\n					m_Entries.cend(),\n					[](const State s) noexcept\n					{\n						return s == State::satisfied\n								|| s == State::saturated;\n					});\n\n				if (iter != m_Entries.cbegin() + m_Cursor + 1\n					&& iter")],
"""int main() {
	mm::install_reporter<Rep>();
	{
		mm::Mock<void(int)> m{}; mm::SequenceT s{};
		mm::ScopedExpectation a{m.expect_call(1) and mm::expect::in_sequence(s)};
		mm::ScopedExpectation b{m.expect_call(2) and mm::expect::in_sequence(s)};
		m(1);
	}
	CHECK(Rep::unfulfilled == 1);
	CHECK(Rep::error == 1);
}""", "a sequence ends when the entry answered last is satisfied and the very next one is not", "the unfulfilled sequence is not reported")

S("c05-a", "C05", [("Expectation.hpp", "			if (!sequence::detail::has_better_rating(\n", "			// nothing is older than an expectation outside of any sequence, what could be preferred\n			if (std::ranges::empty(ratings(*iter)))\n			{\n				break;\n			}\n\n			if (!sequence::detail::has_better_rating(\n")],
"""int main() {
	mm::install_reporter<Rep>();
	mm::Mock<int()> m{}; mm::SequenceT s{};
	mm::ScopedExpectation a{m.expect_call() and mm::expect::in_sequence(s) and mm::expect::at_most(1) and mm::finally::returns(1)};
	mm::ScopedExpectation b{m.expect_call() and mm::expect::at_most(1) and mm::finally::returns(2)};
	mm::ScopedExpectation c{m.expect_call() and mm::expect::in_sequence(s) and mm::expect::at_most(1) and mm::finally::returns(3)};
	CHECK(m() == 1);
}""", "an unsequenced candidate has been created between two candidates of one lazy sequence", "the later entry of the lazy sequence answers although the earlier one is still applicable")

S("c05-b", "C05", [("Sequence.hpp", "				return static_cast<int>(index) - cursor;", "				return static_cast<std::int8_t>(index - cursor);")],
"""int main() {
	mm::install_reporter<Rep>();
	mm::Mock<int()> m{}; mm::GreedySequence s{};
	std::vector<mm::ScopedExpectation> v;
	for (int i = 0; i < 140; ++i) v.emplace_back(m.expect_call() and mm::expect::in_sequence(s) and mm::expect::at_most(1) and mm::finally::returns(i));
	CHECK(m() == 139);
}""", "a greedy sequence with more than 127 entries ahead of its position", "priorities wrap around: not the latest entry answers")

S("c06-a", "C06", [("Sequence.hpp", "					std::ranges::sort(tags);\n", "")],
"""int main() {
	mm::install_reporter<Rep>();
	mm::Mock<void()> m{}; mm::SequenceT a{}, b{};
	bool threw = false;
	try { mm::ScopedExpectation e{m.expect_call() and mm::expect::in_sequences(a, b) and mm::expect::in_sequence(a) and mm::expect::at_most(1)}; } catch (const std::invalid_argument&) { threw = true; }
	CHECK(threw);
}""", "the duplicate sequence is not attached directly after its first occurrence", "attaching an expectation to the same sequence twice is accepted")

S("c06-b", "C06", [("ObjectWatcher.hpp", "		LifetimeWatcher(LifetimeWatcher&&) = default;", "		LifetimeWatcher(LifetimeWatcher&& other) noexcept\n			: m_DestructionMock{std::move(other.m_DestructionMock)}\n		{\n		}")],
"""struct T { ~T() noexcept(false) {} T() = default; T(T&&) = default; };
int main() {
	mm::install_reporter<Rep>();
	mm::Watched<T, mm::LifetimeWatcher> a{};
	mm::ScopedExpectation e{a.expect_destruct()};
	mm::Watched<T, mm::LifetimeWatcher> b{std::move(a)};
	bool threw = false;
	try { (void)b.expect_destruct(); } catch (const std::logic_error&) { threw = true; }
	CHECK(threw);
}""", "the destruction of an object is expected, the object is moved, and its destruction is expected again", "the second destruction expectation is accepted")

S("c07-a", "C07", [("ExpectationPolicies.hpp", "			throw m_Exception;  // NOLINT(hicpp-exception-baseclass)", "			throw std::move(m_Exception);  // NOLINT(hicpp-exception-baseclass)")],
"""int main() {
	mm::install_reporter<Rep>();
	mm::Mock<int()> m{};
	mm::ScopedExpectation e{m.expect_call() and mm::expect::twice() and mm::finally::throws(std::string(100, 'x'))};
	for (int i = 0; i < 2; ++i) { try { (void)m(); CHECK(false); } catch (const std::string& s) { CHECK(s.size() == 100); } }
}""", "an exception object owning resources is thrown by more than one call", "later calls throw a moved-from exception object")

S("c07-b", "C07", [("ExpectationPolicies.hpp", "			[v = std::forward<T>(value)]([[maybe_unused]] const auto& call) mutable noexcept -> auto& {\n				return static_cast<std::unwrap_reference_t<decltype(v)>&>(v);", "			[v = std::forward<T>(value)]<typename Return, typename... Params>([[maybe_unused]] const call::Info<Return, Params...>& call) mutable noexcept -> decltype(auto) {\n				// values of class types can be handed over directly\n				if constexpr (std::is_class_v<T> && std::same_as<T, Return>)\n				{\n					return static_cast<T&&>(v);\n				}\n				else\n				{\n					return static_cast<std::unwrap_reference_t<decltype(v)>&>(v);\n				}")],
"""int main() {
	mm::install_reporter<Rep>();
	mm::Mock<std::string()> m{};
	mm::ScopedExpectation e{m.expect_call() and mm::expect::twice() and mm::finally::returns(std::string(100, 'x'))};
	CHECK(m() == std::string(100, 'x'));
	CHECK(m() == std::string(100, 'x'));
}""", "a class type value, given as an rvalue, is returned by more than one call", "later calls return a moved-from value")

S("c08-a", "C08", [("ExpectationPolicies.hpp", "		using ActionT = expectation_policies::ApplyAllArgsAction<\n			std::remove_cvref_t<Action>,\n			std::add_lvalue_reference_t>;\n\n		return expectation_policies::SideEffectAction", "		using ActionT = expectation_policies::ApplyAllArgsAction<\n			std::remove_cvref_t<Action>,\n			std::add_rvalue_reference_t>;\n\n		return expectation_policies::SideEffectAction")],
"""int main() {
	mm::install_reporter<Rep>();
	mm::Mock<std::size_t(std::string)> m{}; std::size_t n = 0;
	mm::ScopedExpectation e{m.expect_call(_) and mm::then::apply_all([&](auto&& s) { std::string copy{std::forward<decltype(s)>(s)}; n = copy.size(); }) and mm::finally::returns_apply_result_of<0>([](const std::string& s) { return s.size(); })};
	CHECK(m(std::string(100, 'x')) == 100);
	CHECK(n == 100);
}""", "a generic action of apply_all forwards its argument, and a later action or the result uses the same by-value parameter", "later actions see a moved-from argument")

S("c08-b", "C08", [("ExpectationPolicies.hpp", "		using ActionT = expectation_policies::ApplyArgsAction<\n			std::remove_cvref_t<Action>,\n			std::add_lvalue_reference_t,\n			index,\n			otherIndices...>;", "		using ActionT = expectation_policies::ApplyArgsAction<\n			std::remove_cvref_t<Action>,\n			std::add_rvalue_reference_t,\n			index,\n			otherIndices...>;")],
"""int main() {
	mm::install_reporter<Rep>();
	mm::Mock<std::string(std::string)> m{};
	mm::ScopedExpectation e{m.expect_call(_) and mm::finally::returns_apply_result_of<0>([](auto&& s) { static_assert(true); std::string copy{std::forward<decltype(s)>(s)}; return std::is_lvalue_reference_v<decltype(s)> ? copy : std::string{"moved"}; })};
	CHECK(m("abc") == "abc");
}""", "a generic action of returns_apply_result_of observing the value category of a by-value parameter", "the action receives rvalues and may move from the argument")

S("c09-a", "C09", [("Mock.hpp", "	class MockFrontend<Return(Params...) const & noexcept>\n		: protected BasicMockFrontend<\n			ValueCategory::lvalue,\n			Constness::as_const,\n			Return,\n			Params...>\n	{\n		using SuperT = BasicMockFrontend<\n			ValueCategory::lvalue,", "	class MockFrontend<Return(Params...) const & noexcept>\n		: protected BasicMockFrontend<\n			ValueCategory::any,\n			Constness::as_const,\n			Return,\n			Params...>\n	{\n		using SuperT = BasicMockFrontend<\n			ValueCategory::any,")],
"""int main() {
	mm::install_reporter<Rep>();
	mm::Mock<int(int) const & noexcept, int(int) const &&> m{};
	mm::ScopedExpectation e{std::as_const(m).expect_call(1) and mm::expect::at_most(1) and mm::finally::returns(7)};
	CHECK(violates([&] { (void)std::move(std::as_const(m))(1); }));
}""", "an overload set with a const & noexcept and a const && overload of the same parameters", "an expectation of the const & overload answers a call of the const && overload")

S("c10-a", "C10", [("Matcher.hpp", "			std::greater_equal{},\n", "			std::not_fn(std::less{}),\n")],
"""#include <limits>
int main() {
	const double nan = std::numeric_limits<double>::quiet_NaN();
	auto m = mm::matches::ge(1.0); double v = nan;
	CHECK(!m.matches(v));
}""", "a floating point argument which is not a number", "ge accepts values which are not ordered with the expected one")

S("c10-b", "C10", [("Matcher.hpp", "				return std::ranges::is_permutation(\n					target,\n					range,\n					std::ref(comp));", "				return std::ranges::distance(target) == std::ranges::distance(range)\n						&& std::ranges::all_of(\n							range,\n							[&](const auto& el) { return std::ranges::any_of(target, [&](const auto& other) { return std::invoke(comp, other, el); }); });")],
"""int main() {
	auto m = mm::matches::range::unordered_eq(std::vector<int>{1, 2, 2, 3}); std::vector<int> v{1, 2, 3, 3};
	CHECK(!m.matches(v));
}""", "ranges of equal length with repeated elements in different multiplicity", "unordered_eq accepts a range which is no permutation of the expected one")

S("c11-a", "C11", [("Matcher.hpp", """				auto patternView = detail::make_case_folded_string(std::forward<Stored>(stored));
				auto targetView = detail::make_case_folded_string(std::forward<T>(target));
				return std::ranges::empty(patternView)
						|| !std::ranges::empty(std::ranges::search(targetView, patternView));""", """				auto patternView = detail::make_case_folded_string(std::forward<Stored>(stored));
				auto targetView = detail::make_case_folded_string(std::forward<T>(target));

				auto patternIter = std::ranges::begin(patternView);
				for (const auto c : targetView)
				{
					if (patternIter == std::ranges::end(patternView))
					{
						break;
					}

					if (c == *patternIter)
					{
						++patternIter;
					}
					else
					{
						patternIter = std::ranges::begin(patternView);
						if (c == *patternIter)
						{
							++patternIter;
						}
					}
				}

				return patternIter == std::ranges::end(patternView);""")],
"""int main() {
	auto m = mm::matches::str::contains("aab", mm::case_insensitive); std::string v{"aAAB"};
	CHECK(m.matches(v));
}""", "an occurrence which begins within a failed partial occurrence (e.g. aab in aaab)", "case-insensitive contains misses occurrences")

S("c12-a", "C12", [("Printer.hpp", "				\"{}[{}:{}], {}\",\n				loc.file_name(),\n				loc.line(),\n				loc.column(),", "				\"{}[{}:{}], {}\",\n				loc.file_name(),\n				loc.line(),\n				static_cast<std::uint8_t>(loc.column()),")],
"""int main() {
	const std::source_location loc =                                                                                                                                                                                                                                                                    std::source_location::current();
	CHECK(mm::print(loc).find(std::to_string(loc.line()) + ":" + std::to_string(loc.column()) + "]") != mm::StringT::npos);
}""", "a source location beyond column 255", "the printed column is wrong")

S("c12-b", "C12", [("Printer.hpp", "					StringViewT{\n						std::ranges::data(view),\n						std::ranges::size(view)\n					});", "					StringViewT{std::ranges::data(view)});")],
"""int main() {
	CHECK(mm::print(std::string("a\\0b", 3)) != mm::print(std::string("a\\0c", 3)));
	const std::string s{"abcdef"};
	CHECK(mm::print(std::string_view{s}.substr(0, 2)) == "\\"ab\\"");
}""", "a view of a part of a string, or a string with an embedded zero character", "the printed text does not end with the string")

S("c13-a", "C13", [("Reports.hpp", "					| std::views::filter([](const auto& desc) { return desc.has_value(); }))", "					| std::views::drop_while([](const auto& desc) { return !desc.has_value(); })\n					| std::views::take_while([](const auto& desc) { return desc.has_value(); }))")],
"""struct R2 : Rep { static inline mm::StringT text; void report_unfulfilled_expectation(mm::ExpectationReport r) override { text = mm::print(r); } };
int main() {
	mm::install_reporter<R2>();
	mm::Mock<void(int, int)> m{};
	{ mm::ScopedExpectation e{m.expect_call(_, mm::matches::ge(41)) and mm::then::invoke([] {}) and mm::expect::arg<0>(mm::matches::lt(1337))}; }
	CHECK(R2::text.find("41") != mm::StringT::npos);
	CHECK(R2::text.find("1337") != mm::StringT::npos);
}""", "an unfulfilled expectation has a requirement attached after a side effect", "the text omits the requirements after the first part without a description")

S("c13-b", "C13", [("Reports.hpp", "							.typeIndex = typeid(Params),", "							.typeIndex = typeid(args.get()),")],
"""struct B { virtual ~B() = default; }; struct D : B {};
struct R2 : Rep { static inline std::type_index t{typeid(void)}; void report_full_match(mm::CallReport c, mm::MatchReport) noexcept override { t = c.argDetails.at(0).typeIndex; } };
int main() {
	mm::install_reporter<R2>();
	mm::Mock<void(const B&)> m{}; mm::ScopedExpectation e{m.expect_call(_)};
	m(D{});
	CHECK(R2::t == typeid(const B&));
}""", "a polymorphic argument whose dynamic type differs from the parameter's", "the reported type is not the parameter's but the dynamic one")

S("c14-a", "C14", [("Expectation.hpp", "				expectation.report(),\n				std::current_exception());\n		}\n", "				expectation.report(),\n				std::current_exception());\n\n			return MatchReport{\n				.sourceLocation = expectation.from(),\n				.expectationReports = {{.isMatching = false, .description = \"unhandled exception\"}}\n			};\n		}\n")],
"""int main() {
	mm::install_reporter<Rep>();
	mm::Mock<void(int)> m{};
	mm::ScopedExpectation e{m.expect_call(mm::matches::predicate([](int) -> bool { throw 1; })) and mm::expect::at_most(1)};
	mm::ScopedExpectation f{m.expect_call(2) and mm::expect::at_most(1)};
	CHECK(violates([&] { m(1); }));
	CHECK(Rep::unhandled == 1 && Rep::last.size() == 1);
}""", "a requirement throws during a call which nothing answers", "the expectation which threw is listed as rejecting the call")

S("c14-b", "C14", [("Expectation.hpp", "						matches.emplace_back(exp, *std::move(matchReport));\n						break;\n					// GCOVR_EXCL_START\n					default:\n						unreachable();\n					// GCOVR_EXCL_STOP\n					}\n				}\n", "						matches.emplace_back(exp, *std::move(matchReport));\n						break;\n					// GCOVR_EXCL_START\n					default:\n						unreachable();\n					// GCOVR_EXCL_STOP\n					}\n				}\n				else\n				{\n					inapplicableMatches.clear();\n				}\n")],
"""int main() {
	mm::install_reporter<Rep>();
	mm::Mock<void(int)> m{};
	mm::ScopedExpectation e{m.expect_call(mm::matches::predicate([](int) -> bool { throw 1; })) and mm::expect::at_most(1)};
	mm::ScopedExpectation f{m.expect_call(2) and mm::expect::at_most(0)};
	CHECK(violates([&] { m(2); }));
	CHECK(Rep::inapplicable == 1 && Rep::none == 0);
}""", "a throwing expectation older than a used-up one accepting the call", "the call is reported as matching nothing: the throwing expectation disturbs the dispatch")

S("c15-a", "C15", [("ObjectWatcher.hpp", "			if (const auto destruction = std::exchange(\n				m_DestructionMock,\n				nullptr))\n", "			// reporting must not interfere with an exception, which is already on its way\n			if (const auto destruction = std::exchange(\n					m_DestructionMock,\n					nullptr);\n				destruction && 0 == std::uncaught_exceptions())\n")],
"""struct T { ~T() noexcept(false) {} };
int main() {
	mm::install_reporter<Rep>();
	{
		std::optional<mm::ScopedExpectation> e;
		try { mm::Watched<T, mm::LifetimeWatcher> a{}; e.emplace(a.expect_destruct()); throw 1; } catch (int) {}
		CHECK(Rep::full == 1);
	}
	CHECK(Rep::unfulfilled == 0);
}""", "a watched object with a destruction expectation is destroyed during stack unwinding", "the destruction is not noticed and the expectation is reported as unfulfilled")
S("c15-b", "C15", [("ObjectWatcher.hpp", "			CombinedWatchers& operator =(CombinedWatchers&& other) noexcept(std::is_nothrow_move_assignable_v<Base>) = default;", "			CombinedWatchers& operator =(CombinedWatchers&& other) noexcept(std::is_nothrow_move_constructible_v<Base>) = default;")],
"""struct B { B() = default; B(B&&) noexcept {} B& operator=(B&&) noexcept(false) { return *this; } };
int main() {
	mm::install_reporter<Rep>();
	mm::Watched<B, mm::RelocationWatcher> a{}, b{};
	CHECK(violates([&] { a = std::move(b); }));
}""", "the move-constructor of the watched type is noexcept, its move-assignment is not, and an unexpected move-assignment happens", "the program terminates instead of reporting through the exception of the reporter")

S("c16-a", "C16", [("Reporter.hpp", "		void report_unfulfilled_expectation(\n			ExpectationReport expectationReport\n		) override\n		{\n			if (0 == std::uncaught_exceptions())", "		void report_unfulfilled_expectation(\n			ExpectationReport expectationReport\n		) override\n		{\n			if (nullptr == std::current_exception())")],
"""int main() {
	mm::install_reporter<mm::DefaultReporter>();
	bool reported = false;
	try { throw 1; }
	catch (int)
	{
		try { mm::Mock<void()> m{}; mm::ScopedExpectation e{m.expect_call()}; } catch (const mm::UnfulfilledExpectationT&) { reported = true; }
	}
	CHECK(reported);
}""", "an expectation is dropped unfulfilled inside a handler of an unrelated, already caught exception", "the violation is not reported (or the program terminates while another exception is unwinding)")

S("c16-b", "C16", [("Reporter.hpp", "		void report_error(const StringT message) override\n		{\n			if (0 == std::uncaught_exceptions())\n			{\n				send_fail(message);\n			}", "		void report_error(const StringT message) override\n		{\n			if (0 == std::uncaught_exceptions())\n			{\n				send_warning(message);\n			}")],
"""int fails, warns;
void onSuccess(const mm::StringT&) {} void onWarning(const mm::StringT&) { ++warns; } void onFail(const mm::StringT&) { ++fails; throw 1; }
int main() {
	mm::BasicReporter<&onSuccess, &onWarning, &onFail> r{}; mm::IReporter& i = r;
	try { i.report_error("x"); } catch (int) {}
	CHECK(fails == 1 && warns == 0);
}""", "a sequence ends unfulfilled under a test framework's adapter", "the violation is only a warning: the test does not fail")

S("c17-a", "C17", [("Expectation.hpp", "			const std::scoped_lock lock{m_ExpectationsMx};\n\n			auto iter = std::ranges::find(m_Expectations, expectation);\n			assert(iter != std::ranges::end(m_Expectations) && \"Expectation does not belong to this storage.\");\n			m_Expectations.erase(iter);", "			auto iter = std::invoke(\n				[&]\n				{\n					const std::scoped_lock lock{m_ExpectationsMx};\n					return std::ranges::find(m_Expectations, expectation);\n				});\n			assert(iter != std::ranges::end(m_Expectations) && \"Expectation does not belong to this storage.\");\n			m_Expectations.erase(iter);")],
"""#include <thread>
int main() {
	mm::install_reporter<Rep>();
	mm::Mock<void(int)> m{};
	const auto run = [&](int id) { for (int i = 0; i < 2000; ++i) { mm::ScopedExpectation a{m.expect_call(id) and mm::expect::at_most(1)}; mm::ScopedExpectation b{m.expect_call(id) and mm::expect::at_most(1)}; } };
	std::thread t1{run, 1}, t2{run, 2}; t1.join(); t2.join();
}""", "two threads destroying expectations of one mock at the same time", "the list of expectations is modified outside of the lock", flags="-fsanitize=thread", libs="-pthread", cc="clang++")

S("c17-b", "C17", [("Printer.hpp", "			StringStreamT stream{};\n			std::invoke(\n				*this,", "			static StringStreamT stream{};\n			stream.str({});\n			std::invoke(\n				*this,")],
"""#include <thread>
int main() {
	const auto run = [](int id) { for (int i = 0; i < 5000; ++i) { CHECK(mm::print(id) == std::to_string(id)); } };
	std::thread t1{run, 11111}, t2{run, 22222}; t1.join(); t2.join();
}""", "two threads printing (e.g. calling independent mocks) at the same time", "a buffer is shared by all threads", flags="-fsanitize=thread", libs="-pthread", cc="clang++")

S("c18-a", "C18", [("ControlPolicy.hpp", "			std::tuple<std::shared_ptr<Sequences>, sequence::Id>...> m_Sequences{};", "			std::tuple<Sequences*, sequence::Id>...> m_Sequences{};"),
                   ("ControlPolicy.hpp", "	constexpr std::tuple<std::tuple<std::shared_ptr<Sequences>, sequence::Id>...> make_sequence_entries(", "	constexpr std::tuple<std::tuple<Sequences*, sequence::Id>...> make_sequence_entries("),
                   ("ControlPolicy.hpp", "		std::tuple<std::tuple<std::shared_ptr<Sequences>, sequence::Id>...> result{};", "		std::tuple<std::tuple<Sequences*, sequence::Id>...> result{};"),
                   ("ControlPolicy.hpp", "				std::tuple{\n					std::get<indices>(sequences),\n", "				std::tuple{\n					std::get<indices>(sequences).get(),\n")],
"""int main() {
	mm::install_reporter<Rep>();
	mm::Mock<void()> m{}; auto s = std::make_unique<mm::SequenceT>();
	mm::ScopedExpectation a{m.expect_call() and mm::expect::in_sequence(*s)};
	s.reset();
	m();
}""", "a sequence object is destroyed before an expectation attached to it is used", "access to freed memory", flags="-fsanitize=address")

S("c19-a", "C19", [("Expectation.hpp", "			m_ControlPolicy.consume();\n			std::apply(\n				[&](auto&... policies)\n				{\n					(..., policies.consume(call));\n				},\n				m_Policies);", "			std::apply(\n				[&](auto&... policies)\n				{\n					(..., policies.consume(call));\n				},\n				m_Policies);\n			m_ControlPolicy.consume();")],
"""int main() {
	mm::install_reporter<Rep>();
	mm::Mock<void(int)> m{}; int nested = 0;
	mm::ScopedExpectation a{m.expect_call(1) and mm::expect::once() and mm::then::invoke([&] { if (nested++ < 3) { if (violates([&] { m(1); })) nested += 10; } })};
	m(1);
	CHECK(nested == 11 && Rep::full == 1);
}""", "a side effect calls the same mock again", "the expectation is not counted as used while its side effects run, so that it exceeds its limit", flags="-DNDEBUG")

S("c19-b", "C19", [("Expectation.hpp", "			for (const std::scoped_lock lock{m_ExpectationsMx};\n				auto& exp : m_Expectations | std::views::reverse)\n", "			std::unique_lock lock{m_ExpectationsMx};\n			for (auto& exp : m_Expectations | std::views::reverse)\n"),
                   ("Expectation.hpp", "				exp->consume(call);\n				return exp", "				exp->consume(call);\n				lock.unlock();\n				return exp")],
"""#include <unistd.h>
int main() {
	mm::install_reporter<Rep>(); alarm(5);
	mm::Mock<void(int)> m{};
	mm::ScopedExpectation b{m.expect_call(2)};
	mm::ScopedExpectation a{m.expect_call(1) and mm::then::invoke([&] { m(2); })};
	m(1);
}""", "a side effect uses the mock again", "deadlock")
