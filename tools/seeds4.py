import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from seedlib import seed
only = sys.argv[1:]
def S(sid, *a, **k):
    if not only or sid in only:
        try: seed(sid, *a, **k)
        except AssertionError as e: print(e)

S("c03-c", "C03", [("Expectation.hpp", """					make_call_report(call),
					std::move(report));
				exp->consume(call);
""", """					make_call_report(call),
					std::move(report));
				promote(exp);
				exp->consume(call);
"""), ("Expectation.hpp", """		std::vector<std::shared_ptr<ExpectationT>> m_Expectations{};
		std::mutex m_ExpectationsMx{};
""", """		std::vector<std::shared_ptr<ExpectationT>> m_Expectations{};
		std::mutex m_ExpectationsMx{};
		std::size_t m_Hits{};

		// expectations answering again and again are found faster, when they are visited first
		void promote(const std::shared_ptr<ExpectationT>& expectation)
		{
			const std::scoped_lock lock{m_ExpectationsMx};
			if (8u < ++m_Hits)
			{
				m_Hits = 0u;
				if (const auto iter = std::ranges::find(m_Expectations, expectation);
					iter != std::ranges::end(m_Expectations))
				{
					std::ranges::rotate(iter, iter + 1, std::ranges::end(m_Expectations));
				}
			}
		}
""")], """int main() { mm::install_reporter<Rep>(); mm::Mock<int(int)> m{}; mm::ScopedExpectation a{m.expect_call(mm::matches::lt(2)) and mm::expect::at_least(0) and mm::finally::returns(1)}; mm::ScopedExpectation b{m.expect_call(mm::matches::ge(1)) and mm::expect::at_least(0) and mm::finally::returns(2)};
	for (int i = 0; i < 30; ++i) { CHECK(m(0) == 1); CHECK(m(1) == 2); } }""",
"an earlier expectation which answers the ninth call to its mock, and a later one accepting other calls of the same kind", "the earlier expectation is preferred from then on")

S("c04-d", "C04", [("Sequence.hpp", """				assert(is_consumable(id));

				m_Cursor = to_underlying(id);
""", """				assert(is_consumable(id));

				// elements with pending matches must not be skipped
				if (m_Entries[to_underlying(id)] != State::unsatisfied || m_Entries[m_Cursor] == State::saturated || m_Cursor == to_underlying(id) || m_Cursor + 1 < to_underlying(id))
				{
					m_Cursor = to_underlying(id);
				}
""")], """int main() { mm::install_reporter<Rep>(); mm::Mock<int(int)> m{}; mm::GreedySequence s{}; 
	mm::ScopedExpectation a{m.expect_call(1) and mm::expect::at_most(5) and mm::expect::in_sequence(s) and mm::finally::returns(1)}; mm::ScopedExpectation b{m.expect_call(2) and mm::expect::times(2) and mm::expect::in_sequence(s) and mm::finally::returns(2)};
	CHECK(m(1) == 1); CHECK(m(2) == 2); CHECK(violates([&] { m(1); })); CHECK(m(2) == 2); }""",
"an optional element directly before one which needs two calls and got only the first one", "the element which has been passed answers again")

S("c06-d", "C06", [("ObjectWatcher.hpp", """			if (std::exchange(m_HasDestructExpectation, true))
""", """			if (std::exchange(m_HasDestructExpectation, !m_HasDestructExpectation))
""")], """int main() { mm::install_reporter<Rep>(); struct T { ~T() noexcept(false) {} }; using W = mm::Watched<T, mm::LifetimeWatcher>; std::optional<W> w{std::in_place}; mm::ScopedExpectation e{w->expect_destruct()}; int rejected = 0; for (int i = 0; i < 3; ++i) try { auto b = w->expect_destruct(); } catch (const std::logic_error&) { ++rejected; } CHECK(rejected == 3); w.reset(); }""",
"a third attempt to expect the destruction of the same object", "it is accepted")

S("c07-d", "C07", [("ExpectationPolicies.hpp", """			throw m_Exception;  // NOLINT(hicpp-exception-baseclass)
""", """			if constexpr (std::derived_from<Exception, std::exception>)
			{
				// keep track of the exception, which is currently handled
				if (std::current_exception())
				{
					std::throw_with_nested(m_Exception);
				}
			}

			throw m_Exception;  // NOLINT(hicpp-exception-baseclass)
""")], """struct E final : std::runtime_error { using runtime_error::runtime_error; }; struct F : std::runtime_error { using runtime_error::runtime_error; };
int main() { mm::install_reporter<Rep>(); mm::Mock<void()> m{}; mm::ScopedExpectation e{m.expect_call() and mm::expect::twice() and mm::finally::throws(F{"x"})}; 
	try { m(); } catch (const F& f) { CHECK(typeid(f) == typeid(F)); } try { throw 1; } catch (...) { try { m(); } catch (const F& f) { CHECK(typeid(f) == typeid(F)); } } }""",
"an expectation throwing while another exception is being handled", "the thrown object is of another type and holds the exception being handled")

S("c13-f", "C13", [("Reporter.hpp", """				ss << "what: "
					<< e.what()
					<< "\\n";
""", """				const std::string_view what{e.what()};
				ss << "what: "
					<< what.substr(0u, what.find('\\n'))
					<< "\\n";
""")], """struct S { static void ok(const mm::StringT&) {} static void fail(const mm::StringT&) { throw 1; } static inline mm::StringT w; static void warn(const mm::StringT& s) { w = s; } };
constexpr auto ok = [](const mm::StringT&) {}; constexpr auto warn = [](const mm::StringT& s) { S::w = s; }; constexpr auto bad = [](const mm::StringT&) { throw 1; };
int main() { mm::install_reporter<mm::BasicReporter<ok, warn, bad>>(); mm::Mock<void(int)> m{}; mm::ScopedExpectation a{m.expect_call(_)}; mm::ScopedExpectation b{m.expect_call(mm::matches::predicate([](int) -> bool { throw std::runtime_error{"first\\nsecond"}; })) and mm::expect::at_most(1)}; m(1); CHECK(S::w.find("second") != S::w.npos); }""",
"a requirement throwing an exception whose message has several lines", "the text of the warning holds only the first one")

S("c16-c", "C16", [("Reporter.hpp", """	[[nodiscard]]
	inline std::unique_ptr<IReporter>& get_reporter() noexcept
	{
		static std::unique_ptr<IReporter> reporter{
""", """	[[nodiscard]]
	inline std::unique_ptr<IReporter>& get_reporter() noexcept
	{
		// reporters are owned by the thread which installed them
		static thread_local std::unique_ptr<IReporter> reporter{
""")], """#include <thread>
int main() { mm::install_reporter<Rep>(); mm::Mock<void(int)> m{}; bool v = false; std::thread{[&] { try { m(1); } catch (const Violation&) { v = true; } catch (...) {} }}.join(); CHECK(v); CHECK(Rep::none == 1); }""",
"a call made by another thread than the one which installed the reporter", "its violation is not reported to the installed reporter", libs="-pthread")

S("c16-d", "C16", [("Reporter.hpp", """			send_warning(
				detail::stringify_unhandled_exception(call, expectationReport, exception));
""", """			if (0 == std::uncaught_exceptions())
			{
				send_warning(
					detail::stringify_unhandled_exception(call, expectationReport, exception));
			}
""")], """int warned; constexpr auto ok = [](const mm::StringT&) {}; constexpr auto warn = [](const mm::StringT&) { ++warned; }; constexpr auto bad = [](const mm::StringT&) { throw 1; };
int main() { mm::install_reporter<mm::BasicReporter<ok, warn, bad>>(); mm::Mock<void(int)> m{}; mm::ScopedExpectation a{m.expect_call(_)}; mm::ScopedExpectation b{m.expect_call(mm::matches::predicate([](int) -> bool { throw std::runtime_error{"x"}; })) and mm::expect::at_most(1)}; 
	struct Guard { mm::Mock<void(int)>& m; ~Guard() { m(1); } }; try { Guard g{m}; throw 2; } catch (int) {} CHECK(warned == 1); }""",
"a requirement throws during a call made by a destructor while another exception is unwinding", "the contained exception is not reported")

S("c17-c", "C17", [("Expectation.hpp", """			for (const std::scoped_lock lock{m_ExpectationsMx};
				auto& exp : m_Expectations | std::views::reverse)
			{
""", """			// avoid locking, when there is nothing to be tested
			if (m_Expectations.empty())
			{
				detail::report_no_matches(
					make_call_report(call),
					{});
			}

			for (const std::scoped_lock lock{m_ExpectationsMx};
				auto& exp : m_Expectations | std::views::reverse)
			{
""")], """#include <thread>
int main() { mm::install_reporter<Rep>(); mm::Mock<void(int)> m{}; mm::ScopedExpectation keep{m.expect_call(0) and mm::expect::at_most(1)}; std::thread t{[&] { for (int i = 0; i < 200; ++i) { mm::ScopedExpectation e{m.expect_call(1) and mm::expect::at_most(1)}; } }}; for (int i = 0; i < 200; ++i) violates([&] { m(2); }); t.join(); }""",
"expectations created by one thread while another one calls", "data race", cc="clang++", flags="-fsanitize=thread", libs="-pthread")

S("c18-b", "C18", [("Expectation.hpp", """			// we must call the dtor manually here, because std::unique_ptr's dtor mustn't throw.
			delete m_Inner.release();
		}

		/**
""", """			// we must call the dtor manually here, because std::unique_ptr's dtor mustn't throw.
			if (Concept* const inner = m_Inner.release())
			{
				inner->~Concept();
				::operator delete(inner);
			}
		}

		/**
""")], """#include <new>
static int live; void* operator new(std::size_t n) { ++live; return std::malloc(n); } void operator delete(void* p) noexcept { if (p) --live; std::free(p); } void operator delete(void* p, std::size_t) noexcept { if (p) --live; std::free(p); }
struct R2 : Rep { void report_unfulfilled_expectation(mm::ExpectationReport) override { throw Violation{}; } };
void once() { mm::Mock<void()> m{}; try { mm::ScopedExpectation e{m.expect_call()}; } catch (const Violation&) {} }
int main() { mm::install_reporter<R2>(); once(); const int before = live; once(); CHECK(live == before); }""",
"the unfulfilled expectation is reported by an exception", "memory leak")

S("c10-d", "C10", [("Matcher.hpp", """				return std::ranges::is_permutation(
					target,
					range,
					std::ref(comp));
""", """				if constexpr (std::ranges::sized_range<Target> && std::ranges::random_access_range<Target>)
				{
					// the most common case: just a few elements differ in their position
					std::vector<bool> used(std::ranges::size(range), false);
					for (const auto& element : target)
					{
						const auto iter = std::ranges::find_if(
							range,
							[&](const auto& e) { return !used[std::ranges::distance(std::ranges::begin(range), std::ranges::find(range, std::addressof(e), [](const auto& x) { return std::addressof(x); }))] && std::invoke(comp, element, e); });
						if (iter == std::ranges::end(range))
						{
							return false;
						}
						used[std::ranges::distance(std::ranges::begin(range), iter)] = true;
					}

					return true;
				}

				return std::ranges::is_permutation(
					target,
					range,
					std::ref(comp));
""")], """int main() { std::vector<int> expected{1, 2, 3, 3}; auto m = mm::matches::range::unordered_eq(expected); std::vector<int> t{3, 1}; CHECK(!m.matches(t)); }""",
"an argument which is a proper sub-multiset of the expected elements", "it is accepted") if False else None

S("c10-d", "C10", [("Matcher.hpp", """				return std::ranges::all_of(
					target,
					[&](const auto& element) { return mimicpp::detail::matches_hook::matches(m, element); });
""", """				auto last = std::ranges::end(target);
				if constexpr (std::ranges::bidirectional_range<decltype(target)> && std::ranges::common_range<decltype(target)>)
				{
					// equal elements at the end don't have to be tested again
					if constexpr (std::equality_comparable<std::ranges::range_value_t<decltype(target)>>)
					{
						while (last != std::ranges::begin(target)
								&& std::ranges::next(std::ranges::begin(target), 1, last) != last
								&& *std::ranges::prev(last) == *std::ranges::begin(target))
						{
							--last;
						}
					}
				}

				return std::ranges::all_of(
					std::ranges::begin(target),
					last,
					[&](const auto& element) { return mimicpp::detail::matches_hook::matches(m, element); });
""")], """struct P { int key; int value; bool operator ==(const P& o) const { return key == o.key; } };
int main() { auto m = mm::matches::range::each_element(mm::matches::predicate([](const P& p) { return p.value > 0; })); std::vector<P> t{{1, 1}, {1, 0}}; CHECK(!m.matches(t)); }""",
"trailing elements which compare equal to the first one, although the inner matcher distinguishes them", "not all elements are asked")

S("c11-b", "C11", [("Matcher.hpp", """				auto patternView = detail::make_view(std::forward<Stored>(stored));
				const auto [ignore, patternIter] = std::ranges::mismatch(
					detail::make_view(std::forward<T>(target)),
					patternView);

				return patternIter == std::ranges::end(patternView);
""", """				auto patternView = detail::make_view(std::forward<Stored>(stored));
				auto targetView = detail::make_view(std::forward<T>(target));
				if (std::ranges::size(targetView) < std::ranges::size(patternView))
				{
					return false;
				}

				// just compare the raw characters
				return 0 == std::char_traits<char>::compare(
					reinterpret_cast<const char*>(std::ranges::data(targetView)),
					reinterpret_cast<const char*>(std::ranges::data(patternView)),
					std::ranges::size(patternView));
""")], """int main() { auto m = mm::matches::str::starts_with(std::u32string{U"ab"}); std::u32string t{U"axy"}; CHECK(!m.matches(t)); }""",
"strings with wide characters which differ only in the later part of the prefix", "starts_with compares only a part of the prefix")

S("c12-d", "C12", [("Printer.hpp", """				for (custom::Printer<string_char_t<String>> printer{};
					const string_char_t<String>& c : string_traits<String>::view(str))
				{
					out = printer.print(std::move(out), c);
				}
""", """				for (custom::Printer<string_char_t<String>> printer{};
					const string_char_t<String>& c : string_traits<String>::view(str))
				{
					out = printer.print(out, c);
				}
"""), ("Printer.hpp", """				auto iter = std::ranges::begin(view);
				if (const auto end = std::ranges::end(view);
					iter != end)
				{
					out = format::format_to(
						std::move(out),
						"{:#x}",
						to_dump(*iter++));
""", """				auto iter = std::ranges::begin(view);
				if (const auto end = std::ranges::find(view, string_char_t<String>{});
					iter != end)
				{
					out = format::format_to(
						std::move(out),
						"{:#x}",
						to_dump(*iter++));
""")], """int main() { using namespace std::string_literals; CHECK(mm::print(u"a\\0b"s) != mm::print(u"a"s)); }""",
"a string of wide characters with an embedded zero character", "printing ends at the first zero")

S("c15-d", "C15", [("ObjectWatcher.hpp", """			{
				LifetimeWatcher temp{std::move(*this)};
			}

			*this = LifetimeWatcher{other};
""", """			if (m_HasDestructExpectation)
			{
				LifetimeWatcher temp{std::move(*this)};
			}

			*this = LifetimeWatcher{other};
""")], """struct T { ~T() noexcept(false) {} T() = default; T(const T&) = default; T& operator=(const T&) = default; }; using W = mm::Watched<T, mm::LifetimeWatcher>;
int main() { mm::install_reporter<Rep>(); { W* a = new W{}; W* b = new W{}; mm::ScopedExpectation ea{a->expect_destruct()}; mm::ScopedExpectation eb{b->expect_destruct()}; delete b; delete a; } { std::optional<W> a{std::in_place}, b{std::in_place}; { mm::ScopedExpectation eb{b->expect_destruct()}; bool v = violates([&] { *a = *b; }); CHECK(v); b.reset(); } } }""",
"copy-assignment to a watched object whose destruction is not expected", "the end of its former value is not reported") if False else None

S("c15-d", "C15", [("ObjectWatcher.hpp", """			// explicitly circumvent default construct and assign, because that would
			// involve the move-assignment.
			m_RelocationMock = Mock<void()>{};
""", """			// both objects are interchangeable from now on, there is no need to replace a pending expectation
""")], """struct T { T() = default; T(const T&) {} T(T&&) noexcept(false) {} T& operator =(const T&) { return *this; } T& operator =(T&&) noexcept(false) { return *this; } }; using W = mm::Watched<T, mm::RelocationWatcher>;
int main() { mm::install_reporter<Rep>(); W a{}, b{}; mm::ScopedExpectation e{a.expect_relocate()}; a = b; CHECK(violates([&] { W c{std::move(a)}; })); }""",
"an object with a pending relocation expectation is copy-assigned before it is relocated", "the expectation of the former object is fulfilled by the new one")

S("c20-f", "C20", [("Expectation.hpp", """					[](const auto&... policies) noexcept
					{
						return (... && policies.is_satisfied());
					},
					m_Policies);
""", """					[&](const auto&... policies) noexcept
					{
						// policies which reached the upper limit can't be unsatisfied
						return m_ControlPolicy.is_saturated() || (... && policies.is_satisfied());
					},
					m_Policies);
""")] if False else [("Expectation.hpp", """				[&](auto&... policies)
				{
					(..., policies.consume(call));
				},
				m_Policies);
""", """				[&](auto&... policies)
				{
					// requirements do not have to be informed
					const auto inform = [&](auto& policy)
					{
						if constexpr (!std::is_empty_v<std::remove_reference_t<decltype(policy)>>)
						{
							policy.consume(call);
						}
					};

					(..., inform(policies));
				},
				m_Policies);
""")], """int informed; struct P { static bool is_satisfied() noexcept { return true; } static bool matches(const auto&) { return true; } static std::optional<mm::StringT> describe() { return "P"; } static void consume(const auto&) { ++informed; } };
int main() { mm::install_reporter<Rep>(); mm::Mock<void()> m{}; mm::ScopedExpectation e{m.expect_call() and P{}}; m(); CHECK(informed == 1); }""",
"a policy of the user without data members", "it is not informed about the call")

S("c02-d", "C02", [("Expectation.hpp", """			if (!expectation->is_satisfied())
			{
				detail::report_unfulfilled_expectation(
					expectation->report());
			}
""", """			// don't report the same unfulfilled line of code repeatedly
			if (!expectation->is_satisfied()
				&& std::ranges::none_of(m_Expectations, [&](const auto& other) { return is_same_source_location(other->from(), expectation->from()) && !other->is_satisfied(); }))
			{
				detail::report_unfulfilled_expectation(
					expectation->report());
			}
""")], """int main() { mm::install_reporter<Rep>(); mm::Mock<void()> m{}; { std::vector<mm::ScopedExpectation> v; for (int i = 0; i < 3; ++i) v.emplace_back(m.expect_call()); } CHECK(Rep::unfulfilled == 3); }""",
"several unfulfilled expectations set up by the same line of code", "only one of them is reported")

S("c08-c", "C08", [("ExpectationPolicies.hpp", """				[this](auto&... args) -> decltype(auto)
				{
					return std::invoke(
						m_Action,
						static_cast<ProjectedArgT<Args>>(
							args.get())...);
				},
				callInfo.args);
""", """				[this](auto&... args) -> decltype(auto)
				{
					if constexpr ((... && (std::is_empty_v<std::remove_cvref_t<Args>> && std::is_default_constructible_v<std::remove_cvref_t<Args>> && std::is_same_v<Args, std::remove_cvref_t<Args>>)) && std::is_same_v<std::invoke_result_t<const Action&, ProjectedArgT<Args>...>, void>)
					{
						// all objects of stateless types are equal
						return std::invoke(
							m_Action,
							static_cast<ProjectedArgT<Args>>(
								*std::addressof(stateless<std::remove_cvref_t<Args>>))...);
					}
					else
					{
						return std::invoke(
							m_Action,
							static_cast<ProjectedArgT<Args>>(
								args.get())...);
					}
				},
				callInfo.args);
"""), ("ExpectationPolicies.hpp", """namespace mimicpp::expectation_policies
{
	class InitFinalize
""", """namespace mimicpp::expectation_policies
{
	template <typename T>
	inline T stateless{};

	class InitFinalize
""")], """struct Tag {}; int main() { mm::install_reporter<Rep>(); mm::Mock<void(Tag)> m{}; const Tag* first = nullptr; const Tag* second = nullptr; mm::ScopedExpectation e{m.expect_call(mm::matches::predicate([&](const Tag& t) { first = &t; return true; })) and mm::then::apply_all([&](Tag& t) { second = &t; })}; m(Tag{}); CHECK(first == second); }""",
"all parameters are of empty class types taken by value", "the action does not get the objects of the call")
