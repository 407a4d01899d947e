import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from seedlib import seed
only = sys.argv[1:]
def S(sid, *a, **k):
    if not only or sid in only:
        try: seed(sid, *a, **k)
        except AssertionError as e: print(e)

S("c20-a", "C20", [("Expectation.hpp", "							return (... && policies.is_satisfied());\n", "							bool satisfied{true};\n							(..., (satisfied = policies.is_satisfied()));\n							return satisfied;\n")],
"""struct Pol { bool* ok; bool is_satisfied() const noexcept { return *ok; } bool matches(const auto&) const { return true; } std::optional<mm::StringT> describe() const { return std::nullopt; } void consume(const auto&) {} };
int main() {
	mm::install_reporter<Rep>();
	bool first = false, second = true;
	{
		mm::Mock<void(int)> m{};
		mm::ScopedExpectation e{m.expect_call(_) and Pol{&first} and Pol{&second} and mm::expect::once()};
		m(1);
		CHECK(!e.is_satisfied());
	}
	CHECK(Rep::unfulfilled == 1);
}""", "a user policy that is not satisfied, attached before another policy", "only the policy attached last decides whether the policies of an expectation are satisfied")

S("c20-b", "C20", [("Printer.hpp", """		printer_for<OutIter, T> Printer = custom::Printer<std::remove_cvref_t<T>>>
	OutIter print(
		OutIter out,
		T&& value,
		[[maybe_unused]] const priority_tag<4>
""", """		printer_for<OutIter, T> Printer = custom::Printer<std::remove_cvref_t<T>>>
	OutIter print(
		OutIter out,
		T&& value,
		[[maybe_unused]] const priority_tag<3>
"""), ("Printer.hpp", """		printer_for<OutIter, T> Printer = Printer<std::remove_cvref_t<T>>>
	OutIter print(
		OutIter out,
		T&& value,
		[[maybe_unused]] const priority_tag<3>
""", """		printer_for<OutIter, T> Printer = Printer<std::remove_cvref_t<T>>>
		requires (string<std::remove_cvref_t<T>> || !printer_for<custom::Printer<std::remove_cvref_t<T>>, OutIter, T>)
	OutIter print(
		OutIter out,
		T&& value,
		[[maybe_unused]] const priority_tag<4>
""")],
"""struct Name { std::string s; };
template <> struct mm::string_traits<Name> { using char_t = char; using view_t = std::string_view; static view_t view(const Name& n) { return n.s; } };
template <> class mm::custom::Printer<Name> { public: static auto print(auto out, const Name& n) { return mm::format::format_to(std::move(out), "<{}>", n.s.size()); } };
int main() { CHECK(mm::print(Name{"abc"}) == "<3>"); }""", "a user type which is a string (by string_traits) and also has a printer of the user", "the internal string printer is preferred over the printer of the user")

S("c20-c", "C20", [("Matcher.hpp", """		[[maybe_unused]] const priority_tag<1>
	)
		requires requires
		{
			{
				custom::matcher_traits<Matcher>{}.describe(matcher)
			} -> std::convertible_to<StringViewT>;
		}
""", """		[[maybe_unused]] const priority_tag<0>
	)
		requires requires
		{
			{
				custom::matcher_traits<Matcher>{}.describe(matcher)
			} -> std::convertible_to<StringViewT>;
		}
"""), ("Matcher.hpp", """		[[maybe_unused]] const priority_tag<0>
	)
		requires requires { { matcher.describe() } -> std::convertible_to<StringViewT>; }
""", """		[[maybe_unused]] const priority_tag<1>
	)
		requires requires { { matcher.describe() } -> std::convertible_to<StringViewT>; }
""")],
"""struct Mt { bool matches(int) const { return true; } const char* describe() const { return "own"; } };
template <> struct mm::custom::matcher_traits<Mt> { bool matches(const Mt&, int& v) const { return v == 2; } const char* describe(const Mt&) const { return "traits"; } };
int main() {
	mm::install_reporter<Rep>();
	mm::Mock<void(int)> m{};
	mm::ScopedExpectation e{m.expect_call(Mt{}) and mm::expect::at_most(2)};
	m(2);
	CHECK(violates([&] { m(1); }));
	CHECK(Rep::last.at(0).expectationReports.at(2).description->find("traits") != std::string::npos || [] { for (auto& x : Rep::last.at(0).expectationReports) if (x.description && x.description->find("traits") != std::string::npos) return true; return false; }());
}""", "a matcher type with member functions and matcher_traits of the user at the same time", "the member describe() is preferred over the traits, while matches() comes from the traits")

S("c20-d", "C20", [("Printer.hpp", """				for (custom::Printer<string_char_t<String>> printer{};
					const string_char_t<String>& c : string_traits<String>::view(str))
				{
					out = printer.print(std::move(out), c);
				}
""", """				for (custom::Printer<string_char_t<String>> printer{};
					const string_char_t<String>& c : string_traits<String>::view(str))
				{
					if (c == string_char_t<String>{})
					{
						break;
					}

					out = printer.print(std::move(out), c);
				}
""")],
"""struct Ch { char c{}; bool operator==(const Ch&) const = default; };
template <> struct mm::is_character<Ch> : std::true_type {};
template <> class mm::custom::Printer<Ch> { public: static auto print(auto out, const Ch& n) { return mm::format::format_to(std::move(out), "{}", n.c ? n.c : '0'); } };
struct Str { std::vector<Ch> v; };
template <> struct mm::string_traits<Str> { using char_t = Ch; using view_t = std::span<const Ch>; static view_t view(const Str& s) { return s.v; } };
int main() { CHECK(mm::print(Str{{Ch{'a'}, Ch{}, Ch{'b'}}}) == "\\"a0b\\""); }""", "a string of a user-defined character type with an embedded default-constructed character", "printing stops at the first default-constructed character")

S("c22-a", "C22", [("Expectation.hpp", """			auto iter = std::ranges::find(m_Expectations, expectation);
			assert(iter != std::ranges::end(m_Expectations) && "Expectation does not belong to this storage.");
			m_Expectations.erase(iter);
""", """			assert(1u == std::erase(m_Expectations, expectation) && "Expectation does not belong to this storage.");
""")],
"""int main() {
	mm::install_reporter<Rep>();
	mm::Mock<void(int)> m{};
	{ mm::ScopedExpectation e{m.expect_call(_) and mm::expect::at_most(5)}; m(1); }
	CHECK(violates([&] { m(1); }));
}""", "a build with NDEBUG", "expectations are only removed from their mock if assertions are enabled", flags="-DNDEBUG")

S("c22-b", "C22", [("Matcher.hpp", """				auto patternView = detail::make_view(std::forward<Stored>(stored));
				return std::ranges::empty(patternView)
						|| !std::ranges::empty(
							std::ranges::search(
								detail::make_view(std::forward<T>(target)),
								std::move(patternView)));
""", """				auto patternView = detail::make_view(std::forward<Stored>(stored));
#ifdef __cpp_lib_ranges_contains
				return std::ranges::contains_subrange(
					std::move(patternView),
					detail::make_view(std::forward<T>(target)));
#else
				return std::ranges::empty(patternView)
						|| !std::ranges::empty(
							std::ranges::search(
								detail::make_view(std::forward<T>(target)),
								std::move(patternView)));
#endif
""")],
"""int main() {
	mm::install_reporter<Rep>();
	mm::Mock<void(std::string)> m{};
	mm::ScopedExpectation e{m.expect_call(mm::matches::str::contains("b")) and mm::expect::at_most(5)};
	CHECK(!violates([&] { m("abc"); }));
}""", "a build as C++23 with a library providing std::ranges::contains_subrange", "with C++23, contains asks whether the target is part of the pattern", flags="-std=c++23")

S("c22-c", "C22", [("Reporter.hpp", """			const auto msg = detail::stringify_inapplicable_match_report(call, matchReports);
			if (m_Out)
			{
				*m_Out << msg << '\\n';
			}

			const std::source_location loc{call.fromLoc};
			throw UnmatchedCallT{
				msg,
				{std::move(call), std::move(matchReports)},
				loc
			};
""", """			const auto raise = [this](std::tuple<CallReport, std::vector<MatchReport>> data, const StringT& msg)
			{
				if (m_Out)
				{
					*m_Out << msg << '\\n';
				}

				const std::source_location loc{std::get<0>(data).fromLoc};
				throw UnmatchedCallT{
					msg,
					std::move(data),
					loc
				};
			};

			raise(
				{std::move(call), std::move(matchReports)},
				detail::stringify_inapplicable_match_report(call, matchReports));
			unreachable();
""")],
"""int main() {
	mm::install_reporter<mm::DefaultReporter>();
	mm::Mock<void(int)> m{};
	mm::ScopedExpectation e{m.expect_call(4711)};
	m(4711);
	try { m(4711); return 1; } catch (const mm::UnmatchedCallT& x) { CHECK(std::string{x.what()}.find("4711") != std::string::npos); }
}""", "a compiler that evaluates arguments from left to right (clang) and a call of a used-up expectation under the default reporter", "the text of the violation is made from the moved-from call", cc="clang++")

S("c22-d", "C22", [("Printer.hpp", """			return format::format_to(
				std::move(out),
				"0x{:0>16x}",
				std::bit_cast<std::uintptr_t>(ptr));
""", """#ifdef MIMICPP_CONFIG_USE_FMT
			return format::format_to(
				std::move(out),
				"0x{:x}",
				std::bit_cast<std::uintptr_t>(ptr));
#else
			return format::format_to(
				std::move(out),
				"0x{:0>16x}",
				std::bit_cast<std::uintptr_t>(ptr));
#endif
""")],
"""int main() { int* p = nullptr; CHECK(mm::print(p) == "0x0000000000000000"); }""", "a build with the fmt backend", "pointers are printed without padding if fmt is the formatting backend", flags="-DMIMICPP_CONFIG_USE_FMT=1 -DFMT_HEADER_ONLY")

S("c22-e", "C22", [("Sequence.hpp", """			constexpr void consume(const IdT id) noexcept
			{
				assert(is_consumable(id));

				m_Cursor = to_underlying(id);
			}
""", """			constexpr void consume(const IdT id) noexcept
			{
				assert(advance_to(id));
			}
"""), ("Sequence.hpp", """			std::vector<State> m_Entries{};
			int m_Cursor{};
""", """			std::vector<State> m_Entries{};
			int m_Cursor{};

			[[nodiscard]]
			constexpr bool advance_to(const IdT id) noexcept
			{
				const bool consumable = is_consumable(id);
				m_Cursor = to_underlying(id);

				return consumable;
			}
""")],
"""int main() {
	mm::install_reporter<Rep>();
	mm::Mock<void(int)> m{}; mm::SequenceT s{};
	mm::ScopedExpectation a{m.expect_call(1) and mm::expect::at_most(1) and mm::expect::in_sequence(s)};
	mm::ScopedExpectation b{m.expect_call(2) and mm::expect::at_most(2) and mm::expect::in_sequence(s)};
	m(2);
	CHECK(violates([&] { m(1); }));
}""", "a build with NDEBUG and a sequence in which an optional expectation has been skipped", "sequences only advance if assertions are enabled", flags="-DNDEBUG")
