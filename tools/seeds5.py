import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from seedlib import seed
only = sys.argv[1:]
def S(sid, *a, **k):
    if not only or sid in only:
        try: seed(sid, *a, **k)
        except AssertionError as e: print(e)
S("c09-b", "C09", [("InterfaceMock.hpp", "#define MIMICPP_DETAIL_EXPAND(...) MIMICPP_DETAIL_EXPAND3(MIMICPP_DETAIL_EXPAND3(MIMICPP_DETAIL_EXPAND3(MIMICPP_DETAIL_EXPAND3(__VA_ARGS__))))", "#define MIMICPP_DETAIL_EXPAND(...) MIMICPP_DETAIL_EXPAND3(__VA_ARGS__)")],
"""struct I { virtual ~I() = default; virtual int f(int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) = 0; };
struct D : I { MIMICPP_MOCK_METHOD(f, int, (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int)); };
int main() { mm::install_reporter<Rep>(); D d{}; CHECK(violates([&] { (void)d.f(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28); })); }""",
"an interface method with more than about twenty parameters", "the method can not be mocked any more")


S("c14-d", "C14", [("Expectation.hpp", """			for (const std::scoped_lock lock{m_ExpectationsMx};
				auto& exp : m_Expectations | std::views::reverse)
			{
				if (std::optional matchReport = detail::make_match_report(call, *exp))
				{
""", """			const Expectation<Signature>* failed{};
			for (const std::scoped_lock lock{m_ExpectationsMx};
				auto& exp : m_Expectations | std::views::reverse)
			{
				// do not report the same statement over and over again
				if (failed
					&& is_same_source_location(failed->from(), exp->from()))
				{
					continue;
				}

				std::optional matchReport = detail::make_match_report(call, *exp);
				if (!matchReport)
				{
					failed = exp.get();
				}
				else
				{
""")], """int main() { mm::install_reporter<Rep>(); mm::Mock<void(int)> m{}; std::vector<std::unique_ptr<mm::ScopedExpectation>> v; for (int i = 0; i < 2; ++i) v.push_back(std::make_unique<mm::ScopedExpectation>(m.expect_call(mm::matches::predicate([i](int) -> bool { if (i) throw 1; return true; })) and mm::expect::at_most(1)));
	CHECK(!violates([&] { m(1); })); CHECK(Rep::unhandled == 1 && Rep::full == 1); }""",
"a requirement throws, and an older expectation set up by the same line of code accepts the call", "the older expectation is not considered")

S("c11-c", "C11", [("String.hpp", """		static constexpr view_t view(view_t str) noexcept
		{
			return str;
		}
""", """		static constexpr view_t view(view_t str) noexcept
		{
			// a terminator, which is part of the view, does not belong to the text
			while (!str.empty()
				&& str.back() == Char{})
			{
				str.remove_suffix(1u);
			}

			return str;
		}
""")], """int main() { using namespace std::string_view_literals; std::string_view t = "ab\\0"sv; CHECK(!mm::matches::str::eq("ab"sv).matches(t)); CHECK(mm::matches::str::eq("ab\\0"sv).matches(t)); std::string_view s = "ab"sv; CHECK(!mm::matches::str::eq("ab\\0"sv).matches(s)); }""",
"a view ending with zero characters", "different strings are considered equal")

S("c11-d", "C11", [("Matcher.hpp", """				auto patternView = detail::make_view(std::forward<Stored>(stored))
									| std::views::reverse;
				const auto [ignore, patternIter] = std::ranges::mismatch(
					detail::make_view(std::forward<T>(target)) | std::views::reverse,
					patternView);

				return patternIter == std::ranges::end(patternView);
""", """				auto patternView = detail::make_view(std::forward<Stored>(stored));
				auto targetView = detail::make_view(std::forward<T>(target));
				if (std::ranges::size(targetView) < std::ranges::size(patternView))
				{
					return false;
				}

				// jump right in front of the tail
				using offset_t = std::conditional_t<sizeof(string_char_t<T>) == 1u, short, std::ptrdiff_t>;
				const auto offset = static_cast<offset_t>(std::ranges::size(targetView) - std::ranges::size(patternView));
				return std::ranges::equal(
					std::ranges::next(std::ranges::begin(targetView), offset < 0 ? 0 : offset),
					std::ranges::end(targetView),
					std::ranges::begin(patternView),
					std::ranges::end(patternView));
""")], """int main() { std::string t(40000, 'a'); t += "xyz"; CHECK(mm::matches::str::ends_with("xyz").matches(t)); std::string u(100000, 'b'); u += "abc"; CHECK(mm::matches::str::ends_with("abc").matches(u)); }""",
"a target which is more than 32767 characters longer than the pattern", "ends_with denies the relation")

S("c12-f", "C12", [("Printer.hpp", """			for (; iter != end; ++iter)
			{
				out = print(
					format::format_to(std::move(out), ", "),
					*iter);
			}
""", """			for (std::size_t count{1u}; iter != end; ++iter, ++count)
			{
				if (count == 1024u)
				{
					out = format::format_to(std::move(out), ", ...");
					break;
				}

				out = print(
					format::format_to(std::move(out), ", "),
					*iter);
			}
""")], """int main() { std::vector<int> v(1500, 7); v.back() = 12345; CHECK(mm::print(v).find("12345") != mm::StringT::npos); }""",
"a range of more than 1024 elements", "the elements beyond are not printed")

S("c10-e", "C10", [("Matcher.hpp", """				return std::ranges::is_permutation(
					target,
					range,
					std::ref(comp));
""", """				// O(n * m) instead of O(n * m * m): remember, which elements are already paired
				std::uint64_t paired{};
				std::size_t count{};
				for (auto&& element : target)
				{
					++count;
					std::size_t index{};
					bool found{};
					for (auto&& candidate : range)
					{
						if (const std::uint64_t bit = std::uint64_t{1} << (index % 64u);
							!(paired & bit)
							&& std::invoke(comp, element, candidate))
						{
							paired |= bit;
							found = true;
							break;
						}
						++index;
					}

					if (!found)
					{
						return false;
					}
				}

				return count == static_cast<std::size_t>(std::ranges::distance(range));
""")], """int main() { std::vector<int> a, b; for (int i = 0; i < 100; ++i) { a.push_back(i); b.push_back(99 - i); } CHECK(mm::matches::range::unordered_eq(a).matches(b)); }""",
"ranges of more than 64 elements", "a permutation is not recognised")

