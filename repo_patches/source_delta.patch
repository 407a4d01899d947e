From 860cb7c77a35ef163edda68fdb50de0edd7e8f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:30 +0000
Subject: [PATCH 01/14] fix: do not move from lvalue matchers in
 range::each_element and any_element

The matcher was forwarded as an rvalue, regardless of its value category,
which left the matcher object of the user in a moved-from state.
---
 include/mimic++/Matcher.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mimic++/Matcher.hpp b/include/mimic++/Matcher.hpp
index db176c8..58459ed 100644
--- a/include/mimic++/Matcher.hpp
+++ b/include/mimic++/Matcher.hpp
@@ -954,7 +954,7 @@ namespace mimicpp::matches::range
 					MatcherT,
 					std::identity,
 					decltype([](const auto& m) { return mimicpp::detail::describe_hook::describe(m); })>{
-					std::forward<MatcherT>(matcher)
+					std::forward<Matcher>(matcher)
 				}
 			}
 		};
@@ -983,7 +983,7 @@ namespace mimicpp::matches::range
 					MatcherT,
 					std::identity,
 					decltype([](const auto& m) { return mimicpp::detail::describe_hook::describe(m); })>{
-					std::forward<MatcherT>(matcher)
+					std::forward<Matcher>(matcher)
 				}
 			}
 		};
-- 
2.43.0


From add629bf9443d96ac5a2a31646516595c64f6b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:30 +0000
Subject: [PATCH 02/14] fix: convert to unsigned char before calling
 std::toupper

Calling std::toupper with a negative value (other than EOF) is undefined
behaviour.
---
 include/mimic++/String.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mimic++/String.hpp b/include/mimic++/String.hpp
index 2656fdc..f3af18c 100644
--- a/include/mimic++/String.hpp
+++ b/include/mimic++/String.hpp
@@ -418,7 +418,7 @@ struct mimicpp::string_case_fold_converter<char>
 						// see notes of https://en.cppreference.com/w/cpp/string/byte/toupper
 						// This approach will fail, if str actually contains an utf8-encoded string.
 						return static_cast<char>(
-							static_cast<unsigned char>(std::toupper(c)));
+							std::toupper(static_cast<unsigned char>(c)));
 					});
 	}
 };
-- 
2.43.0


From 9f415dfc00c5196ea6f8e36a429de2c16d252d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:30 +0000
Subject: [PATCH 03/14] fix: let the move-assignment of ScopedExpectation
 propagate exceptions

Overwriting a handle of an unsatisfied expectation made the reporter throw
from inside of std::unique_ptr's noexcept assignment, which terminated the
program instead of reporting the violation.
---
 include/mimic++/Expectation.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/mimic++/Expectation.hpp b/include/mimic++/Expectation.hpp
index 8e40c75..b3a5918 100644
--- a/include/mimic++/Expectation.hpp
+++ b/include/mimic++/Expectation.hpp
@@ -698,9 +698,21 @@ namespace mimicpp
 		ScopedExpectation(ScopedExpectation&&) = default;
 
 		/**
-		 * \brief Defaulted move-assignment-operator.
+		 * \brief Move-assignment-operator.
+		 * \details Removes the previously owned expectation and checks, whether it's satisfied.
+		 * \throws In cases of an unsatisfied previous expectation, the operator is expected to throw or terminate otherwise.
 		 */
-		ScopedExpectation& operator =(ScopedExpectation&&) = default;
+		ScopedExpectation& operator =(ScopedExpectation&& other) noexcept(false)
+		{
+			if (this != std::addressof(other))
+			{
+				// we must call the dtor manually here, because std::unique_ptr's dtor mustn't throw.
+				std::unique_ptr<Concept> previous = std::exchange(m_Inner, std::move(other.m_Inner));
+				delete previous.release();
+			}
+
+			return *this;
+		}
 
 		/**
 		 * \brief Queries the stored expectation, whether it's satisfied.
-- 
2.43.0


From 9ac35758a6b52b595edee8ebfcbef4b165754628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:54 +0000
Subject: [PATCH 04/14] fix: do not recurse endlessly when printing
 self-recursive ranges

The elements of types like std::filesystem::path are of the very same type,
thus printing never came to an end and exhausted the stack.
---
 include/mimic++/Printer.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/mimic++/Printer.hpp b/include/mimic++/Printer.hpp
index fb21304..9949e48 100644
--- a/include/mimic++/Printer.hpp
+++ b/include/mimic++/Printer.hpp
@@ -266,7 +266,12 @@ namespace mimicpp::detail
 			std::forward<T>(value));
 	}
 
-	template <print_iterator OutIter, std::ranges::forward_range Range>
+	// ranges, which have themselves as element (e.g. std::filesystem::path), would lead to an infinite recursion.
+	template <typename T>
+	concept printable_range = std::ranges::forward_range<T>
+							&& !std::same_as<std::remove_cvref_t<T>, std::ranges::range_value_t<T>>;
+
+	template <print_iterator OutIter, printable_range Range>
 	OutIter print(
 		OutIter out,
 		Range&& range,
@@ -332,7 +337,7 @@ namespace mimicpp::detail
 		}
 	};
 
-	template <print_iterator OutIter, std::ranges::forward_range Range>
+	template <print_iterator OutIter, printable_range Range>
 	OutIter print(
 		OutIter out,
 		Range&& range,  // NOLINT(cppcoreguidelines-missing-std-forward)
-- 
2.43.0


From 089497039a405ee4ceb66f0da8d06a2a1e71162c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:54 +0000
Subject: [PATCH 05/14] fix: print null pointers to characters without
 dereferencing them

Null-pointers are valid arguments for parameters like const char*, but
printing them (e.g. for a report) was undefined behaviour.
---
 include/mimic++/Printer.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/mimic++/Printer.hpp b/include/mimic++/Printer.hpp
index 9949e48..96aed30 100644
--- a/include/mimic++/Printer.hpp
+++ b/include/mimic++/Printer.hpp
@@ -483,6 +483,14 @@ namespace mimicpp::detail
 		template <std::common_reference_with<String> T, print_iterator OutIter>
 		static OutIter print(OutIter out, T&& str)
 		{
+			if constexpr (std::is_pointer_v<String>)
+			{
+				if (str == nullptr)
+				{
+					return format::format_to(std::move(out), "nullptr");
+				}
+			}
+
 			if constexpr (constexpr auto prefix = string_literal_prefix<string_char_t<String>>;
 				!std::ranges::empty(prefix))
 			{
-- 
2.43.0


From 3a48cea4a57d1fe08f0ef1a954a6f5f5cc299989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:22 +0000
Subject: [PATCH 06/14] fix: let exceptions of side effects leave the call
 instead of terminating

---
 include/mimic++/Expectation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mimic++/Expectation.hpp b/include/mimic++/Expectation.hpp
index b3a5918..a311989 100644
--- a/include/mimic++/Expectation.hpp
+++ b/include/mimic++/Expectation.hpp
@@ -527,7 +527,7 @@ namespace mimicpp
 		{
 			m_ControlPolicy.consume();
 			std::apply(
-				[&](auto&... policies) noexcept
+				[&](auto&... policies)
 				{
 					(..., policies.consume(call));
 				},
-- 
2.43.0


From 07f01366645cd425510b33c5ad752a12037641c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:37 +0000
Subject: [PATCH 07/14] fix: do not treat arrays of non-characters as strings,
 so that they can be printed

string_traits<T[N]> derived from the incomplete string_traits<T*> for any T, which was a hard error when printing e.g. an int[3].
---
 include/mimic++/String.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/mimic++/String.hpp b/include/mimic++/String.hpp
index f3af18c..9596933 100644
--- a/include/mimic++/String.hpp
+++ b/include/mimic++/String.hpp
@@ -284,6 +284,7 @@ namespace mimicpp
 	 */
 	template <typename T>
 		requires std::is_array_v<T>
+				&& requires { typename string_traits<std::remove_extent_t<T>*>::char_t; }
 	struct string_traits<T>
 		: public string_traits<std::remove_extent_t<T>*>
 	{
-- 
2.43.0


From 96847dd66ace53a390be1e2bc900d6a196d30092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:08 +0000
Subject: [PATCH 08/14] fix: print the elements of a mutable std::vector<bool>

The proxy reference has no formatter prior to C++23, so that each element was printed as the placeholder.
---
 include/mimic++/Printer.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/mimic++/Printer.hpp b/include/mimic++/Printer.hpp
index 96aed30..c340bbf 100644
--- a/include/mimic++/Printer.hpp
+++ b/include/mimic++/Printer.hpp
@@ -23,6 +23,7 @@
 #include <string>
 #include <string_view>
 #include <utility>
+#include <vector>
 
 #ifndef MIMICPP_CONFIG_USE_FMT
 	#include <format>
@@ -384,6 +385,19 @@ namespace mimicpp::detail
 		}
 	};
 
+	// the proxy itself is not formattable prior to c++23
+	template <>
+	class Printer<std::vector<bool>::reference>
+	{
+	public:
+		template <print_iterator OutIter>
+		static OutIter print(OutIter out, const std::vector<bool>::reference& value)
+		{
+			constexpr PrintFn print{};
+			return print(std::move(out), static_cast<bool>(value));
+		}
+	};
+
 	template <>
 	class Printer<std::nullopt_t>
 	{
-- 
2.43.0


From 1cef5977b4aefc08d95d5745652e5e0b20071295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:54 +0000
Subject: [PATCH 09/14] fix: support std::reference_wrapper as parameter type

std::ref unwraps an existing std::reference_wrapper, so that calling a mock with such a by-value parameter did not compile.
---
 include/mimic++/Mock.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/mimic++/Mock.hpp b/include/mimic++/Mock.hpp
index 7f8a049..1f8d8cb 100644
--- a/include/mimic++/Mock.hpp
+++ b/include/mimic++/Mock.hpp
@@ -85,7 +85,7 @@ namespace mimicpp::detail
 		constexpr Return operator ()(Params... params, const std::source_location& from = std::source_location::current())
 		{
 			return SuperT::handle_call(
-				std::tuple{std::ref(params)...},
+				std::tuple{std::reference_wrapper<std::remove_reference_t<Params>>{params}...},
 				from);
 		}
 
@@ -122,7 +122,7 @@ namespace mimicpp::detail
 		constexpr Return operator ()(Params... params, const std::source_location& from = std::source_location::current()) const
 		{
 			return SuperT::handle_call(
-				std::tuple{std::ref(params)...},
+				std::tuple{std::reference_wrapper<std::remove_reference_t<Params>>{params}...},
 				from);
 		}
 
@@ -159,7 +159,7 @@ namespace mimicpp::detail
 		constexpr Return operator ()(Params... params, const std::source_location& from = std::source_location::current()) &
 		{
 			return SuperT::handle_call(
-				std::tuple{std::ref(params)...},
+				std::tuple{std::reference_wrapper<std::remove_reference_t<Params>>{params}...},
 				from);
 		}
 
@@ -196,7 +196,7 @@ namespace mimicpp::detail
 		constexpr Return operator ()(Params... params, const std::source_location& from = std::source_location::current()) const &
 		{
 			return SuperT::handle_call(
-				std::tuple{std::ref(params)...},
+				std::tuple{std::reference_wrapper<std::remove_reference_t<Params>>{params}...},
 				from);
 		}
 
@@ -233,7 +233,7 @@ namespace mimicpp::detail
 		constexpr Return operator ()(Params... params, const std::source_location& from = std::source_location::current()) &&
 		{
 			return SuperT::handle_call(
-				std::tuple{std::ref(params)...},
+				std::tuple{std::reference_wrapper<std::remove_reference_t<Params>>{params}...},
 				from);
 		}
 
@@ -270,7 +270,7 @@ namespace mimicpp::detail
 		constexpr Return operator ()(Params... params, const std::source_location& from = std::source_location::current()) const &&
 		{
 			return SuperT::handle_call(
-				std::tuple{std::ref(params)...},
+				std::tuple{std::reference_wrapper<std::remove_reference_t<Params>>{params}...},
 				from);
 		}
 
@@ -307,7 +307,7 @@ namespace mimicpp::detail
 		constexpr Return operator ()(Params... params, const std::source_location& from = std::source_location::current()) noexcept
 		{
 			return SuperT::handle_call(
-				std::tuple{std::ref(params)...},
+				std::tuple{std::reference_wrapper<std::remove_reference_t<Params>>{params}...},
 				from);
 		}
 
@@ -347,7 +347,7 @@ namespace mimicpp::detail
 		) const noexcept
 		{
 			return SuperT::handle_call(
-				std::tuple{std::ref(params)...},
+				std::tuple{std::reference_wrapper<std::remove_reference_t<Params>>{params}...},
 				from);
 		}
 
@@ -384,7 +384,7 @@ namespace mimicpp::detail
 		constexpr Return operator ()(Params... params, const std::source_location& from = std::source_location::current()) & noexcept
 		{
 			return SuperT::handle_call(
-				std::tuple{std::ref(params)...},
+				std::tuple{std::reference_wrapper<std::remove_reference_t<Params>>{params}...},
 				from);
 		}
 
@@ -424,7 +424,7 @@ namespace mimicpp::detail
 		) const & noexcept
 		{
 			return SuperT::handle_call(
-				std::tuple{std::ref(params)...},
+				std::tuple{std::reference_wrapper<std::remove_reference_t<Params>>{params}...},
 				from);
 		}
 
@@ -461,7 +461,7 @@ namespace mimicpp::detail
 		constexpr Return operator ()(Params... params, const std::source_location& from = std::source_location::current()) && noexcept
 		{
 			return SuperT::handle_call(
-				std::tuple{std::ref(params)...},
+				std::tuple{std::reference_wrapper<std::remove_reference_t<Params>>{params}...},
 				from);
 		}
 
@@ -501,7 +501,7 @@ namespace mimicpp::detail
 		) const && noexcept
 		{
 			return SuperT::handle_call(
-				std::tuple{std::ref(params)...},
+				std::tuple{std::reference_wrapper<std::remove_reference_t<Params>>{params}...},
 				from);
 		}
 
-- 
2.43.0


From 29dc1861853e48e559f383d96d0a0283e248adfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:10 +0000
Subject: [PATCH 10/14] fix: strip the parentheses of types given to the
 interface macros from the signature, too

MOCK_METHOD(fn, (std::tuple<int, float>), ()) and MOCK_METHOD(fn, void, ((std::tuple<int, float>))) did not compile.
---
 include/mimic++/InterfaceMock.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/mimic++/InterfaceMock.hpp b/include/mimic++/InterfaceMock.hpp
index ea80a55..073c55d 100644
--- a/include/mimic++/InterfaceMock.hpp
+++ b/include/mimic++/InterfaceMock.hpp
@@ -197,6 +197,12 @@ namespace mimicpp
 	 */
 }
 
+/**
+ * \brief Selects the first argument.
+ * \ingroup MOCK_INTERFACES_DETAIL_MAKE_SIGNATURE_LIST
+ */
+#define MIMICPP_DETAIL_FIRST(first, ...) first
+
 /**
  * \brief Converts the given information to a single signature.
  * \ingroup MOCK_INTERFACES_DETAIL_MAKE_SIGNATURE_LIST
@@ -205,8 +211,11 @@ namespace mimicpp
  * \param ret The return type.
  * \param param_type_list The parameter types.
  * \param specs Additional specs (e.g. ``const``, ``noexcept``).
+ * \details If present, the param-list (see ``MIMICPP_ADD_OVERLOAD``) is preferred over the param_type_list, because the enclosing
+ * parentheses of its types are already stripped.
  */
-#define MIMICPP_DETAIL_MAKE_SIGNATURE(sequence, bound_data, ret, param_type_list, specs, ...) ret param_type_list specs
+#define MIMICPP_DETAIL_MAKE_SIGNATURE(sequence, bound_data, ret, param_type_list, specs, ...) \
+	MIMICPP_DETAIL_STRIP_PARENS(ret) MIMICPP_DETAIL_FIRST(__VA_ARGS__ __VA_OPT__(,) param_type_list) specs
 
 /**
  * \brief Converts all given arguments to a signature list (not enclosed by parentheses).
-- 
2.43.0


From 4fc8b4cadd26763744ce4ae72805d7afd83f8f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:05 +0000
Subject: [PATCH 11/14] fix: leave a valid mock in moved-from
 RelocationWatchers

Relocating an already moved-from object dereferenced a null pointer.
---
 include/mimic++/ObjectWatcher.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/mimic++/ObjectWatcher.hpp b/include/mimic++/ObjectWatcher.hpp
index 3bf7ab5..5644808 100644
--- a/include/mimic++/ObjectWatcher.hpp
+++ b/include/mimic++/ObjectWatcher.hpp
@@ -259,7 +259,8 @@ namespace mimicpp
 		RelocationWatcher& operator =(RelocationWatcher&& other) noexcept(false)
 		{
 			other.m_RelocationMock();
-			m_RelocationMock = std::move(other).m_RelocationMock;
+			// a moved-from watcher may be relocated again, thus it needs a valid (but empty) mock
+			m_RelocationMock = std::exchange(other.m_RelocationMock, Mock<void()>{});
 
 			return *this;
 		}
-- 
2.43.0


From e9cfa4c5e8e14d2a2191208294804f6c42465e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:07 +0000
Subject: [PATCH 12/14] fix: keep the answering expectation alive until its
 call has been finished

An action destroying the handle of its own expectation caused a use after free.
---
 include/mimic++/Expectation.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/mimic++/Expectation.hpp b/include/mimic++/Expectation.hpp
index a311989..eda3c38 100644
--- a/include/mimic++/Expectation.hpp
+++ b/include/mimic++/Expectation.hpp
@@ -46,7 +46,7 @@ namespace mimicpp::detail
 	}
 
 	template <typename Signature>
-	constexpr auto pick_best_match(std::vector<std::tuple<Expectation<Signature>&, MatchReport>>& matches)
+	constexpr auto pick_best_match(std::vector<std::tuple<std::shared_ptr<Expectation<Signature>>, MatchReport>>& matches)
 	{
 		constexpr auto ratings = [](const auto& el) noexcept -> const auto& {
 			return std::get<state_applicable>(
@@ -300,7 +300,7 @@ namespace mimicpp
 		[[nodiscard]]
 		ReturnT handle_call(const CallInfoT& call)
 		{
-			std::vector<std::tuple<ExpectationT&, MatchReport>> matches{};
+			std::vector<std::tuple<std::shared_ptr<ExpectationT>, MatchReport>> matches{};
 			std::vector<MatchReport> noMatches{};
 			std::vector<MatchReport> inapplicableMatches{};
 
@@ -319,7 +319,7 @@ namespace mimicpp
 						inapplicableMatches.emplace_back(*std::move(matchReport));
 						break;
 					case full:
-						matches.emplace_back(*exp, *std::move(matchReport));
+						matches.emplace_back(exp, *std::move(matchReport));
 						break;
 					// GCOVR_EXCL_START
 					default:
@@ -331,12 +331,14 @@ namespace mimicpp
 
 			if (!std::ranges::empty(matches))
 			{
-				auto&& [exp, report] = *detail::pick_best_match(matches);
+				// actions may destroy the expectation's handle, thus keep it alive until the call has been finished.
+				auto [exp, report] = std::move(*detail::pick_best_match(matches));
+				matches.clear();
 				detail::report_full_match(
 					make_call_report(call),
 					std::move(report));
-				exp.consume(call);
-				return exp.finalize_call(call);
+				exp->consume(call);
+				return exp->finalize_call(call);
 			}
 
 			if (!std::ranges::empty(inapplicableMatches))
-- 
2.43.0


From 82a5767e76a6057733e6d16a81d33035d1609539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:24 +0000
Subject: [PATCH 13/14] fix: let each_element and any_element ask matchers
 adapted via custom::matcher_traits

---
 include/mimic++/Matcher.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mimic++/Matcher.hpp b/include/mimic++/Matcher.hpp
index 58459ed..3ac3598 100644
--- a/include/mimic++/Matcher.hpp
+++ b/include/mimic++/Matcher.hpp
@@ -945,7 +945,7 @@ namespace mimicpp::matches::range
 			{
 				return std::ranges::all_of(
 					target,
-					[&](const auto& element) { return m.matches(element); });
+					[&](const auto& element) { return mimicpp::detail::matches_hook::matches(m, element); });
 			},
 			"each el in range: el {}",
 			"not each el in range: el {}",
@@ -974,7 +974,7 @@ namespace mimicpp::matches::range
 			{
 				return std::ranges::any_of(
 					target,
-					[&](const auto& element) { return m.matches(element); });
+					[&](const auto& element) { return mimicpp::detail::matches_hook::matches(m, element); });
 			},
 			"any el in range: el {}",
 			"none el in range: el {}",
-- 
2.43.0


From f600b0153dcbf42c153d1ec5750a09315e4dbd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:02 +0000
Subject: [PATCH 14/14] fix: treat pairs and tuples as the single value they
 are in the comparison matchers

---
 include/mimic++/Matcher.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/mimic++/Matcher.hpp b/include/mimic++/Matcher.hpp
index 3ac3598..e5a0fed 100644
--- a/include/mimic++/Matcher.hpp
+++ b/include/mimic++/Matcher.hpp
@@ -353,7 +353,7 @@ namespace mimicpp::matches
 			std::equal_to{},
 			"== {}",
 			"!= {}",
-			std::tuple{std::forward<T>(value)}
+			std::tuple<std::decay_t<T>>{std::forward<T>(value)}
 		};
 	}
 
@@ -370,7 +370,7 @@ namespace mimicpp::matches
 			std::not_equal_to{},
 			"!= {}",
 			"== {}",
-			std::tuple{std::forward<T>(value)}
+			std::tuple<std::decay_t<T>>{std::forward<T>(value)}
 		};
 	}
 
@@ -387,7 +387,7 @@ namespace mimicpp::matches
 			std::less{},
 			"< {}",
 			">= {}",
-			std::tuple{std::forward<T>(value)}
+			std::tuple<std::decay_t<T>>{std::forward<T>(value)}
 		};
 	}
 
@@ -404,7 +404,7 @@ namespace mimicpp::matches
 			std::less_equal{},
 			"<= {}",
 			"> {}",
-			std::tuple{std::forward<T>(value)}
+			std::tuple<std::decay_t<T>>{std::forward<T>(value)}
 		};
 	}
 
@@ -421,7 +421,7 @@ namespace mimicpp::matches
 			std::greater{},
 			"> {}",
 			"<= {}",
-			std::tuple{std::forward<T>(value)}
+			std::tuple<std::decay_t<T>>{std::forward<T>(value)}
 		};
 	}
 
@@ -438,7 +438,7 @@ namespace mimicpp::matches
 			std::greater_equal{},
 			">= {}",
 			"< {}",
-			std::tuple{std::forward<T>(value)}
+			std::tuple<std::decay_t<T>>{std::forward<T>(value)}
 		};
 	}
 
-- 
2.43.0

