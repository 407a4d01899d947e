#!/usr/bin/env python3
"""tools/refactor.py [CHECK...]: development aid. Applies many edits which keep the behaviour to a scratch copy of the headers and runs the checks
against it: all of them have to stay quiet."""
import os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = "/tmp/refactor"
EDITS = [
("Expectation.hpp", '''			auto iter = std::ranges::find(m_Expectations, expectation);
			assert(iter != std::ranges::end(m_Expectations) && "Expectation does not belong to this storage.");
			m_Expectations.erase(iter);

			if (!expectation->is_satisfied())
			{
				detail::report_unfulfilled_expectation(
					expectation->report());
			}
''', '''			std::vector<std::shared_ptr<ExpectationT>> others{};
			others.reserve(m_Expectations.size());
			for (auto& exp : m_Expectations)
			{
				if (exp != expectation)
				{
					others.emplace_back(std::move(exp));
				}
			}
			m_Expectations.swap(others);

			const bool isSatisfied{expectation->is_satisfied()};
			if (isSatisfied)
			{
				return;
			}
			auto report = expectation->report();
			detail::report_unfulfilled_expectation(std::move(report));
'''),
("Expectation.hpp", '''			for (const std::scoped_lock lock{m_ExpectationsMx};
				auto& exp : m_Expectations | std::views::reverse)
			{
				if (std::optional matchReport = detail::make_match_report(call, *exp))
				{
''', '''			std::unique_lock lock{m_ExpectationsMx};
			for (std::size_t left{m_Expectations.size()}; left != 0u;)
			{
				--left;
				auto exp = m_Expectations[left];
				std::optional<MatchReport> matchReport = detail::make_match_report(call, *exp);
				if (matchReport)
				{
'''),
("Expectation.hpp", '''			if (!std::ranges::empty(matches))
			{
				// actions''', '''			lock.unlock();

			if (!std::ranges::empty(matches))
			{
				// actions'''),
("Expectation.hpp", '''				detail::report_full_match(
					make_call_report(call),
					std::move(report));
				exp->consume(call);
''', '''				auto callReport = make_call_report(call);
				detail::report_full_match(std::move(callReport), std::move(report));
				exp->consume(call);
'''),
("Expectation.hpp", '''			return m_ControlPolicy.is_satisfied()
					&& std::apply(
						[](const auto&... policies) noexcept
						{
							return (... && policies.is_satisfied());
						},
						m_Policies);
''', '''			bool result = std::apply(
				[](const auto&... policies) noexcept
				{
					bool all{true};
					((all = static_cast<bool>(policies.is_satisfied()) && all), ...);
					return all;
				},
				m_Policies);
			if (!m_ControlPolicy.is_satisfied())
			{
				result = false;
			}
			return result;
'''),
("Expectation.hpp", '''			return MatchReport{
				.sourceLocation = m_SourceLocation,
				.finalizeReport = {std::nullopt},
				.controlReport = m_ControlPolicy.state(),
				.expectationReports = std::apply(
					[&](const auto&... policies)
					{
						return std::vector<MatchReport::Expectation>{
							MatchReport::Expectation{
								.isMatching = policies.matches(call),
								.description = policies.describe()
							}...
						};
					},
					m_Policies)
			};
''', '''			MatchReport report{};
			report.sourceLocation.emplace(m_SourceLocation);
			std::apply(
				[&](const auto&... policies)
				{
					report.expectationReports.reserve(sizeof...(policies));
					const auto add = [&](const auto& policy)
					{
						MatchReport::Expectation entry{};
						entry.description = policy.describe();
						entry.isMatching = policy.matches(call);
						report.expectationReports.push_back(std::move(entry));
					};
					(add(policies), ...);
				},
				m_Policies);
			report.controlReport = m_ControlPolicy.state();
			return report;
'''),
("Expectation.hpp", '''				.timesDescription = std::invoke(
					[this]
					{
						StringStreamT ss{};
						std::visit(
							std::bind_front(
								detail::control_state_printer{},
								std::ostreambuf_iterator{ss}),
							m_ControlPolicy.state());
						return std::move(ss).str();
					}),
''', '''				.timesDescription = std::invoke(
					[this]
					{
						StringT text{};
						const auto state = m_ControlPolicy.state();
						std::visit(
							[&](const auto& s) { detail::control_state_printer{}(std::back_inserter(text), s); },
							state);
						return text;
					}),
'''),
("Sequence.hpp", '''				return m_Cursor <= index
						&& std::ranges::all_of(
							m_Entries.begin() + m_Cursor,
							m_Entries.begin() + index,
							[](const State s) noexcept
							{
								return s == State::satisfied
										|| s == State::saturated;
							})
						&& (state == State::unsatisfied
							|| state == State::satisfied);
''', '''				if (state == State::saturated
					|| index < m_Cursor)
				{
					return false;
				}
				for (int i = index - 1; m_Cursor <= i; --i)
				{
					if (m_Entries[i] == State::unsatisfied)
					{
						return false;
					}
				}
				return true;
'''),
("ControlPolicy.hpp", '''			std::apply(
				[](auto&... entries) noexcept
				{
					(..., std::get<0>(entries)->consume(std::get<1>(entries)));
				},
				m_Sequences);

			++m_Count;

			update_sequence_states();
''', '''			++m_Count;

			std::apply(
				[](auto&... entries) noexcept
				{
					(..., std::get<0>(entries)->consume(std::get<1>(entries)));
				},
				m_Sequences);

			update_sequence_states();
'''),
("ControlPolicy.hpp", '''			if (min < 0
				|| max < 0
				|| max < min)
			{
				throw''', '''			const bool valid = 0 <= min && min <= max;
			if (!valid)
			{
				throw'''),
("Reporter.hpp", '''			StringStreamT ss{};
			ss << "Found match for ";
			mimicpp::print(
				std::ostreambuf_iterator{ss},
				call);
			ss << "\\n";

			mimicpp::print(
				std::ostreambuf_iterator{ss},
				matchReport);
			ss << "\\n";

			return std::move(ss).str();
''', '''			StringT text{"Found match for "};
			text += mimicpp::print(call);
			text += "\\n";
			text += mimicpp::print(matchReport);
			text += "\\n";

			return text;
'''),
("Reporter.hpp", '''			if (0 == std::uncaught_exceptions())
			{
				if (m_Out)
				{
					*m_Out << message << '\\n';
				}

				throw Error{message};
			}
''', '''			if (0 < std::uncaught_exceptions())
			{
				return;
			}

			if (m_Out)
			{
				*m_Out << message << '\\n';
			}

			Error error{message};
			throw error;
'''),
("ObjectWatcher.hpp", '''			if (const auto destruction = std::exchange(
				m_DestructionMock,
				nullptr))
			{
				(*destruction)();
			}
''', '''			auto destruction = std::move(m_DestructionMock);
			if (!destruction)
			{
				return;
			}

			auto& mock = *destruction;
			mock();
'''),
("Matcher.hpp", '''				auto patternView = detail::make_view(std::forward<Stored>(stored));
				return std::ranges::empty(patternView)
						|| !std::ranges::empty(
							std::ranges::search(
								detail::make_view(std::forward<T>(target)),
								std::move(patternView)));
''', '''				auto patternView = detail::make_view(std::forward<Stored>(stored));
				auto targetView = detail::make_view(std::forward<T>(target));
				for (auto first = std::ranges::begin(targetView);; ++first)
				{
					auto pos = first;
					auto pattern = std::ranges::begin(patternView);
					for (; pattern != std::ranges::end(patternView)
						&& pos != std::ranges::end(targetView)
						&& *pos == *pattern;
						++pos, ++pattern)
					{
					}
					if (pattern == std::ranges::end(patternView))
					{
						return true;
					}
					if (first == std::ranges::end(targetView))
					{
						return false;
					}
				}
'''),
("Mock.hpp", '''			using CallInfoT = call::Info<Return, Params...>;

			return m_Expectations->handle_call(
				CallInfoT{
					.args = std::move(params),
					.fromCategory = category,
					.fromConstness = constness,
					.fromSourceLocation = from
				});
''', '''			using CallInfoT = call::Info<Return, Params...>;

			const CallInfoT info{
				.args = params,
				.fromCategory = category,
				.fromConstness = constness,
				.fromSourceLocation = from
			};
			auto& expectations = *m_Expectations;
			return expectations.handle_call(info);
'''),
("ExpectationPolicies.hpp", '''			decltype(auto) projected = std::invoke(m_Projection, info);
			return detail::matches_hook::matches(
				m_Matcher,
				projected);
''', '''			auto&& projected = std::invoke(m_Projection, info);
			const bool result{detail::matches_hook::matches(m_Matcher, projected)};
			return result;
'''),
("ExpectationPolicies.hpp", '''			return static_cast<Return>(
				std::invoke(m_Action, call));
''', '''			if constexpr (std::is_void_v<Return>)
			{
				std::invoke(m_Action, call);
			}
			else
			{
				return static_cast<Return>(std::invoke(m_Action, call));
			}
'''),
]


def main():
    shutil.rmtree(D, ignore_errors=True); shutil.copytree("/repo/include", D + "/include")
    for f, old, new in EDITS:
        p = D + "/include/mimic++/" + f
        s = open(p).read()
        if s.count(old) != 1: print("does not apply:", f, old.splitlines()[0]); continue
        open(p, "w").write(s.replace(old, new))
    sys.path.insert(0, V)
    import checks
    for c in sys.argv[1:] or sorted(checks.CHECKS):
        t = time.time()
        r = subprocess.run(["python3", V + "/check.py", c], env=dict(os.environ, MIMICPP_REPO=D), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print(c, "quiet" if r.returncode == 0 else "ALARM", "%.0f s" % (time.time() - t), r.stdout.strip().splitlines()[-1][:400], flush=True)
    shutil.rmtree(D, ignore_errors=True)


main()
