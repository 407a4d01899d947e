#include <catch2/catch_session.hpp>
#include <catch2/catch_test_macros.hpp>
#include <catch2/reporters/catch_reporter_event_listener.hpp>
#include <catch2/reporters/catch_reporter_registrars.hpp>
#include <catch2/catch_test_case_info.hpp>
#include "mimic++/adapters/Catch2.hpp"
#include "adapter.hpp"
namespace
{
	const Plan* g_plan;
	class Listener final : public Catch::EventListenerBase
	{
	public:
		using Catch::EventListenerBase::EventListenerBase;
		void assertionEnded(const Catch::AssertionStats& s) override
		{
			const auto& r = s.assertionResult;
			const std::string msg = r.hasMessage() ? std::string{r.getMessage()} : std::string{};
			if (r.getResultType() == Catch::ResultWas::Warning) add('w', msg);
			else if (r.getResultType() == Catch::ResultWas::ExplicitFailure) add('-', msg);
			else if (r.succeeded()) add('+', msg);
			else add('?', msg);
		}
		void testCaseEnded(const Catch::TestCaseStats& s) override { g_failed = s.totals.testCases.failed > 0; g_ran = true; }
	};
	CATCH_REGISTER_LISTENER(Listener)
	TEST_CASE("scenario") { execute(*g_plan); }
}
int main(int argc, char** argv)
{
	Catch::Session session;
	const char* args[] = {"catch2", "-o", "/dev/null", "-s", "--allow-running-no-tests"};
	session.applyCommandLine(5, args);
	return adapterMain<mm::Catch2ReporterT>(argc, argv, Shows{true, true, true}, [&](const Plan& p) { g_plan = &p; session.run(); });
}
