#define DOCTEST_CONFIG_IMPLEMENT
#include <doctest/doctest.h>
#include "mimic++/adapters/Doctest.hpp"
#include "adapter.hpp"
#include <sstream>
namespace
{
	const Plan* g_plan;
	struct Listener final : ::doctest::IReporter
	{
		explicit Listener(const ::doctest::ContextOptions&) {}
		void report_query(const ::doctest::QueryData&) override {}
		void test_run_start() override {}
		void test_run_end(const ::doctest::TestRunStats&) override {}
		void test_case_start(const ::doctest::TestCaseData&) override {}
		void test_case_reenter(const ::doctest::TestCaseData&) override {}
		void test_case_end(const ::doctest::CurrentTestCaseStats& s) override { g_failed = s.failure_flags != 0 || s.numAssertsFailedCurrentTest > 0; g_ran = true; }
		void test_case_exception(const ::doctest::TestCaseException& e) override { add('?', e.error_string.c_str()); }
		void subcase_start(const ::doctest::SubcaseSignature&) override {}
		void subcase_end() override {}
		void log_assert(const ::doctest::AssertData& a) override { add(a.m_failed ? '?' : '+', ""); }
		void log_message(const ::doctest::MessageData& m) override { add(m.m_severity & ::doctest::assertType::is_warn ? 'w' : '-', m.m_string.c_str()); }
		void test_case_skipped(const ::doctest::TestCaseData&) override {}
	};
	DOCTEST_REGISTER_LISTENER("verif", 1, Listener);
}
DOCTEST_TEST_CASE("scenario") { execute(*g_plan); }
int main(int argc, char** argv)
{
	return adapterMain<mm::DoctestReporterT>(argc, argv, Shows{false, true, true}, [&](const Plan& p)
	{
		g_plan = &p;
		::doctest::Context ctx; std::ostringstream out; ctx.setCout(&out); ctx.setOption("success", true); ctx.run();
	});
}
