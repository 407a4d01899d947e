#include <gtest/gtest.h>
#include "mimic++/adapters/gtest.hpp"
#include "adapter.hpp"
namespace
{
	const Plan* g_plan;
	class Listener final : public ::testing::EmptyTestEventListener
	{
		void OnTestPartResult(const ::testing::TestPartResult& r) override
		{
			const std::string m = r.message();
			if (r.failed() && m.find("exception thrown in the test body") != std::string::npos) return; // the exception which leaves the test
			add(r.type() == ::testing::TestPartResult::kSuccess ? '+' : r.type() == ::testing::TestPartResult::kFatalFailure ? '-' : '?', m);
		}
		void OnTestEnd(const ::testing::TestInfo& i) override { g_failed = i.result()->Failed(); g_ran = true; }
	};
}
TEST(Scenario, run) { execute(*g_plan); }
int main(int argc, char** argv)
{
	int n = 1; char name[] = "gtest"; char* a[] = {name, nullptr};
	::testing::InitGoogleTest(&n, a);
	auto& ls = ::testing::UnitTest::GetInstance()->listeners();
	delete ls.Release(ls.default_result_printer());
	ls.Append(new Listener{});
	return adapterMain<mm::GTestReporterT>(argc, argv, Shows{true, false, true}, [&](const Plan& p) { g_plan = &p; (void)RUN_ALL_TESTS(); });
}
