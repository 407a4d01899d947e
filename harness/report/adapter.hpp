// Runs scenarios as tests of a framework, and compares what the framework was told with what it has to be told.
#pragma once
#include "scenario.hpp"
struct Shows { bool successText, warning, failText; };
inline std::vector<Text> g_told; inline bool g_failed, g_ran;
inline void add(char kind, std::string text) { g_told.push_back({kind, std::move(text)}); }

template <typename Adapter, typename RunTest>
int adapterMain(int argc, char** argv, Shows shows, RunTest&& runTest)
{
	return proto::run(argc, argv, [&](long, std::uint64_t seed)
	{
		static bool first = true;
		const Plan p = makePlan(seed); proto::log(describe(p));
		if (!first) mm::install_reporter<Adapter>(); // the first test uses the reporter which installed itself
		else ++stat("self_installed");
		first = false;
		g_error = [](const std::string& t) { Adapter r{}; r.report_error(t); };
		g_told.clear(); g_failed = g_ran = false; g_problem.clear();
		runTest(p);
		const auto told = std::move(g_told);
		const auto bad = [](const std::string& m) { proto::fail("C16", m); };
		if (!g_problem.empty()) bad(g_problem);
		if (!g_ran) { std::puts("harness: the framework did not run the test"); std::exit(3); }
		if (g_failed != (p.violations > 0)) bad(std::string{"the test "} + (g_failed ? "fails although nothing was violated" : "passes although there were " + std::to_string(p.violations) + " violations"));
		std::vector<Text> want = capture(p);
		if (!shows.warning) std::erase_if(want, [](auto& t) { return t.kind == 'w'; });
		if (!shows.successText) for (auto& t : want) if (t.kind == '+') t.text.clear();
		for (std::size_t i = 0; i < std::max(want.size(), told.size()); ++i)
		{
			if (i >= told.size()) bad(std::string{"the framework is not told ("} + want[i].kind + "): " + proto::oneLine(want[i].text));
			if (i >= want.size()) bad(std::string{"the framework is told additionally ("} + told[i].kind + "): " + proto::oneLine(told[i].text));
			if (told[i].kind != want[i].kind) bad(std::string{"the framework is told `"} + told[i].kind + "` instead of `" + want[i].kind + "`: " + proto::oneLine(told[i].text) + " / " + proto::oneLine(want[i].text));
			if (told[i].text.find(want[i].text) == std::string::npos) bad("the framework is told `" + proto::oneLine(told[i].text) + "` instead of `" + proto::oneLine(want[i].text) + "`");
		}
		stat("told") += static_cast<long>(told.size());
		account(p);
		if (proto::g_case % 53 == 0) proto::sample(describe(p));
	});
}
