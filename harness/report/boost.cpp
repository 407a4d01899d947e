#define BOOST_TEST_NO_MAIN
#include <boost/test/unit_test.hpp>
#include <boost/test/tree/observer.hpp>
#include <boost/test/results_collector.hpp>
#include <boost/test/unit_test_log_formatter.hpp>
#include "mimic++/adapters/BoostTest.hpp"
#include "adapter.hpp"
namespace but = boost::unit_test;
namespace
{
	const Plan* g_plan;
	// receives everything which is logged
	class Formatter final : public but::unit_test_log_formatter
	{
		char kind{'?'}; std::string text;
		void log_start(std::ostream&, but::counter_t) override {}
		void log_finish(std::ostream&) override {}
		void log_build_info(std::ostream&, bool) override {}
		void test_unit_start(std::ostream&, const but::test_unit&) override {}
		void test_unit_finish(std::ostream&, const but::test_unit&, unsigned long) override {}
		void test_unit_skipped(std::ostream&, const but::test_unit&, but::const_string) override {}
		void log_exception_start(std::ostream&, const but::log_checkpoint_data&, const boost::execution_exception&) override { add('?', "exception"); }
		void log_exception_finish(std::ostream&) override {}
		void log_entry_start(std::ostream&, const but::log_entry_data&, log_entry_types t) override
		{
			kind = t == BOOST_UTL_ET_INFO ? 'i' : t == BOOST_UTL_ET_MESSAGE ? 'm' : t == BOOST_UTL_ET_WARNING ? 'W' : t == BOOST_UTL_ET_ERROR ? 'e' : '-';
			text.clear();
		}
		void log_entry_value(std::ostream&, but::const_string v) override { text.append(v.begin(), v.end()); }
		void log_entry_value(std::ostream&, const but::lazy_ostream& v) override { std::ostringstream s; s << v; text += s.str(); }
		void log_entry_finish(std::ostream&) override
		{
			if (kind == 'i') return; // passed checks of the framework itself
			if (kind == 'm') { if (text.rfind("warning: ", 0) == 0) add('w', text.substr(9)); else add('+', text); return; }
			add(kind, text);
		}
		void entry_context_start(std::ostream&, but::log_level) override {}
		void log_entry_context(std::ostream&, but::log_level, but::const_string) override {}
		void entry_context_finish(std::ostream&, but::log_level) override {}
	};
	void body() { BOOST_TEST(true); execute(*g_plan); }
	but::test_suite* init(int, char**) { return nullptr; }
}
int main(int argc, char** argv)
{
	char name[] = "boost"; char nosig[] = "--catch_system_errors=no"; char* a[] = {name, nosig, nullptr};
	but::framework::init(&init, 2, a);
	but::test_case* tc = but::make_test_case(&body, "scenario", __FILE__, __LINE__);
	but::framework::master_test_suite().add(tc);
	but::framework::finalize_setup_phase();
	tc->p_run_status.value = but::test_unit::RS_ENABLED;
	but::framework::master_test_suite().p_run_status.value = but::test_unit::RS_ENABLED;
	static std::ostringstream sink;
	but::unit_test_log.set_formatter(new Formatter{});
	but::unit_test_log.set_stream(sink);
	but::unit_test_log.set_threshold_level(but::log_messages);
	return adapterMain<mm::BoostTestReporterT>(argc, argv, Shows{true, true, true}, [&](const Plan& p)
	{
		g_plan = &p;
		but::framework::run(tc->p_id, false);
		g_ran = true;
		const auto& r = but::results_collector.results(tc->p_id);
		g_failed = !r.passed();
	});
}
