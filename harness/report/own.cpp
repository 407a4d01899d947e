// Own reporters exchanged at random, the default reporter (initial and installed), and the end of an unfulfilled sequence.
#include <thread>
#include "scenario.hpp"
#include <iostream>
#include <optional>
#include <set>
#include <sstream>

namespace
{
	[[noreturn]] void bad(const std::string& m) { proto::fail("C16", m); }
	struct Violation { Ev ev; };
	int g_current = -1;
	std::vector<Ev> g_events; std::vector<int> g_destroyed; std::set<int> g_alive;

	int expOf(const std::optional<std::source_location>& l) { return l ? static_cast<int>(l->line()) - 100000 : -1; }
	int argOf(const mm::CallReport& c) { return c.argDetails.size() == 1 ? std::atoi(c.argDetails[0].stateString.c_str()) : -1; }

	template <int kind> class Own final : public mm::IReporter
	{
		int m_Id;
		void got(Ev e)
		{
			if (!g_alive.contains(m_Id)) bad("a destroyed reporter is used");
			if (m_Id != g_current) bad(show(e) + " goes to reporter " + std::to_string(m_Id) + ", installed is " + std::to_string(g_current));
			proto::log("reporter " + std::to_string(m_Id) + ": " + show(e));
			g_events.push_back(e);
		}
	public:
		explicit Own(int id) : m_Id{id} { g_alive.insert(id); }
		~Own() override { g_alive.erase(m_Id); g_destroyed.push_back(m_Id); }
		void report_no_matches(mm::CallReport c, std::vector<mm::MatchReport>) override { Ev e{'N', -1, argOf(c), 0, std::uncaught_exceptions() > 0}; got(e); throw Violation{e}; }
		void report_inapplicable_matches(mm::CallReport c, std::vector<mm::MatchReport> r) override { Ev e{'I', -1, argOf(c), 0, std::uncaught_exceptions() > 0}; got(e); if (r.empty()) bad("an inapplicable report lists nothing"); throw Violation{e}; }
		void report_full_match(mm::CallReport c, mm::MatchReport r) noexcept override { got({'F', expOf(r.sourceLocation), argOf(c), 0, std::uncaught_exceptions() > 0}); }
		void report_unfulfilled_expectation(mm::ExpectationReport r) override
		{
			Ev e{'U', expOf(r.sourceLocation), -1, 0, std::uncaught_exceptions() > 0}; got(e);
			if (!e.silent) throw Violation{e};
		}
		void report_error(mm::StringT) override { Ev e{'S', -1, -1, 0, std::uncaught_exceptions() > 0}; got(e); if (!e.silent) bad("an error is reported although no sequence ended"); }
		void report_unhandled_exception(mm::CallReport c, mm::ExpectationReport r, std::exception_ptr x) override
		{
			const int exp = expOf(r.sourceLocation);
			got({'E', exp, argOf(c), 0, std::uncaught_exceptions() > 0});
			try { std::rethrow_exception(x); }
			catch (const std::runtime_error& e) { if (e.what() != "requirement of #" + std::to_string(exp)) bad("the contained exception is another one"); }
			catch (int i) { if (i != exp) bad("the contained exception is another one"); }
			catch (...) { bad("the contained exception is of another type"); }
		}
	};
	void installNext(Rng& r)
	{
		const int old = g_current; const int id = g_current + 1;
		g_destroyed.clear();
		const int kind = r.below(3);
		g_current = id;
		if (kind == 0) mm::install_reporter<Own<0>>(id); else if (kind == 1) mm::install_reporter<Own<1>>(id); else mm::install_reporter<Own<2>>(id);
		if (old >= 0 && g_destroyed != std::vector{old}) bad("replacing a reporter does not destroy exactly the old one");
		if (!g_alive.contains(id) || g_alive.size() != 1) bad("the new reporter is not the only one alive");
		++stat("installs");
	}

	// some scenarios are executed by another thread than the one which installed the reporter
	template <typename F> void elsewhere(std::uint64_t seed, F&& f)
	{
		if (seed % 3 != 0) return f();
		std::exception_ptr e;
		std::thread{[&] { try { f(); } catch (...) { e = std::current_exception(); } }}.join();
		++stat("other_threads");
		if (e) std::rethrow_exception(e);
	}

	void own(std::uint64_t seed)
	{
		const Plan p = makePlan(seed, false); proto::log(describe(p));
		Rng r{seed ^ 77};
		g_current = 0; g_alive.clear(); g_events.clear();
		mm::install_reporter<Own<0>>(0); // the previous case's reporter has been replaced by the default one
		g_between = [&] { if (r.chance(25)) installNext(r); };
		g_problem.clear();
		bool threw = false;
		try { elsewhere(seed, [&] { execute(p); }); } catch (const Violation&) { threw = true; }
		g_between = nullptr;
		if (!g_problem.empty()) bad(g_problem);
		if (threw != p.aborted) bad("the scenario ended " + std::string{threw ? "early" : "normally"});
		for (std::size_t i = 0; i < std::max(p.events.size(), g_events.size()); ++i)
		{
			if (i >= p.events.size()) bad("additional report: " + show(g_events[i]));
			Ev want = p.events[i]; want.mock = 0;
			if (i >= g_events.size()) bad("not reported: " + show(want));
			if (g_events[i] != want) bad("report " + std::to_string(i) + " is " + show(g_events[i]) + " instead of " + show(want));
		}
		g_destroyed.clear();
		mm::install_reporter<mm::DefaultReporter>();
		if (!g_alive.empty()) bad("the replaced reporter is still alive");
		account(p);
	}

	// ---- the default reporter -----------------------------------------------------------------------------------
	std::vector<std::string> g_expectedTexts; std::size_t g_nextText; // violations in order
	std::vector<Ev> g_expectedEvs;
	void inspect(const Op& o)
	{
		if (g_nextText >= g_expectedTexts.size()) { problem("more violations than expected"); return; }
		const std::string& want = g_expectedTexts[g_nextText]; const Ev ev = g_expectedEvs[g_nextText]; ++g_nextText;
		try { throw; }
		catch (const mm::UnmatchedCallT& x)
		{
			if (ev.kind != 'N' && ev.kind != 'I') problem("an unmatched call is thrown for " + show(ev));
			if (x.what() != want) problem("the exception says `" + std::string{x.what()} + "` instead of `" + want + "`");
			if (x.where().line() != callLoc(ev.arg).line()) problem("the exception names another place of the call");
			if (argOf(std::get<0>(x.data())) != ev.arg) problem("the exception carries another call");
			if (ev.kind == 'I' && std::get<1>(x.data()).empty()) problem("the exception carries no expectations");
			for (auto& m : std::get<1>(x.data()))
				if (mm::evaluate_match_report(m) != (ev.kind == 'N' ? mm::MatchResult::none : mm::MatchResult::inapplicable)) problem("the exception carries an expectation which is not part of it");
			++stat("unmatched_exceptions");
		}
		catch (const mm::UnfulfilledExpectationT& x)
		{
			if (ev.kind != 'U') problem("an unfulfilled expectation is thrown for " + show(ev));
			if (x.what() != want) problem("the exception says `" + std::string{x.what()} + "` instead of `" + want + "`");
			if (expOf(x.data().sourceLocation) != ev.exp) problem("the exception carries another expectation");
			++stat("unfulfilled_exceptions");
		}
		catch (const mm::Error<>& x)
		{
			if (ev.kind != 'S') problem("an error is thrown for " + show(ev));
			if (x.what() != want) problem("the exception says `" + std::string{x.what()} + "` instead of `" + want + "`");
			++stat("error_exceptions");
		}
		catch (...) { problem("an exception of another type is thrown"); }
		(void)o;
	}
	std::string strip(const std::string& s) { std::string r; for (char c : s) if (c != '\n') r += c; return r; }

	void defaults(std::uint64_t seed)
	{
		static bool first = true;
		const Plan p = makePlan(seed, !first); proto::log(describe(p));
		std::ostringstream out; const bool silent = seed % 5 == 0 && !first;
		std::streambuf* old = nullptr;
		if (first) { old = std::cerr.rdbuf(out.rdbuf()); ++stat("initial_reporter"); } // nothing was installed yet
		const auto run = [&]
		{
			g_problem.clear();
			bool threw = false;
			try { if (first) execute(p); else elsewhere(seed, [&] { execute(p); }); } catch (...) { threw = true; }
			if (!g_problem.empty()) bad(g_problem);
			if (threw != p.aborted) bad("the scenario ended " + std::string{threw ? "early" : "normally"});
		};
		if (first) run(); // before anything else touches the reporter
		if (old) std::cerr.rdbuf(old);
		const auto texts = capture(p);
		g_expectedTexts.clear(); g_expectedEvs.clear(); g_nextText = 0;
		std::string printed; std::size_t violations = 0;
		for (auto& t : texts) if (t.kind != '+') { printed += t.text + "\n"; if (t.kind == '-') { g_expectedTexts.push_back(t.text); ++violations; } }
		for (auto& e : visible(p)) if (e.first == '-') g_expectedEvs.push_back(e.second);
		if (!first)
		{
			if (silent) mm::install_reporter<mm::DefaultReporter>(); else mm::install_reporter<mm::DefaultReporter>(&out);
			g_inspect = &inspect;
			g_error = [&](const std::string& t) { if (silent) { mm::DefaultReporter r{}; r.report_error(t); } else { mm::DefaultReporter r{&out}; r.report_error(t); } };
			// calls made while unwinding are not inspected
			std::erase_if(g_expectedEvs, [](auto& e) { return e.silent; });
			std::vector<std::string> t2; std::size_t k = 0;
			for (auto& e : visible(p)) if (e.first == '-') { if (!e.second.silent) t2.push_back(g_expectedTexts[k]); ++k; }
			g_expectedTexts = t2;
			run();
			g_inspect = nullptr;
			if (g_nextText != g_expectedTexts.size()) bad("fewer violations than expected");
		}
		if (strip(out.str()) != (silent ? "" : strip(printed))) bad("the default reporter printed `" + out.str() + "` instead of `" + printed + "`");
		first = false;
		account(p);
	}

	// a sequence which ends short while nothing is unwinding (known finding: terminates)
	void seqEnd()
	{
		std::ostringstream out;
		mm::install_reporter<mm::DefaultReporter>(&out);
		bool threw = false;
		++stat("sequence_ends");
		proto::distinct("seqend");
		try
		{
			mm::Mock<void()> m{};
			mm::LazySequence seq{};
			try { mm::ScopedExpectation e{m.expect_call() and mm::expect::in_sequence(seq)}; }
			catch (const mm::UnfulfilledExpectationT&) {}
		}
		catch (const mm::Error<>&) { threw = true; }
		if (!threw) bad("an unfulfilled sequence does not make the test fail");
	}
}

// how the end of a short sequence is reported; runs in a child process, as it may terminate it
#include <sys/wait.h>
void seqKind(std::uint64_t seed)
{
	static int out[2]; if (::pipe(out) != 0) std::exit(2);
	std::fflush(stdout);
	const pid_t child = ::fork();
	if (child == 0)
	{
		static const auto tell = [] { std::string s; for (auto& t : g_captured) s += std::string(1, t.kind) + proto::oneLine(t.text) + "\n"; s += "."; (void)!::write(out[1], s.data(), s.size()); ::_exit(0); };
		std::set_terminate([] { tell(); });
		g_captured.clear();
		mm::install_reporter<CaptureReporter>();
		try
		{
			mm::Mock<void(int)> m{};
			std::vector<std::unique_ptr<mm::ScopedExpectation>> es;
			const auto run = [&](auto& seq)
			{
				const int n = 1 + static_cast<int>(seed / 2 % 5);
				for (int i = 0; i < n; ++i) es.push_back(std::make_unique<mm::ScopedExpectation>(m.expect_call(i) and mm::expect::in_sequence(seq)));
				for (int i = 0; i < static_cast<int>(seed / 10) % n; ++i) m(i);
				for (auto& e : es) try { delete e.release(); } catch (const CapturedFail&) {}
			};
			if (seed & 1) { mm::LazySequence seq{}; run(seq); } else { mm::GreedySequence seq{}; run(seq); }
		}
		catch (...) {}
		tell();
	}
	::close(out[1]);
	std::string told; char b[4096]; for (ssize_t k; (k = ::read(out[0], b, sizeof b)) > 0;) told.append(b, static_cast<std::size_t>(k));
	::close(out[0]);
	int status{}; ::waitpid(child, &status, 0);
	const int n = 1 + static_cast<int>(seed / 2 % 5), met = static_cast<int>(seed / 10) % n;
	std::istringstream in{told}; int successes = 0, unfulfilled = 0, errors = 0; bool end = false;
	for (std::string l; std::getline(in, l);)
	{
		if (l == ".") end = true;
		else if (l[0] == '+') ++successes;
		else if (l[0] == '-' && l.find("nfulfilled sequence") != std::string::npos) ++errors;
		else if (l[0] == '-' && l.find("nfulfilled expectation") != std::string::npos) ++unfulfilled;
		else bad("the end of a short sequence is reported as `" + l + "`");
	}
	if (!end || successes != met || unfulfilled != n - met || errors != 1) bad("a sequence with " + std::to_string(met) + " of " + std::to_string(n) + " entries met tells the reporter: " + proto::oneLine(told));
	++stat("sequence_ends"); proto::distinct("kind" + std::to_string(seed % 100));
}

int main(int argc, char** argv)
{
	return proto::run(argc, argv, [&](long c, std::uint64_t seed)
	{
		if (proto::g_profile == "own") own(seed);
		else if (proto::g_profile == "seqend") seqEnd();
		else if (proto::g_profile == "seqkind") seqKind(seed);
		else defaults(seed);
		(void)c;
	});
}
