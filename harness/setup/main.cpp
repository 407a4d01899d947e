#include "setup.hpp"

static std::vector<std::string>* g_trace = nullptr;
static void note(const std::string& s) { if (g_trace) g_trace->push_back(s); }
struct NoMatch {};
static std::string stateText(const mm::control_state_t& s)
{
	if (auto* a = std::get_if<mm::state_applicable>(&s)) { std::string r = "applicable " + std::to_string(a->min) + ".." + std::to_string(a->max) + " at " + std::to_string(a->count); for (auto& x : a->sequenceRatings) r += " p" + std::to_string(x.priority); return r; }
	if (auto* i = std::get_if<mm::state_inapplicable>(&s)) { std::string r = "inapplicable " + std::to_string(i->min) + ".." + std::to_string(i->max) + " at " + std::to_string(i->count) + " blocked " + std::to_string(i->inapplicableSequences.size()); for (auto& x : i->sequenceRatings) r += " p" + std::to_string(x.priority); return r; }
	auto& t = std::get<mm::state_saturated>(s); return "saturated " + std::to_string(t.min) + ".." + std::to_string(t.max) + " at " + std::to_string(t.count) + " seqs " + std::to_string(t.sequences.size());
}
static std::string text(const mm::MatchReport& m)
{
	std::string r = "[";
	for (auto& e : m.expectationReports) r += (e.isMatching ? "+" : "-") + e.description.value_or("") + ";";
	return r + stateText(m.controlReport) + "]";
}
static std::optional<std::pair<int, int>> g_lastLimits;
struct Reporter final : mm::IReporter
{
	static void limits(const mm::MatchReport& m) { std::visit([](auto& s) { g_lastLimits.emplace(s.min, s.max); }, m.controlReport); }
	[[noreturn]] void report_no_matches(mm::CallReport, std::vector<mm::MatchReport> ms) override { std::string t = "no match"; for (auto& m : ms) { t += text(m); limits(m); } note(t); throw NoMatch{}; }
	[[noreturn]] void report_inapplicable_matches(mm::CallReport, std::vector<mm::MatchReport> ms) override { std::string t = "inapplicable"; for (auto& m : ms) { t += text(m); limits(m); } note(t); throw NoMatch{}; }
	void report_full_match(mm::CallReport, mm::MatchReport m) noexcept override { note("full " + text(m)); }
	void report_unfulfilled_expectation(mm::ExpectationReport e) override { std::string t = "unfulfilled " + e.timesDescription.value_or("?"); for (auto& d : e.expectationDescriptions) t += d.value_or("") + ";"; note(t); }
	void report_error(mm::StringT s) override { note("error " + s); }
	void report_unhandled_exception(mm::CallReport, mm::ExpectationReport, std::exception_ptr) override { note("unhandled"); }
};
int onCall(int id, int arg) { note("answer " + std::to_string(id) + " for " + std::to_string(arg)); return id * 100 + arg; }

struct Base { ~Base() noexcept(false) {} };
using Watched = mm::Watched<Base, mm::LifetimeWatcher>;
using Both = mm::Watched<Base, mm::LifetimeWatcher, mm::RelocationWatcher>;

static void timesAttempts(Rng& rng)
{
	constexpr int lo = std::numeric_limits<int>::min(), hi = std::numeric_limits<int>::max();
	static const std::vector<int> pool{lo, lo + 1, -100, -2, -1, 0, 1, 2, 3, 99, hi - 1, hi};
	const auto num = [&] { return rng.chance(60) ? rng.pick(pool) : rng.chance(50) ? rng.between(-5, 8) : static_cast<int>(rng.next()); };
	const int a = num(), b = num();
	const auto test = [&](const std::string& what, bool valid, int min, int max, auto&& make)
	{
		bool threw = false;
		try
		{
			auto cfg = make();
			if (!valid) fail("C06", what + " is accepted");
			++stat("limits_accepted");
			// the accepted limits are really the ones in force
			Mock m{};
			const auto saved = g_trace; g_trace = nullptr;
			{
				mm::ScopedExpectation e = m.expect_call(7) && std::move(cfg) && mm::finally::returns(3);
				if (e.is_satisfied() != (min == 0)) fail("C06,C02", what + ": satisfied state of the fresh expectation is wrong");
				g_lastLimits.reset();
				try { m(8); } catch (const NoMatch&) {}
				if (!g_lastLimits || *g_lastLimits != std::pair{min, max}) fail("C06,C02,C13", what + ": other limits are in force");
			}
			g_trace = saved;
		}
		catch (const std::invalid_argument& e) { threw = true; if (!*e.what()) fail("C06", what + ": rejected without explanation"); }
		catch (const NoMatch&) { throw; }
		catch (...) { fail("C06", what + ": rejected with an exception of an undocumented type"); }
		if (threw == valid) fail("C06", what + (valid ? " is rejected" : " is accepted"));
		if (threw) ++stat("limits_rejected");
	};
	const auto i = [](int x) { return std::to_string(x); };
	test("times(" + i(a) + "," + i(b) + ")", a >= 0 && b >= 0 && a <= b, a, b, [&] { return mm::expect::times(a, b); });
	test("times(" + i(a) + ")", a >= 0, a, a, [&] { return mm::expect::times(a); });
	test("at_least(" + i(a) + ")", a >= 0, a, hi, [&] { return mm::expect::at_least(a); });
	test("at_most(" + i(a) + ")", a >= 0, 0, a, [&] { return mm::expect::at_most(a); });
}

// one run of the history; `attempts` switches the rejected set-ups on
static std::vector<std::string> history(std::uint64_t seed, bool attempts)
{
	std::vector<std::string> trace; g_trace = &trace;
	Rng rng{seed}; Rng arng{seed ^ 0xABCDEF};
	std::string tried;
	{
		Shared s;
		s.mocks.resize(2); s.cmocks.resize(2); s.lazy.resize(3); s.greedy.resize(2);
		std::vector<std::pair<int, std::optional<mm::ScopedExpectation>>> exps;
		std::vector<std::unique_ptr<Watched>> ws; std::vector<std::optional<mm::ScopedExpectation>> wexp;
		std::vector<std::unique_ptr<Both>> bs; std::vector<std::optional<mm::ScopedExpectation>> bexp;
		std::vector<char> wRequested, bRequested;
		int nextId = 0;
		const auto attempt = [&]
		{
			if (!attempts) return;
			for (int k = arng.below(3); k > 0; --k)
				switch (arng.below(5))
				{
				case 0: timesAttempts(arng); break;
				case 1:
				case 2:
					{
						Pick p; for (int& x : p.l) x = arng.below(3); for (int& x : p.g) x = arng.below(2);
						bool want = false; std::string what;
						const bool threw = attemptShape(arng.below(shapeCount()), s, p, arng.below(2), want, what);
						std::string where; for (int x : p.l) where += std::to_string(x); where += "/"; for (int x : p.g) where += std::to_string(x);
						if (threw != want) fail("C06", what + " with sequences " + where + (want ? " is accepted although a sequence is given twice" : " is rejected although all sequences differ"));
						++stat(want ? "duplicates_rejected" : "abandoned_builders");
						tried += what + (want ? " rejected; " : " abandoned; ");
						break;
					}
				case 3: // destruction expected once more
					for (std::size_t i = 0; i < ws.size(); ++i)
						if (ws[i] && wRequested[i] && arng.chance(60))
						{
							try { auto b = ws[i]->expect_destruct(); fail("C06", "expecting the destruction of an object twice is accepted"); }
							catch (const std::logic_error& e) { if (dynamic_cast<const std::invalid_argument*>(&e) || !*e.what()) fail("C06", "second destruct expectation: undocumented exception"); }
							catch (...) { fail("C06", "second destruct expectation: exception of an undocumented type"); }
							++stat("destructs_rejected"); tried += "second expect_destruct; ";
						}
					break;
				default:
					for (std::size_t i = 0; i < bs.size(); ++i)
						if (bs[i] && bRequested[i] && arng.chance(60))
						{
							try { mm::ScopedExpectation e = bs[i]->expect_destruct(); fail("C06", "expecting the destruction of an object twice is accepted"); }
							catch (const std::logic_error&) {}
							++stat("destructs_rejected");
						}
					break;
				}
		};
		const int steps = 15 + rng.below(25);
		for (int i = 0; i < steps; ++i)
		{
			attempt();
			note("step " + std::to_string(i));
			switch (rng.below(12))
			{
			case 0: case 1: case 2:
				{
					const int min = rng.below(3), max = min + rng.below(3), id = nextId++;
					const bool cm = rng.chance(30);
					const int mask = rng.chance(70) ? 255 : rng.below(256), mock = rng.below(2), shape = rng.below(4), a = rng.below(3), b = rng.below(2);
					exps.emplace_back(id, makeExp(s, mock, cm, mask, id, min, max, shape, a, b));
					break;
				}
			case 3: case 4: case 5: case 6:
				{
					const int m = rng.below(2), v = rng.below(8); const bool cm = rng.chance(30);
					try { note("result " + std::to_string(cm ? s.cmocks[static_cast<std::size_t>(m)](v) : s.mocks[static_cast<std::size_t>(m)](v))); } catch (const NoMatch&) {}
					break;
				}
			case 7:
				if (!exps.empty()) { const auto k = static_cast<std::size_t>(rng.below(static_cast<int>(exps.size()))); if (exps[k].second) { note("destroy " + std::to_string(exps[k].first)); exps[k].second.reset(); } }
				break;
			case 8: ws.push_back(std::make_unique<Watched>()); wexp.emplace_back(std::nullopt); wRequested.push_back(0); break;
			case 9:
				for (std::size_t k = 0; k < ws.size(); ++k)
					if (ws[k] && !wRequested[k] && rng.chance(70))
					{
						wRequested[k] = 1;
						if (rng.chance(50)) wexp[k].emplace(ws[k]->expect_destruct());
						else wexp[k].emplace(ws[k]->expect_destruct() && mm::expect::in_sequence(s.lazy[static_cast<std::size_t>(rng.below(3))]));
					}
				break;
			case 10:
				{
					bs.push_back(std::make_unique<Both>()); bexp.emplace_back(std::nullopt); bRequested.push_back(rng.chance(60));
					if (bRequested.back()) bexp.back().emplace(bs.back()->expect_destruct());
					break;
				}
			default:
				{
					auto kill = [&](auto& v, std::size_t k) { try { note("kill"); delete v[k].release(); note("killed"); } catch (const NoMatch&) { note("kill failed"); } };
					if (!ws.empty() && rng.chance(60)) { const auto k = static_cast<std::size_t>(rng.below(static_cast<int>(ws.size()))); if (ws[k]) kill(ws, k); }
					else if (!bs.empty()) { const auto k = static_cast<std::size_t>(rng.below(static_cast<int>(bs.size()))); if (bs[k]) kill(bs, k); }
				}
			}
			for (auto& [id, e] : exps) if (e) note("sat " + std::to_string(id) + (e->is_satisfied() ? "+" : "-"));
			for (auto& e : wexp) if (e) note(e->is_satisfied() ? "w+" : "w-");
		}
		attempt();
		for (auto& w : ws) if (w) { try { delete w.release(); } catch (const NoMatch&) { note("kill failed"); } }
		for (auto& w : bs) if (w) { try { delete w.release(); } catch (const NoMatch&) { note("kill failed"); } }
		attempt();
		wexp.clear(); bexp.clear();
		while (!exps.empty()) { exps.pop_back(); attempt(); }
		note("sequences end");
	}
	g_trace = nullptr;
	if (attempts) proto::sample("attempts: " + tried + " trace length " + std::to_string(trace.size()));
	return trace;
}

int main(int argc, char** argv)
{
	mm::install_reporter<Reporter>();
	return proto::run(argc, argv, [](long, std::uint64_t seed)
	{
		if (proto::g_profile == "times")
		{
			Rng rng{seed};
			for (int i = 0; i < 40; ++i) timesAttempts(rng);
			proto::distinct(seed);
			proto::sample("40 random/boundary limit pairs, seed " + std::to_string(seed));
			return;
		}
		const auto plain = history(seed, false);
		const auto tried = history(seed, true);
		std::string h; for (auto& l : plain) h += l;
		if (plain != tried)
		{
			std::size_t i = 0; while (i < plain.size() && i < tried.size() && plain[i] == tried[i]) ++i;
			for (std::size_t k = i > 8 ? i - 8 : 0; k < i; ++k) proto::log(plain[k]);
			fail("C06", "rejected or abandoned set-ups changed the behaviour: without them '" + (i < plain.size() ? plain[i] : "<end>") + "', with them '" + (i < tried.size() ? tried[i] : "<end>") + "'");
		}
		stat("trace_events") += static_cast<long>(plain.size());
		if (h.find("answer") != std::string::npos) proto::distinct(h);
	});
}
