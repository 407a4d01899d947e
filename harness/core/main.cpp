// Reference model + random driver for the scenario engine.
#include "engine.hpp"
#include "text.hpp"
#include "same.hpp"
#include "../common/loc.hpp"
#include "../common/proto.hpp"
#include <algorithm>
#include <cstring>
#include <iterator>

namespace eng
{
	// ---------------------------------------------------------------- source locations on distinct lines
	using Loc = std::source_location;
#define LOCFN +[] { return Loc::current(); }
	static Loc (*const g_locs[])() = {
		LOCFN,
		LOCFN,
		LOCFN,
		LOCFN,
		LOCFN,
		LOCFN,
		LOCFN,
		LOCFN,
		LOCFN,
		LOCFN,
		LOCFN,
		LOCFN,
	};
	constexpr int locCount = static_cast<int>(std::size(g_locs)) + testloc::oddCount;
	static Loc locNo(int i) { return i < static_cast<int>(std::size(g_locs)) ? g_locs[i]() : testloc::odd(i - static_cast<int>(std::size(g_locs))); }

	struct Profile
	{
		std::string name;
		int mocks = 3, steps = 40, maxLive = 7;
		int pSeq = 40;         // % sequenced expectations
		int pMulti = 30;       // % of sequenced ones attached to several sequences
		int pWide = 50;        // % accepting nearly everything
		int pOptional = 40;    // % with min == 0
		int pThrow = 4;        // % expectations with throwing requirement
		int pNested = 12;      // % expectations with nested script
		int pFinThrow = 5; int pActThrow = 1; int pText = 5;
		int wCreate = 30, wCall = 45, wDestroy = 8, wMove = 6, wMock = 2, wSeq = 2, wProbe = 12;
		int nLazy = 2, nGreedy = 2;
		int pGoodCall = 85;
		int onlyKind = -1;
	};

	static Profile profileFor(const std::string& n)
	{
		Profile p; p.name = n;
		if (n == "limits") { p.pSeq = 15; p.maxLive = 5; p.wMove = 20; p.wDestroy = 14; p.pNested = 15; }
		else if (n == "latest") { p.pSeq = 0; p.pWide = 85; p.maxLive = 12; p.steps = 50; p.wMove = 10; p.wDestroy = 12; p.mocks = 2; }
		else if (n == "order") { p.pSeq = 85; p.pMulti = 45; p.pOptional = 35; p.nLazy = 2; p.nGreedy = 2; p.maxLive = 10; p.pNested = 5; p.wDestroy = 5; p.wSeq = 4; p.steps = 50; }
		else if (n == "prefer") { p.pSeq = 95; p.pMulti = 5; p.pOptional = 80; p.pWide = 85; p.nLazy = 1; p.nGreedy = 1; p.maxLive = 12; p.pNested = 3; p.wDestroy = 3; p.mocks = 2; p.steps = 50; p.pThrow = 1; }
		else if (n == "actions") { p.pNested = 10; p.pFinThrow = 25; p.pSeq = 20; p.wCall = 70; }
		else if (n == "reports") { p.wProbe = 40; p.pGoodCall = 55; p.pSeq = 55; p.pText = 100; p.pThrow = 10; p.steps = 25; }
		else if (n == "faults") { p.pThrow = 40; p.pFinThrow = 15; p.pSeq = 30; }
		else if (n == "lifetime") { p.wMove = 25; p.wMock = 12; p.wSeq = 10; p.wDestroy = 15; p.pSeq = 55; }
		else if (n == "nested") { p.pNested = 60; p.steps = 30; p.pSeq = 35; p.pOptional = 30; }
		return p;
	}

	// ---------------------------------------------------------------- model
	struct MSeq
	{
		int id; bool lazy;
		std::vector<int> entries; // expectation ids
		int cursor = 0;
		bool handleAlive = true; int refs = 0; bool ended = false;
		mm::sequence::Tag tag{};
	};
	enum Script { sc_none, sc_call, sc_badcall, sc_create, sc_destroy, sc_destroySelf, sc_callSelf, sc_throw, sc_badcallEscape };
	struct MExp
	{
		int id; int coll; int epIdx; int kind;
		mm::Constness cn; mm::ValueCategory vc;
		unsigned mask0, mask1, throwMask; unsigned silent[2]{255u, 255u};
		int throwKind;
		int min, max, count = 0;
		bool timesGiven;
		std::vector<std::pair<int, int>> seqs; // seq id, index
		bool alive = true;
		Loc loc;
		int script[2]{sc_none, sc_none}; int finThrow = 0; bool finNested = false;
		std::unique_ptr<mm::ScopedExpectation> handle;
		bool threwBefore = false; // a requirement of it threw in an earlier call
		std::string describe() const
		{
			std::ostringstream o;
			o << "exp#" << id << "{coll=" << coll << " ep=" << epIdx << " masks=" << std::hex << mask0 << "/" << mask1 << "/" << silent[0] << "/" << silent[1] << std::dec << " times=[" << min << "," << max << "] count=" << count << " seqs=";
			for (auto& [s, i] : seqs) o << s << "@" << i << " ";
			if (throwMask) o << " throwMask=" << throwMask;
			o << (alive ? "" : " dead") << "}";
			return o.str();
		}
	};
	struct MMock { std::unique_ptr<IMock> real; int kind; int coll[2]; };
	struct Frame
	{
		int coll; mm::Constness cn; mm::ValueCategory vc; int a, b; bool unary; Loc loc;
		std::set<int> toThrow, full, inap, none, asked;
		std::vector<int> fullOrder; // newest first
		enum { pending, matched, rejected, finalized } stage = pending;
		bool hadNested = false; // operations were performed by its actions
		int chosen = -1; int nextHook = 0; bool userEx = false; int result = 0; bool escaped = false;
		CallOutcome raised = CallOutcome::value;
	};

	struct Stats
	{
		long cases = 0, ops = 0, calls = 0, answered = 0, noMatch = 0, inapplicable = 0, multiCandidates = 0, sequencedAnswers = 0,
			exceptionsContained = 0, finalizerThrows = 0, nestedCalls = 0, nestedCreates = 0, nestedDestroys = 0, maxDepth = 0, created = 0, destroyed = 0,
			unfulfilled = 0, seqErrors = 0, endTexts = 0, thrownReports = 0, handling = 0, selfDestroys = 0, handleMoves = 0, handleAssign = 0, mockMoves = 0, mockDestroyedEarly = 0, seqDestroyedEarly = 0,
			entriesChecked = 0, preferenceDecisions = 0, skips = 0, ambiguous = 0, satisfiedChecks = 0, rejectedSetups = 0, unwinding = 0, hooks = 0, matchQueries = 0;
		std::unordered_set<std::uint64_t> states, histories;
		long nontrivialCases = 0;
	} st;

	struct World;
	static World* W = nullptr;

	using proto::log;
	[[noreturn]] void fail(std::string tags, const std::string& msg); // adds the properties the circumstances belong to

	struct RecordingReporter final : mm::IReporter
	{
		[[noreturn]] void report_no_matches(mm::CallReport call, std::vector<mm::MatchReport> m) override;
		[[noreturn]] void report_inapplicable_matches(mm::CallReport call, std::vector<mm::MatchReport> m) override;
		void report_full_match(mm::CallReport call, mm::MatchReport m) noexcept override;
		void report_unfulfilled_expectation(mm::ExpectationReport e) override;
		void report_error(mm::StringT message) override;
		void report_unhandled_exception(mm::CallReport call, mm::ExpectationReport e, std::exception_ptr ex) override;
	};

	static int idOf(const std::vector<mm::MatchReport::Expectation>& v)
	{
		for (auto& e : v)
			if (e.description && e.description->rfind("probe#", 0) == 0) return std::atoi(e.description->c_str() + 6);
		return -1;
	}
	static int idOf(const mm::ExpectationReport& r)
	{
		for (auto& e : r.expectationDescriptions)
			if (e && e->rfind("probe#", 0) == 0) return std::atoi(e->c_str() + 6);
		return -1;
	}

	static std::string verbal(int n) { return n == 0 ? "never" : n == 1 ? "once" : n == 2 ? "twice" : std::to_string(n) + " times"; }

	struct World
	{
		Profile P; Rng rng; Rng textRng{7};
		std::vector<MMock> mocks;
		std::vector<std::unique_ptr<mm::LazySequence>> lazies;
		std::vector<std::unique_ptr<mm::GreedySequence>> greedies;
		std::vector<int> lazyIds, greedyIds; // model seq ids
		std::vector<MSeq> seqs;
		std::vector<MExp> exps;
		std::vector<Frame*> stack;
		int nextColl = 0, serial = 0, depth = 0, opsLeftNested = 60;
		std::vector<int> unfulfilledSeen; int errorsSeen = 0; // events of the op in progress
		std::set<int> expectUnfulfilled; int expectErrors = 0; bool inDestroy = false;
		bool throwUnfulfilled = false;
		struct End { int low, high, total; }; // of a sequence that ended unfulfilled: satisfied entries before the first unsatisfied one, all satisfied ones, all entries
		std::vector<End> ends;
		std::set<int> movedColls; std::set<int> movedExps; bool seqGone = false; int subject = -1; // circumstances
		std::uint64_t hist = 1469598103934665603ull;
		bool sawMulti = false, sawAnswer = false;

		explicit World(const Profile& p, std::uint64_t seed) : P{p}, rng{seed}, textRng{seed} { same::reset(); }
		void mix(std::uint64_t v) { hist = (hist ^ v) * 1099511628211ull; }

		MExp& E(int id) { return exps[static_cast<std::size_t>(id)]; }
		MSeq& S(int id) { return seqs[static_cast<std::size_t>(id)]; }

		// ------------------------------------------------ model queries
		bool entrySatisfied(int expId) { return E(expId).min <= E(expId).count; }
		bool consumable(int seqId, int idx)
		{
			MSeq& s = S(seqId);
			if (idx < s.cursor) return false;
			for (int i = s.cursor; i < idx; ++i)
				if (!entrySatisfied(s.entries[static_cast<std::size_t>(i)])) return false;
			return true;
		}
		bool applicable(MExp& e)
		{
			if (e.count >= e.max) return false;
			for (auto& [s, i] : e.seqs) if (!consumable(s, i)) return false;
			return true;
		}
		bool argsMatch(const MExp& e, const Frame& f)
		{
			const auto in = [](unsigned m, int v) { return v >= 0 && v < 8 && ((m >> v) & 1u); };
			return in(e.mask0, f.a) && (f.unary || in(e.mask1, f.b)) && silentMatch(e, f) && viewMatch(e, f);
		}
		static bool silentMatch(const MExp& e, const Frame& f) { return f.a < 0 || f.a >= 8 || ((e.silent[0] & e.silent[1]) >> f.a & 1u); }
		static bool viewMatch(const MExp& e, const Frame& f)
		{
			const bool c = e.cn == f.cn;
			const bool v = e.vc == f.vc;
			return c && v;
		}
		// priority used for choosing in one sequence: larger is better
		int prio(int seqId, int idx) { MSeq& s = S(seqId); return s.lazy ? -(idx - s.cursor) : (idx - s.cursor); }
		bool keepsBest(const MExp& best, const MExp& other)
		{
			int r = 0;
			for (auto& [s, i] : best.seqs)
			{
				auto it = std::find_if(other.seqs.begin(), other.seqs.end(), [s = s](auto& x) { return x.first == s; });
				if (it == other.seqs.end()) return true;
				r += prio(s, i) < prio(s, it->second) ? -1 : 1;
			}
			return r >= 0;
		}
		int pick(const std::vector<int>& newestFirst)
		{
			int best = newestFirst.front();
			for (int id : newestFirst)
				if (id != best && !keepsBest(E(best), E(id))) best = id;
			return best;
		}
		bool simpleCandidates(const std::vector<int>& v) { return std::all_of(v.begin(), v.end(), [&](int i) { return E(i).seqs.size() <= 1; }); }

		void buildFrame(Frame& f)
		{
			for (auto it = exps.rbegin(); it != exps.rend(); ++it)
			{
				MExp& e = *it;
				if (!e.alive || e.coll != f.coll) continue;
				if (f.a >= 0 && f.a < 8 && ((e.throwMask >> f.a) & 1u)) { f.toThrow.insert(e.id); continue; }
				if (!argsMatch(e, f)) f.none.insert(e.id);
				else if (!applicable(e)) f.inap.insert(e.id);
				else { f.full.insert(e.id); f.fullOrder.push_back(e.id); }
			}
		}
		static std::string show(const std::set<int>& s) { std::string r = "{"; for (int i : s) r += std::to_string(i) + " "; return r + "}"; }
		std::string showFrame(const Frame& f)
		{
			std::string r = "call coll=" + std::to_string(f.coll) + " args=" + std::to_string(f.a) + "," + std::to_string(f.b)
				+ " model: full=" + show(f.full) + " inapplicable=" + show(f.inap) + " none=" + show(f.none) + " throwing=" + show(f.toThrow) + "\n";
			for (auto& e : exps) if (e.coll == f.coll || !e.seqs.empty()) r += "    " + e.describe() + "\n";
			for (auto& s : seqs) { r += "    seq" + std::to_string(s.id) + (s.lazy ? "L" : "G") + " cursor=" + std::to_string(s.cursor) + " entries="; for (int i : s.entries) r += std::to_string(i) + " "; r += "\n"; }
			return r;
		}
		Frame& top(const char* what)
		{
			if (stack.empty()) fail("C01,C07,C13", std::string{what} + " while no call is in progress");
			return *stack.back();
		}

		// ------------------------------------------------ checking reports
		void checkCall(const mm::CallReport& c, const Frame& f)
		{
			const std::string T = "C13";
			const std::size_t n = f.unary ? 1 : 2;
			if (c.argDetails.size() != n) fail(T, "call report lists a wrong number of arguments");
			if (c.argDetails[0].stateString != std::to_string(f.a) || (!f.unary && c.argDetails[1].stateString != std::to_string(f.b)))
				fail(T, "call report shows wrong argument values: " + c.argDetails[0].stateString + (f.unary ? "" : "," + c.argDetails[1].stateString) + "; " + showFrame(f));
			for (auto& a : c.argDetails) if (a.typeIndex != std::type_index{typeid(int)}) fail(T, "call report shows a wrong argument type");
			if (c.returnTypeIndex != (f.unary ? std::type_index{typeid(void)} : std::type_index{typeid(int)})) fail(T, "call report shows a wrong return type");
			if (c.fromCategory != f.vc || c.fromConstness != f.cn) fail("C13,C09", "call report shows a wrong constness or value category");
			if (!testloc::same(c.fromLoc, f.loc))
				fail(T, "call report shows a wrong source location");
		}
		void checkDescriptions(const MExp& e, const std::vector<std::optional<mm::StringT>>& ds, const std::vector<bool>* matching, const Frame* f)
		{
			int probes = 0, preds = 0; std::size_t silent = 0; bool sawCat = false, sawConst = false; bool all = true;
			for (std::size_t i = 0; i < ds.size(); ++i)
			{
				const bool m = matching ? (*matching)[i] : true;
				all = all && m;
				if (!ds[i]) { silent += !m; continue; }
				const std::string& d = *ds[i];
				if (d.rfind("probe#", 0) == 0) { ++probes; if (!m) fail("C13,C20", "satisfied user requirement reported as violated: " + d); if (std::atoi(d.c_str() + 6) != e.id) fail("C13", "foreign requirement in report of " + e.describe() + ": " + d); continue; }
				if (const auto p = d.find("pred#"); p != std::string::npos)
				{
					const int id = std::atoi(d.c_str() + p + 5); const auto sl = d.find('/', p); const int no = std::atoi(d.c_str() + sl + 1);
					if (id != e.id) fail("C13", "foreign requirement in report of " + e.describe() + ": " + d);
					++preds;
					if (f)
					{
						const int v = no == 0 ? f->a : f->b; const unsigned mask = no == 0 ? e.mask0 : e.mask1;
						const bool want = v >= 0 && v < 8 && ((mask >> v) & 1u);
						if (want != m) fail("C13", "requirement '" + d + "' is reported as " + (m ? "met" : "violated") + ", but is " + (want ? "met" : "violated") + "; " + showFrame(*f));
					}
					if (d.find("arg[" + std::to_string(no) + "]") == std::string::npos) fail("C13", "requirement description does not name its argument: " + d);
					continue;
				}
				if (d.find("overload") != std::string::npos)
				{
					const bool isConst = d.find("qualified") != std::string::npos;
					(isConst ? sawConst : sawCat) = true;
					if (f)
					{
						const bool want = isConst ? e.cn == f->cn : e.vc == f->vc;
						if (want != m) fail("C13,C09", "overload requirement '" + d + "' is reported as " + (m ? "met" : "violated") + " wrongly");
					}
				}
			}
			if (probes != 2 || preds != (e.kind == 3 && e.epIdx == 1 ? 1 : 2))
				fail("C13", "report of " + e.describe() + " does not list all its requirements (" + std::to_string(probes) + " custom, " + std::to_string(preds) + " argument requirements)");
			if (!sawCat || !sawConst) fail("C13", "report of " + e.describe() + " lacks its overload requirements");
			if (f && !ds.empty())
			{
				std::size_t want = 0;
				for (unsigned mask : e.silent) want += f->a >= 0 && f->a < 8 && !(mask >> f->a & 1u);
				if (silent != want) fail("C13,C01", std::to_string(silent) + " requirements without description are reported as violated instead of " + std::to_string(want) + ": " + e.describe());
			}
			if (f && all != argsMatch(e, *f)) fail("C13,C01", "report of " + e.describe() + " claims that the requirements are " + (all ? "all met" : "not met"));
			++st.entriesChecked;
		}
		void checkLoc(const std::optional<Loc>& l, const MExp& e)
		{
			if (!l || !testloc::same(*l, e.loc)) fail("C13", "wrong creation location in report of " + e.describe());
		}
		void checkState(const MExp& e, const mm::control_state_t& cs)
		{
			int min{}, max{}, count{};
			std::vector<mm::sequence::Tag> ok, bad, sat; int which = 0;
			if (auto* a = std::get_if<mm::state_applicable>(&cs)) { which = 0; min = a->min; max = a->max; count = a->count; for (auto& r : a->sequenceRatings) ok.push_back(r.tag); }
			else if (auto* i = std::get_if<mm::state_inapplicable>(&cs)) { which = 1; min = i->min; max = i->max; count = i->count; for (auto& r : i->sequenceRatings) ok.push_back(r.tag); bad = i->inapplicableSequences; }
			else { auto& s = std::get<mm::state_saturated>(cs); which = 2; min = s.min; max = s.max; count = s.count; sat = s.sequences; }
			const auto num = [&] { return " reported min/max/count=" + std::to_string(min) + "/" + std::to_string(max) + "/" + std::to_string(count) + " for " + e.describe(); };
			if (min != e.min || max != e.max) fail("C13,C02", "wrong limits in report:" + num());
			if (count != e.count) fail("C13,C02,C01", "wrong call count in report:" + num());
			std::vector<mm::sequence::Tag> wok, wbad, wsat;
			int want = 0;
			if (e.count == e.max) { want = 2; for (auto& [s, i] : e.seqs) wsat.push_back(S(s).tag); }
			else
			{
				for (auto& [s, i] : e.seqs) (consumable(s, i) ? wok : wbad).push_back(S(s).tag);
				want = wbad.empty() ? 0 : 1;
			}
			const auto norm = [](auto& v) { std::sort(v.begin(), v.end()); };
			norm(ok); norm(bad); norm(sat); norm(wok); norm(wbad); norm(wsat);
			if (which != want) fail("C13,C04,C02", "wrong usability state in report of " + e.describe() + ": got " + std::to_string(which) + " want " + std::to_string(want));
			if (ok != wok || bad != wbad || sat != wsat) fail("C13,C04", "wrong sequence states in report of " + e.describe());
		}
		void checkMatchReport(const mm::MatchReport& m, const Frame& f, int& idOut)
		{
			const int id = idOf(m.expectationReports);
			if (id < 0 || id >= static_cast<int>(exps.size())) fail("C13", "report names an unknown expectation");
			MExp& e = E(id); idOut = id;
			checkLoc(m.sourceLocation, e);
			std::vector<std::optional<mm::StringT>> ds; std::vector<bool> ms;
			for (auto& x : m.expectationReports) { ds.push_back(x.description); ms.push_back(x.isMatching); }
			checkState(e, m.controlReport);
			checkDescriptions(e, ds, &ms, &f);
		}
		std::string wantTimes(MExp& e)
		{
			std::string r;
			if (e.count == e.max) r = "already saturated (matched " + verbal(e.count) + ")";
			else if (e.min <= e.count) r = "accepts further matches (matched " + std::to_string(e.count) + " out of " + std::to_string(e.max) + " times)";
			else r = "matched " + verbal(e.count) + " - " + (e.min < e.max ? "between " + std::to_string(e.min) + " and " + std::to_string(e.max) + " times" : "exactly " + verbal(e.max)) + " is expected";
			const auto n = e.seqs.size();
			if (!n) return r;
			if (e.count == e.max) return r + ",\n\tand is part of " + std::to_string(n) + " sequence(s).";
			std::size_t bad = 0;
			for (auto& [s, i] : e.seqs) bad += !consumable(s, i);
			if (bad) return r + ",\n\tbut is not the current element of " + std::to_string(bad) + " sequence(s) (" + std::to_string(n) + " total).";
			return r + ",\n\tand is the current element of " + std::to_string(n) + " sequence(s).";
		}
		void checkExpReport(const mm::ExpectationReport& r, MExp& e)
		{
			subject = e.id;
			checkLoc(r.sourceLocation, e);
			checkDescriptions(e, r.expectationDescriptions, nullptr, nullptr);
			if (!r.timesDescription || *r.timesDescription != wantTimes(e))
				fail("C13", "wrong times description: '" + r.timesDescription.value_or("<none>") + "' for " + e.describe() + ", expected '" + wantTimes(e) + "'");
			if (stack.empty())
			{
				// the text rendered from the report names location and times
				const std::string txt = mm::print(r);
				if (txt.find(*r.timesDescription) == std::string::npos || txt.find("[" + std::to_string(e.loc.line()) + ":") == std::string::npos)
					fail("C13", "text of expectation report lacks facts: " + txt);
			}
		}

		bool textNow() { return textRng.chance(P.pText); }
		// ------------------------------------------------ reporter events
		std::string blame(const Frame& f, int got)
		{
			// which properties does answering by `got` contradict
			MExp& e = E(got);
			std::string t = "C01";
			if (!e.alive || e.coll != f.coll) return "C01,C09,C18";
			if (f.toThrow.contains(got)) return "C14,C01";
			if (f.none.contains(got)) return "C01" + std::string{viewMatch(e, f) ? "" : ",C09"};
			if (e.count >= e.max) return "C02,C01,C19";
			for (auto& [s, i] : e.seqs) if (!consumable(s, i)) return "C04,C01";
			const int want = f.fullOrder.empty() ? -1 : const_cast<World*>(this)->pick(f.fullOrder);
			if (want < 0) return t;
			if (E(want).seqs.empty() && e.seqs.empty()) return t + ",C03";
			if (E(want).seqs.size() == 1 && e.seqs.size() == 1 && E(want).seqs[0].first == e.seqs[0].first) return t + ",C05,C04";
			return t + ",C03,C05";
		}
		void fullMatch(const mm::CallReport& c, const mm::MatchReport& m)
		{
			Frame& f = top("full-match report");
			++st.hooks;
			if (f.stage != Frame::pending) fail("C01", "second resolution of one call (full match); " + showFrame(f));
			const int named = idOf(m.expectationReports);
			if (named >= 0 && named < static_cast<int>(exps.size()) && !f.full.contains(named))
				fail(blame(f, named), "full match by exp#" + std::to_string(named) + " which may not answer; " + showFrame(f));
			int id{};
			checkCall(c, f);
			checkMatchReport(m, f, id);
			if (textNow()) { text::full(c, m); same::seen(c); same::seen(m); }
			if (!std::all_of(f.toThrow.begin(), f.toThrow.end(), [&](int x) { return f.asked.contains(~x); }))
				fail("C14", "a throwing requirement was not reported before the call was resolved; " + showFrame(f));
			const int want = pick(f.fullOrder);
			if (id != want)
			{
				if (simpleCandidates(f.fullOrder) || !admissible(f, id))
					fail(blame(f, id), "call answered by exp#" + std::to_string(id) + ", expected exp#" + std::to_string(want) + "; " + showFrame(f));
				++st.ambiguous;
			}
			if (f.full.size() > 1) { ++st.multiCandidates; sawMulti = true; }
			f.stage = Frame::matched; f.chosen = id; f.nextHook = 0;
			MExp& e = E(id);
			if (!e.seqs.empty())
			{
				++st.sequencedAnswers;
				int shared = 0; for (int o : f.full) shared += o != id && !E(o).seqs.empty() && E(o).seqs[0].first == e.seqs[0].first;
				st.preferenceDecisions += shared > 0;
			}
			for (auto& [s, i] : e.seqs) { if (i > S(s).cursor + 1) ++st.skips; S(s).cursor = i; }
			++e.count;
			mix(static_cast<std::uint64_t>(id) * 31 + 7);
		}
		bool admissible(const Frame& f, int id)
		{
			// never a candidate that is strictly worse in all of its sequences than another with the same sequences
			MExp& e = E(id);
			if (E(f.fullOrder.front()).seqs.empty()) return false; // the newest unsequenced one wins
			for (int o : f.full)
			{
				MExp& x = E(o);
				if (o == id || x.seqs.size() != e.seqs.size() || e.seqs.empty()) continue;
				bool dominated = true;
				for (auto& [s, i] : e.seqs)
				{
					auto it = std::find_if(x.seqs.begin(), x.seqs.end(), [s = s](auto& y) { return y.first == s; });
					if (it == x.seqs.end() || prio(s, it->second) <= prio(s, i)) { dominated = false; break; }
				}
				if (dominated) return false;
			}
			return true;
		}
		void rejection(bool noMatch, const mm::CallReport& c, const std::vector<mm::MatchReport>& ms)
		{
			Frame& f = top("rejection report");
			++st.hooks;
			if (f.stage != Frame::pending) fail("C01", "second resolution of one call (rejection); " + showFrame(f));
			f.stage = Frame::rejected; f.raised = noMatch ? CallOutcome::noMatch : CallOutcome::inapplicable;
			checkCall(c, f);
			if (!f.full.empty())
			{
				MExp& e = E(f.fullOrder.front());
				fail(std::string{"C01"} + (e.seqs.empty() ? ",C02" : ",C04") + (f.toThrow.empty() ? "" : ",C14") + (stack.size() > 1 ? ",C19" : ""), std::string{noMatch ? "no-match" : "inapplicable-match"} + " report although exp#" + std::to_string(e.id) + " accepts the call; " + showFrame(f));
			}
			if (noMatch != f.inap.empty()) fail("C01", std::string{"wrong kind of rejection: "} + (noMatch ? "no-match" : "inapplicable") + "; " + showFrame(f));
			std::set<int> got; const std::set<int>& want = noMatch ? f.none : f.inap;
			for (auto& m : ms)
			{
				int id{};
				checkMatchReport(m, f, id);
				if (!got.insert(id).second) fail("C13,C01", "expectation listed twice in a rejection report");
			}
			if (textNow()) { text::rejection(noMatch, c, ms, [&](const mm::MatchReport& m) { return wantTimes(E(idOf(m.expectationReports))); }); same::seen(c); for (std::size_t i = 0; i < ms.size() && i < 6; ++i) same::seen(ms[i]); }
			if (got != want) fail("C13,C01", "rejection report lists " + show(got) + " instead of " + show(want) + "; " + showFrame(f));
			if (!std::all_of(f.toThrow.begin(), f.toThrow.end(), [&](int x) { return f.asked.contains(~x); }))
				fail("C14", "a throwing requirement was not reported before the call was rejected; " + showFrame(f));
			mix(noMatch ? 3 : 5);
		}
		void unhandled(const mm::CallReport& c, const mm::ExpectationReport& r, std::exception_ptr ex)
		{
			Frame& f = top("unhandled-exception report");
			++st.exceptionsContained;
			checkCall(c, f);
			const int id = idOf(r);
			if (id < 0) fail("C14,C13", "unhandled-exception report names no expectation");
			if (!f.toThrow.contains(id)) fail("C14", "unhandled-exception report about exp#" + std::to_string(id) + " which did not throw; " + showFrame(f));
			E(id).threwBefore = true;
			if (!f.asked.insert(~id).second) fail("C14", "second unhandled-exception report for exp#" + std::to_string(id));
			checkExpReport(r, E(id));
			if (textNow()) { text::unhandled(c, r, ex); same::seen(c); same::seen(r); }
			int got = -1;
			if (!ex) fail("C14", "unhandled-exception report without exception");
			try { std::rethrow_exception(ex); }
			catch (const MatcherEx& m) { got = m.id; }
			catch (const std::exception& e) { got = std::atoi(e.what()); if (typeid(e) != typeid(LoudEx) && typeid(e) != typeid(std::runtime_error)) got = -3; }
			catch (int v) { got = v; }
			catch (...) { got = -2; }
			if (got != id) fail("C14", "unhandled-exception report carries a foreign exception");
		}
		void unfulfilled(const mm::ExpectationReport& r)
		{
			++st.unfulfilled;
			const int id = idOf(r);
			if (id < 0 || id >= static_cast<int>(exps.size())) fail("C13,C02", "unfulfilled report names an unknown expectation");
			if (!expectUnfulfilled.contains(id)) fail("C02", "unexpected unfulfilled report about " + E(id).describe());
			expectUnfulfilled.erase(id);
			checkExpReport(r, E(id));
			if (textNow()) { text::unfulfilled(r); same::seen(r); }
		}
		void error(const std::string& msg)
		{
			++st.seqErrors;
			if (expectErrors == 0 && !stack.empty() && stack.back()->stage == Frame::finalized) settle(stack.back()->chosen);
			if (expectErrors == 0) fail("C04", "unexpected error report: " + msg);
			if (msg.find("equence") == std::string::npos) fail("C13,C04", "sequence error report does not mention the sequence: " + msg);
			if (textNow()) text::error(msg);
			checkEnd(msg);
			--expectErrors;
		}

		// ------------------------------------------------ hooks from policies
		void hook(int id, int slot)
		{
			++st.hooks;
			Frame& f = top("side effect");
			if (f.stage != Frame::matched || f.chosen != id)
				fail("C07,C01,C20", "action " + std::to_string(slot) + " of exp#" + std::to_string(id) + " runs, but the call is not being answered by it (chosen exp#" + std::to_string(f.chosen) + "); " + showFrame(f));
			if (f.nextHook != slot)
				fail("C07,C20", "action " + std::to_string(slot) + " of exp#" + std::to_string(id) + " runs instead of action " + std::to_string(f.nextHook));
			++f.nextHook;
		}
		void matches(int id, int slot, int a)
		{
			++st.matchQueries;
			Frame& f = top("requirement check");
			if (id < 0 || id >= static_cast<int>(exps.size()) || !E(id).alive) fail("C18,C01", "dead expectation asked");
			if (E(id).coll != f.coll) fail("C01,C09", "expectation of another mock or signature is asked about a call");
			if (a != f.a) fail("C08,C20", "requirement sees a different argument");
			f.asked.insert(id);
			if (slot == 0 && f.a >= 0 && f.a < 8 && ((E(id).throwMask >> f.a) & 1u))
			{
				switch (E(id).throwKind)
				{
				case 0: throw MatcherEx{id};
				case 1:
					{
						static const char* const endings[]{"", "\nin a second line\n\n", " {} {0} %s", "\twhat: \"x\"", " \xc3\xa4\xff"};
						const std::string text = std::to_string(id) + endings[(id + f.a) % 5] + (id % 7 == 0 ? std::string(500, 'w') + "end" : "");
						if (id % 2) throw std::runtime_error{text};
						throw LoudEx{text};
					}
				default: throw id;
				}
			}
		}
		void action(int id, int slot, int a, int b)
		{
			Frame& f = top("side effect");
			if (a != f.a || (b >= 0 && !f.unary && b != f.b)) fail("C08,C07", "side effect sees different arguments");
			hook(id, slot);
			runScript(id, E(id).script[slot == 1 ? 0 : 1]);
			if (&top("side effect end") != &f) fail("C19", "call stack corrupted");
		}
		int finalize(int id)
		{
			hook(id, 4);
			Frame& f = *stack.back();
			f.stage = Frame::finalized;
			f.result = id * 1000 + (serial++ % 1000);
			const int r = f.result;
			if (E(id).finNested) runScript(id, sc_call);
			if (E(id).finThrow && rng.chance(60))
			{
				f.userEx = true; ++st.finalizerThrows;
				throw UserEx{id, r};
			}
			return r;
		}
		void runScript(int id, int s)
		{
			if (s == sc_none || depth > 4 || opsLeftNested <= 0) return;
			--opsLeftNested;
			++depth;
			for (Frame* f : stack) f->hadNested = true;
			st.maxDepth = std::max<long>(st.maxDepth, depth);
			switch (s)
			{
			case sc_call: ++st.nestedCalls; opCall(true); break;
			case sc_badcall: ++st.nestedCalls; opCall(false); break;
			case sc_callSelf: ++st.nestedCalls; { Frame f = *stack.back(); callLike(f); } break;
			case sc_throw:
				if (rng.chance(50))
				{
					Frame& f = *stack.back();
					f.stage = Frame::finalized; f.userEx = true; f.result = id * 1000 + (serial++ % 1000);
					++st.finalizerThrows; --depth;
					log("action of exp#" + std::to_string(id) + " throws");
					throw UserEx{id, f.result};
				}
				break;
			case sc_badcallEscape:
				{
					Frame& f = *stack.back();
					++st.nestedCalls;
					try { opCall(false, true); }
					catch (const NoMatch&) { f.stage = Frame::finalized; f.escaped = true; --depth; throw; }
				}
				break;
			case sc_create: ++st.nestedCreates; opCreate(false); break;
			case sc_destroy: ++st.nestedDestroys; opDestroy(); break;
			case sc_destroySelf: opDestroySelf(id); break;
			default: break;
			}
			--depth;
			(void)id;
		}

		// ------------------------------------------------ operations
		struct EpInfo { int collNo; mm::Constness cn; mm::ValueCategory vc; bool unary; };
		static EpInfo ep(int kind, int e)
		{
			using C = mm::Constness; using V = mm::ValueCategory;
			switch (kind)
			{
			case 0: return {0, C::non_const, V::any, false};
			case 1: return {0, e == 0 ? C::non_const : C::as_const, V::any, false};
			case 2: return {0, (e & 1) ? C::as_const : C::non_const, e < 2 ? V::lvalue : V::rvalue, false};
			default: return {e == 1 ? 1 : 0, e == 2 ? C::as_const : C::non_const, V::any, e == 1};
			}
		}
		static int epCount(int kind) { return kind == 0 ? 1 : kind == 1 ? 2 : kind == 2 ? 4 : 3; }

		void addMock()
		{
			MMock m;
			m.kind = P.onlyKind >= 0 ? P.onlyKind : rng.chance(45) ? 0 : 1 + rng.below(3);
			switch (m.kind) { case 0: m.real = makeMock0(); break; case 1: m.real = makeMock1(); break; case 2: m.real = makeMock2(); break; default: m.real = makeMock3(); }
			m.coll[0] = nextColl++; m.coll[1] = nextColl++;
			log("new mock kind " + std::to_string(m.kind) + " coll " + std::to_string(m.coll[0]) + "," + std::to_string(m.coll[1]));
			mocks.push_back(std::move(m));
		}
		void addSeq(bool lazy)
		{
			MSeq s; s.id = static_cast<int>(seqs.size()); s.lazy = lazy;
			if (lazy) { lazies.push_back(std::make_unique<mm::LazySequence>()); lazyIds.push_back(s.id); s.tag = lazies.back()->tag(); }
			else { greedies.push_back(std::make_unique<mm::GreedySequence>()); greedyIds.push_back(s.id); s.tag = greedies.back()->tag(); }
			log(std::string{"new sequence "} + (lazy ? "L" : "G") + " id " + std::to_string(s.id));
			seqs.push_back(s);
		}
		int liveCount() { return static_cast<int>(std::count_if(exps.begin(), exps.end(), [](auto& e) { return e.alive; })); }

		void opCreate(bool)
		{
			if (mocks.empty() || liveCount() >= P.maxLive + 3) return;
			MMock& m = mocks[static_cast<std::size_t>(rng.below(static_cast<int>(mocks.size())))];
			MExp e;
			e.id = static_cast<int>(exps.size());
			e.kind = m.kind; e.epIdx = rng.below(epCount(m.kind));
			const EpInfo info = ep(m.kind, e.epIdx);
			e.coll = m.coll[info.collNo]; e.cn = info.cn; e.vc = info.vc;
			const auto mask = [&] { return rng.chance(P.pWide) ? 0xFFu & ~(rng.chance(30) ? 1u << rng.below(4) : 0u) : static_cast<unsigned>(1 + rng.below(15)); };
			e.mask0 = mask(); e.mask1 = mask();
			for (unsigned& x : e.silent) if (rng.chance(12)) x = 0xFFu & ~static_cast<unsigned>(1 + rng.below(15));
			e.throwMask = rng.chance(P.pThrow) ? static_cast<unsigned>(1 + rng.below(255)) : 0u;
			e.throwKind = rng.below(3);
			Config c{};
			c.id = e.id; c.mask0 = e.mask0; c.mask1 = e.mask1; c.silent[0] = e.silent[0]; c.silent[1] = e.silent[1];
			// sequences
			c.shape = SeqShape::none;
			if (rng.chance(P.pSeq))
			{
				const bool full = m.kind <= 1;
				if (!full) c.shape = SeqShape::L;
				else if (rng.chance(P.pMulti)) { constexpr SeqShape sh[]{SeqShape::LL, SeqShape::LG, SeqShape::GG, SeqShape::LGL}; c.shape = sh[rng.below(4)]; }
				else c.shape = rng.chance(50) ? SeqShape::L : SeqShape::G;
				const std::size_t needL = c.shape == SeqShape::LL || c.shape == SeqShape::LGL ? 2 : c.shape == SeqShape::L || c.shape == SeqShape::LG ? 1 : 0;
				const std::size_t needG = c.shape == SeqShape::GG ? 2 : c.shape == SeqShape::G || c.shape == SeqShape::LG || c.shape == SeqShape::LGL ? 1 : 0;
				while (lazies.size() < needL) addSeq(true);
				while (greedies.size() < needG) addSeq(false);
				int l0 = needL ? rng.below(static_cast<int>(lazies.size())) : 0, g0 = needG ? rng.below(static_cast<int>(greedies.size())) : 0;
				int l1 = needL == 2 ? (l0 + 1 + rng.below(static_cast<int>(lazies.size()) - 1)) % static_cast<int>(lazies.size()) : 0;
				int g1 = needG == 2 ? (g0 + 1 + rng.below(static_cast<int>(greedies.size()) - 1)) % static_cast<int>(greedies.size()) : 0;
				const auto L = [&](int no, int i) { c.l[no] = lazies[static_cast<std::size_t>(i)].get(); e.seqs.emplace_back(lazyIds[static_cast<std::size_t>(i)], 0); };
				const auto G = [&](int no, int i) { c.g[no] = greedies[static_cast<std::size_t>(i)].get(); e.seqs.emplace_back(greedyIds[static_cast<std::size_t>(i)], 0); };
				switch (c.shape)
				{
				case SeqShape::L: L(0, l0); break;
				case SeqShape::G: G(0, g0); break;
				case SeqShape::LL: L(0, l0); L(1, l1); break;
				case SeqShape::LG: L(0, l0); G(0, g0); break;
				case SeqShape::GG: G(0, g0); G(1, g1); break;
				case SeqShape::LGL: L(0, l0); G(0, g0); L(1, l1); break;
				default: break;
				}
			}
			// times
			e.timesGiven = true;
			const int r = rng.below(100);
			constexpr int big = std::numeric_limits<int>::max();
			if (r < P.pOptional)
			{
				switch (rng.below(3))
				{
				case 0: c.tk = tk_range; c.min = 0; c.max = rng.below(4); break;
				case 1: c.tk = tk_atmost; c.min = 0; c.max = rng.below(4); break;
				default: c.tk = tk_atleast; c.min = 0; c.max = big; break;
				}
			}
			else
			{
				switch (rng.below(7))
				{
				case 0: c.tk = c.shape == SeqShape::none ? tk_default : tk_once; c.min = c.max = 1; break;
				case 1: c.tk = tk_once; c.min = c.max = 1; break;
				case 2: c.tk = tk_twice; c.min = c.max = 2; break;
				case 3: c.tk = tk_exact; c.min = c.max = rng.below(5); break;
				case 4: c.tk = tk_atleast; c.min = rng.below(4); c.max = big; break;
				default: c.tk = tk_range; c.min = rng.below(4); c.max = c.min + rng.below(4); break;
				}
			}
			e.min = c.min; e.max = c.max;
			e.loc = locNo(rng.below(locCount)); c.loc = e.loc;
			for (int& s : e.script) s = rng.chance(P.pNested) ? 1 + rng.below(P.pActThrow ? 8 : 6) : static_cast<int>(sc_none);
			e.finThrow = rng.chance(P.pFinThrow); e.finNested = rng.chance(P.pNested / 2);
			log("create " + e.describe() + " ep=" + std::to_string(e.epIdx));
			mix(static_cast<std::uint64_t>(e.mask0) * 131 + static_cast<std::uint64_t>(e.min) * 17 + static_cast<std::uint64_t>(e.max % 1000) + 1000 * e.seqs.size());
			// the model entry must exist before the library may talk about it
			for (auto& [s, i] : e.seqs) { i = static_cast<int>(S(s).entries.size()); S(s).entries.push_back(e.id); ++S(s).refs; }
			const int id = e.id, epIdx = e.epIdx;
			IMock* real = m.real.get();
			exps.push_back(std::move(e));
			auto h = std::make_unique<mm::ScopedExpectation>(real->expect(epIdx, c));
			E(id).handle = std::move(h);
			++st.created;
			checkHandle(id);
		}
		void checkHandle(int id)
		{
			MExp& e = E(id); subject = id;
			++st.satisfiedChecks;
			const bool want = e.min <= e.count && e.count <= e.max;
			if (e.handle->is_satisfied() != want) fail("C02", std::string{"is_satisfied yields "} + (want ? "false" : "true") + " for " + e.describe());
			const auto& l = e.handle->from();
			if (!testloc::same(l, e.loc)) fail("C13,C02", "expectation handle reports a wrong location for " + e.describe());
		}
		void checkAllHandles() { for (auto& e : exps) if (e.alive && e.handle) checkHandle(e.id); }

		void opCall(bool good, bool escape = false)
		{
			if (mocks.empty()) return;
			MMock& m = mocks[static_cast<std::size_t>(rng.below(static_cast<int>(mocks.size())))];
			const int e = rng.below(epCount(m.kind));
			const EpInfo info = ep(m.kind, e);
			Frame f{.coll = m.coll[info.collNo], .cn = info.cn, .vc = info.vc, .a = good ? rng.below(4) : 8 + rng.below(90), .b = info.unary ? 0 : good ? rng.below(4) : rng.below(100), .unary = info.unary, .loc = locNo(rng.below(locCount))};
			doCall(m, e, f, escape);
		}
		void callLike(const Frame& o)
		{
			for (auto& m : mocks)
				for (int e = 0; e < epCount(m.kind); ++e)
				{
					const EpInfo info = ep(m.kind, e);
					if (m.coll[info.collNo] == o.coll && info.cn == o.cn && info.vc == o.vc)
					{
						Frame f{.coll = o.coll, .cn = o.cn, .vc = o.vc, .a = o.a, .b = o.b, .unary = o.unary, .loc = locNo(rng.below(locCount))};
						doCall(m, e, f);
						return;
					}
				}
		}
		void doCall(MMock& m, int e, Frame& f, bool escape = false)
		{
			++st.calls;
			buildFrame(f);
			log(std::string(static_cast<std::size_t>(depth) * 2, ' ') + "call coll " + std::to_string(f.coll) + " ep " + std::to_string(e) + " args " + std::to_string(f.a) + "," + std::to_string(f.b) + " full=" + show(f.full) + " inap=" + show(f.inap) + " none=" + show(f.none) + " throw=" + show(f.toThrow));
			stack.push_back(&f);
			IMock* real = m.real.get();
			CallOutcome out = CallOutcome::value; int value = 0; UserEx ue{};
			const int uncaught = std::uncaught_exceptions();
			try { value = real->call(e, f.a, f.b, f.loc); }
			catch (const NoMatch&) { out = CallOutcome::noMatch; }
			catch (const Inapplicable&) { out = CallOutcome::inapplicable; }
			catch (const UserEx& x) { out = CallOutcome::userEx; ue = x; if (typeid(x) != typeid(UserEx)) fail("C07,C14", "the caller receives an exception of another type than the one produced"); }
			catch (...) { out = CallOutcome::other; }
			if (uncaught != std::uncaught_exceptions()) fail("C18", "exception bookkeeping broken");
			if (stack.empty() || stack.back() != &f) fail("C19", "call stack corrupted");
			if (f.stage == Frame::finalized) settle(f.chosen);
			if (expectErrors) fail("C04", "incomplete sequence came to its end without an error report (end of a call)");
			stack.pop_back();
			switch (f.stage)
			{
			case Frame::pending: fail("C01,C16", "call ended without any resolution being reported; " + showFrame(f));
			case Frame::matched: fail("C07,C01", "call ended although the actions of exp#" + std::to_string(f.chosen) + " did not all run (next: " + std::to_string(f.nextHook) + ")");
			case Frame::rejected:
				if (out != f.raised) fail("C16,C01", "unmatched call did not end with the reporter's exception");
				++(f.raised == CallOutcome::noMatch ? st.noMatch : st.inapplicable);
				break;
			case Frame::finalized:
				++st.answered; sawAnswer = true;
				if (f.escaped)
				{
					if (out != CallOutcome::noMatch) fail("C07,C19", "an exception leaving a side effect does not reach the caller");
				}
				else if (f.userEx)
				{
					if (out != CallOutcome::userEx || ue.id != f.chosen || ue.serial != f.result) fail("C07,C14", "the caller does not receive the exception produced for the call");
				}
				else if (out != CallOutcome::value || (!f.unary && value != f.result))
					fail("C07,C08,C19", "the caller receives " + (out == CallOutcome::value ? std::to_string(value) : std::string{"an exception"}) + " instead of " + std::to_string(f.result) + "; " + showFrame(f));
				break;
			}
			if (!expectUnfulfilled.empty() && depth == 0) fail("C02", "missing unfulfilled report");
			if (escape && f.stage == Frame::rejected && f.raised == CallOutcome::noMatch) throw NoMatch{};
		}
		// a call which nothing accepts: the report exposes the state of every live expectation of that list
		void opProbe()
		{
			if (mocks.empty()) return;
			MMock& m = mocks[static_cast<std::size_t>(rng.below(static_cast<int>(mocks.size())))];
			for (int e = 0; e < epCount(m.kind); ++e)
			{
				const EpInfo info = ep(m.kind, e);
				Frame f{.coll = m.coll[info.collNo], .cn = info.cn, .vc = info.vc, .a = 50 + rng.below(50), .b = 0, .unary = info.unary, .loc = locNo(rng.below(locCount))};
				doCall(m, e, f);
			}
			checkAllHandles();
		}
		bool isRunning(int id) { return std::any_of(stack.begin(), stack.end(), [&](Frame* f) { return f->chosen == id; }); }

		// the expectation answering the running call loses its handle: it answers this call to its end, and is gone then
		std::vector<int> dying;
		void opDestroySelf(int id)
		{
			if (!E(id).alive || !E(id).handle) return;
			++st.selfDestroys;
			MExp& e = E(id);
			const auto seqsOf = e.seqs;
			e.alive = false;
			if (e.count < e.min) expectUnfulfilled.insert(id);
			log(std::string(static_cast<std::size_t>(depth) * 2, ' ') + "destroy running " + e.describe() + (e.count < e.min ? " -> unfulfilled" : ""));
			++st.destroyed;
			dying.push_back(id);
			dropReporting([h = e.handle.release()] { delete h; });
			if (!expectUnfulfilled.empty()) fail("C02,C19", "no unfulfilled report for " + E(*expectUnfulfilled.begin()).describe() + " destroyed by its own action");
		}
		void settle(int id) // the call answered by `id` ends
		{
			const auto it = std::find(dying.begin(), dying.end(), id);
			if (it == dying.end() || std::count_if(stack.begin(), stack.end(), [&](Frame* f) { return f->chosen == id; }) > 1) return;
			dying.erase(it);
			for (auto& [s, i] : E(id).seqs) { --S(s).refs; maybeEnd(s); }
		}

		void beginDestroy(MExp& e)
		{
			e.alive = false; subject = e.id;
			if (e.count < e.min) expectUnfulfilled.insert(e.id);
			for (auto& [s, i] : e.seqs)
			{
				--S(s).refs;
				maybeEnd(s);
			}
			log(std::string(static_cast<std::size_t>(depth) * 2, ' ') + "destroy " + e.describe() + (e.count < e.min ? " -> unfulfilled" : ""));
			mix(static_cast<std::uint64_t>(e.id) * 7 + 1);
			++st.destroyed;
		}
		void checkEnd(const std::string& msg)
		{
			const auto digit = msg.find_first_of("0123456789");
			int satisfied = 0, total = 0;
			auto it = ends.end();
			if (digit != std::string::npos && std::sscanf(msg.c_str() + digit, "%d out of %d", &satisfied, &total) == 2)
			{
				it = std::find_if(ends.begin(), ends.end(), [&](const End& e) { return e.total == total && e.low <= satisfied && satisfied <= e.high; });
				if (it == ends.end())
				{
					std::string all; for (auto& e : ends) all += " [" + std::to_string(e.low) + ".." + std::to_string(e.high) + " out of " + std::to_string(e.total) + "]";
					fail("C13", "the report about the end of a sequence tells wrong numbers: " + msg + ", true:" + all);
				}
				++st.endTexts;
			}
			if (it == ends.end()) ends.pop_back(); else ends.erase(it);
		}
		void maybeEnd(int s)
		{
			MSeq& q = S(s);
			if (!q.handleAlive && q.refs == 0 && !q.ended)
			{
				q.ended = true;
				const auto first = std::find_if(q.entries.begin(), q.entries.end(), [&](int i) { return !entrySatisfied(i); });
				if (first == q.entries.end()) return;
				++expectErrors;
				ends.push_back({static_cast<int>(first - q.entries.begin()), static_cast<int>(std::count_if(q.entries.begin(), q.entries.end(), [&](int i) { return entrySatisfied(i); })), static_cast<int>(q.entries.size())});
			}
		}
		void endDestroy(const char* what)
		{
			if (!expectUnfulfilled.empty()) fail("C02", std::string{"no unfulfilled report for "} + E(*expectUnfulfilled.begin()).describe() + " (" + what + ")");
			if (expectErrors) fail("C04", std::string{"incomplete sequence came to its end without an error report ("} + what + ")");
		}
		int randomLive()
		{
			std::vector<int> v;
			for (auto& e : exps) if (e.alive && e.handle && !isRunning(e.id)) v.push_back(e.id);
			return v.empty() ? -1 : v[static_cast<std::size_t>(rng.below(static_cast<int>(v.size())))];
		}
		// ends an expectation; the report that it is unfulfilled may be an exception
		template <typename F> void dropReporting(F&& f)
		{
			if (std::uncaught_exceptions() != 0 || !rng.chance(40)) return f();
			const bool due = !expectUnfulfilled.empty();
			bool threw = false;
			throwUnfulfilled = true;
			try { f(); }
			catch (const Unfulfilled&) { threw = true; }
			throwUnfulfilled = false;
			if (due && expectUnfulfilled.empty())
			{
				++st.thrownReports;
				if (!threw) fail("C16,C02", "the exception of the reporter about an unfulfilled expectation does not reach the one who destroys it");
			}
		}
		void opDestroy()
		{
			const int id = randomLive();
			if (id < 0) return;
			// destroying from within a report is not possible, but within nested calls it is
			MExp& e = E(id);
			beginDestroy(e);
			dropReporting([h = e.handle.release()] { delete h; });
			endDestroy("destroying a handle");
		}
		void opMove()
		{
			const int id = randomLive();
			if (id < 0) return;
			if (rng.chance(70))
			{
				++st.handleMoves;
				log("move handle of exp#" + std::to_string(id));
				movedExps.insert(id);
				auto n = std::make_unique<mm::ScopedExpectation>(std::move(*E(id).handle));
				E(id).handle = std::move(n);
				if (rng.chance(50)) { auto v = std::vector<mm::ScopedExpectation>{}; v.push_back(std::move(*E(id).handle)); v.reserve(v.capacity() + 3); E(id).handle = std::make_unique<mm::ScopedExpectation>(std::move(v.front())); }
			}
			else
			{
				const int other = randomLive();
				if (other == id || other < 0) return;
				++st.handleAssign;
				if (rng.chance(50))
				{
					log("move-assign handle of exp#" + std::to_string(id) + " over exp#" + std::to_string(other));
					beginDestroy(E(other));
					dropReporting([&] { *E(other).handle = std::move(*E(id).handle); });
					endDestroy("overwriting a handle");
					E(id).handle = std::move(E(other).handle);
				}
				else
				{
					log("swap handles " + std::to_string(id) + "," + std::to_string(other));
					std::swap(*E(id).handle, *E(other).handle);
					std::swap(E(id).handle, E(other).handle);
				}
				(void)E(id).handle->is_satisfied();
			}
			if (E(id).handle) checkHandle(id);
		}
		void opMock()
		{
			if (mocks.empty()) { addMock(); return; }
			const std::size_t i = static_cast<std::size_t>(rng.below(static_cast<int>(mocks.size())));
			MMock& m = mocks[i];
			switch (rng.below(4))
			{
			case 0:
				++st.mockDestroyedEarly;
				log("destroy mock coll " + std::to_string(m.coll[0]));
				mocks.erase(mocks.begin() + static_cast<std::ptrdiff_t>(i));
				if (mocks.size() < 2) addMock();
				break;
			case 1:
				{
					// move-assign over another mock of the same kind: that one's expectations become unreachable, but stay alive
					for (std::size_t k = 0; k < mocks.size(); ++k)
						if (k != i && mocks[k].kind == m.kind)
						{
							++st.mockMoves;
							log("move-assign mock coll " + std::to_string(m.coll[0]) + " over coll " + std::to_string(mocks[k].coll[0]));
							movedColls.insert({m.coll[0], m.coll[1]});
							mocks[k].real->moveAssignFrom(*m.real);
							mocks[k].coll[0] = m.coll[0]; mocks[k].coll[1] = m.coll[1];
							mocks.erase(mocks.begin() + static_cast<std::ptrdiff_t>(i));
							return;
						}
					[[fallthrough]];
				}
			default:
				++st.mockMoves;
				log("move mock coll " + std::to_string(m.coll[0]));
				movedColls.insert({m.coll[0], m.coll[1]});
				m.real = m.real->moveConstruct();
				break;
			}
		}
		void opSeq()
		{
			const bool lazy = rng.chance(50);
			auto& n = lazy ? lazyIds : greedyIds;
			if (n.empty() || rng.chance(20)) { addSeq(lazy); return; }
			const std::size_t i = static_cast<std::size_t>(rng.below(static_cast<int>(n.size())));
			endSeqHandle(lazy, i);
			if (rng.chance(80)) addSeq(lazy);
		}
		void endSeqHandle(bool lazy, std::size_t i)
		{
			auto& ids = lazy ? lazyIds : greedyIds;
			const int s = ids[i];
			log("destroy sequence handle " + std::to_string(s));
			++st.seqDestroyedEarly;
			S(s).handleAlive = false;
			maybeEnd(s);
			if (lazy) lazies.erase(lazies.begin() + static_cast<std::ptrdiff_t>(i)); else greedies.erase(greedies.begin() + static_cast<std::ptrdiff_t>(i));
			ids.erase(ids.begin() + static_cast<std::ptrdiff_t>(i));
			endDestroy("destroying a sequence");
		}
		// set-ups which must be rejected; afterwards nothing may have changed
		void opBadSetup()
		{
			++st.rejectedSetups;
			const int k = rng.below(3);
			bool threw = false;
			if (k == 0 || lazies.empty() || mocks.empty())
			{
				int mn = rng.below(7) - 3, mx = rng.below(7) - 3;
				const bool bad = mn < 0 || mx < 0 || mx < mn;
				try { (void)mm::expect::times(mn, mx); } catch (const std::invalid_argument&) { threw = true; }
				if (threw != bad) fail("C06", "times(" + std::to_string(mn) + "," + std::to_string(mx) + ") was " + (threw ? "rejected" : "accepted"));
				return;
			}
			auto& m = mocks[static_cast<std::size_t>(rng.below(static_cast<int>(mocks.size())))];
			if (m.kind > 1) return;
			Config c{};
			c.id = 0; c.mask0 = c.mask1 = 0xFF; c.tk = tk_range; c.min = 1; c.max = 2; c.loc = locNo(0);
			c.shape = k == 1 ? SeqShape::LL : SeqShape::LGL;
			if (greedies.empty()) c.shape = SeqShape::LL;
			auto& l = lazies[static_cast<std::size_t>(rng.below(static_cast<int>(lazies.size())))];
			c.l[0] = c.l[1] = l.get();
			if (!greedies.empty()) c.g[0] = greedies[0].get();
			log("attempt duplicate sequence set-up");
			try { auto e = m.real->expect(rng.below(epCount(m.kind)), c); fail("C06", "attaching one expectation twice to a sequence was accepted"); }
			catch (const std::invalid_argument&) { threw = true; }
			if (!threw) fail("C06", "duplicate sequence: wrong exception type");
			opProbe();
		}

		void noteState()
		{
			std::uint64_t h = 7;
			for (auto& e : exps)
				if (e.alive)
				{
					std::uint64_t x = static_cast<std::uint64_t>(e.min) * 3 + static_cast<std::uint64_t>(std::min(e.max, 99)) * 101 + static_cast<std::uint64_t>(e.count) * 10007 + static_cast<std::uint64_t>(e.kind * 5 + e.epIdx) * 1000003;
					for (auto& [s, i] : e.seqs) x = x * 31 + static_cast<std::uint64_t>((i - S(s).cursor + 50) * 2 + S(s).lazy);
					h = h * 1099511628211ull ^ x;
				}
			if (st.states.size() < 400000) st.states.insert(h);
		}

		void run()
		{
			for (int i = 0; i < P.mocks; ++i) addMock();
			for (int i = 0; i < P.nLazy; ++i) addSeq(true);
			for (int i = 0; i < P.nGreedy; ++i) addSeq(false);
			const int total = P.wCreate + P.wCall + P.wDestroy + P.wMove + P.wMock + P.wSeq + P.wProbe + 3;
			const int warm = 2 + rng.below(6);
			for (int i = 0; i < warm; ++i) opCreate(true);
			for (int step = 0; step < P.steps; ++step)
			{
				++st.ops;
				opsLeftNested = 20;
				if (rng.chance(6)) { ++st.unwinding; log("during unwinding:"); whileUnwinding([&] { oneStep(total); }); }
				else if (rng.chance(6)) { ++st.handling; log("in an exception handler:"); whileHandling([&] { oneStep(total); }); }
				else oneStep(total);
				if (rng.chance(25)) checkAllHandles();
				if (step % 4 == 0) noteState();
			}
			tearDown();
		}
		// performs an operation while the stack is unwound because of an unrelated exception
		template <typename F> void whileUnwinding(F&& f)
		{
			struct Unrelated {};
			struct Guard { F& f; ~Guard() noexcept(false) { f(); } };
			try { Guard g{f}; throw Unrelated{}; }
			catch (const Unrelated&) {}
		}
		// performs an operation while an unrelated exception is being handled
		template <typename F> void whileHandling(F&& f)
		{
			struct Other : std::runtime_error { using runtime_error::runtime_error; };
			try { throw Other{"unrelated"}; }
			catch (const Other&)
			{
				f();
				try { throw; }
				catch (const Other&) { return; }
				catch (...) {}
				fail("C18", "the exception being handled has been exchanged");
			}
		}
		void oneStep(int total)
		{
				int r = rng.below(total);
				if ((r -= P.wCreate) < 0) { if (liveCount() < P.maxLive) opCreate(true); else opCall(true); }
				else if ((r -= P.wCall) < 0) opCall(rng.chance(P.pGoodCall));
				else if ((r -= P.wDestroy) < 0) opDestroy();
				else if ((r -= P.wMove) < 0) opMove();
				else if ((r -= P.wMock) < 0) opMock();
				else if ((r -= P.wSeq) < 0) opSeq();
				else if ((r -= P.wProbe) < 0) opProbe();
				else opBadSetup();
		}
		void tearDown()
		{
			// tear down everything in random order, with calls in between
			while (true)
			{
				const bool anyExp = randomLive() >= 0;
				const int n = rng.below(10);
				if (anyExp && n < 5) opDestroy();
				else if (!mocks.empty() && n == 5) mocks.pop_back();
				else if (!lazies.empty() && n == 6) endSeqHandle(true, 0);
				else if (!greedies.empty() && n == 7) endSeqHandle(false, 0);
				else if (!mocks.empty() && n == 8) opCall(true);
				if (!anyExp && mocks.empty() && lazies.empty() && greedies.empty()) break;
			}
			for (auto& q : seqs) if (!q.ended) fail("C04", "model: sequence never ended");
			exps.clear();
			if (g_tokensLive != 0) fail("C18", "objects handed to the library: " + std::to_string(g_tokensLive) + " still alive (or destroyed twice) after everything is gone");
		}
	};

	void fail(std::string tags, const std::string& msg)
	{
		const auto add = [&](const char* t) { if (tags.find(t) == std::string::npos) tags += std::string{","} + t; };
		const auto about = [&](int id) { return id >= 0 && id < static_cast<int>(W->exps.size()); };
		if (W)
		{
			if (W->depth > 0 || W->stack.size() > 1) add("C19");
			for (Frame* f : W->stack)
			{
				if (!f->toThrow.empty()) add("C14");
				if (f->hadNested) add("C19");
				if (W->movedColls.contains(f->coll)) add("C18");
				for (auto& e : W->exps)
					if (e.coll == f->coll && e.alive)
					{
						if (e.threwBefore) add("C14");
						if (W->movedExps.contains(e.id)) add("C02"), add("C18");
					}
			}
			if (about(W->subject))
			{
				MExp& e = W->E(W->subject);
				if (e.threwBefore) add("C14");
				if (W->movedExps.contains(e.id)) add("C02"), add("C18");
				if (W->movedColls.contains(e.coll)) add("C18");
			}
		}
		proto::fail(tags, msg);
	}
	void RecordingReporter::report_no_matches(mm::CallReport call, std::vector<mm::MatchReport> m) { W->rejection(true, call, m); throw NoMatch{}; }
	void RecordingReporter::report_inapplicable_matches(mm::CallReport call, std::vector<mm::MatchReport> m) { W->rejection(false, call, m); throw Inapplicable{}; }
	void RecordingReporter::report_full_match(mm::CallReport call, mm::MatchReport m) noexcept { W->fullMatch(call, m); }
	void RecordingReporter::report_unfulfilled_expectation(mm::ExpectationReport e) { W->unfulfilled(e); if (W->throwUnfulfilled) throw Unfulfilled{}; }
	void RecordingReporter::report_error(mm::StringT message) { W->error(message); }
	void RecordingReporter::report_unhandled_exception(mm::CallReport call, mm::ExpectationReport e, std::exception_ptr ex) { W->unhandled(call, e, ex); }

	void onMatches(int id, int slot, int a) { W->matches(id, slot, a); }
	void onConsume(int id, int slot) { W->hook(id, slot); }
	void onAction(int id, int slot, int a, int b) { W->action(id, slot, a, b); }
	int onFinalize(int id) { return W->finalize(id); }
	std::string probeDescription(int id, int slot) { return "probe#" + std::to_string(id) + "/" + std::to_string(slot); }
}

int main(int argc, char** argv)
{
	using namespace eng;
	mm::install_reporter<RecordingReporter>();
	const int rc = proto::run(argc, argv, [](long, std::uint64_t seed)
	{
		static const Profile P = profileFor(proto::g_profile);
		World w{P, seed};
		W = &w;
		w.run();
		W = nullptr;
		if (w.sawMulti && w.sawAnswer) proto::distinct(w.hist);
		if (w.sawMulti && w.sawAnswer) { std::string t; for (auto& l : proto::g_log) t += l + "; "; proto::sample(t); }
		auto& o = proto::g_stats;
		o["model_states"] = static_cast<long>(st.states.size());
		o["ops"] = st.ops; o["calls"] = st.calls; o["answered"] = st.answered; o["no_match"] = st.noMatch; o["inapplicable"] = st.inapplicable;
		o["multi_candidate_calls"] = st.multiCandidates; o["sequenced_answers"] = st.sequencedAnswers; o["preference_decisions"] = st.preferenceDecisions;
		o["sequence_skips"] = st.skips; o["ambiguous_choices"] = st.ambiguous; o["exceptions_contained"] = st.exceptionsContained; o["finalizer_throws"] = st.finalizerThrows;
		o["nested_calls"] = st.nestedCalls; o["nested_creates"] = st.nestedCreates; o["nested_destroys"] = st.nestedDestroys; o["self_destroys"] = st.selfDestroys;
		o["created"] = st.created; o["destroyed"] = st.destroyed; o["unfulfilled_reports"] = st.unfulfilled; o["sequence_errors"] = st.seqErrors; o["sequence_end_texts"] = st.endTexts; o["reports_thrown_by_destructors"] = st.thrownReports; o["steps_in_exception_handlers"] = st.handling; o["reports_compared_equal"] = same::g_equal; o["reports_compared_unequal"] = same::g_different;
		o["handle_moves"] = st.handleMoves; o["handle_assigns"] = st.handleAssign; o["mock_moves"] = st.mockMoves; o["mocks_destroyed_early"] = st.mockDestroyedEarly;
		o["sequence_handles_destroyed_early"] = st.seqDestroyedEarly; o["report_entries_checked"] = st.entriesChecked; o["satisfied_checks"] = st.satisfiedChecks;
		o["steps_during_unwinding"] = st.unwinding; o["rejected_setups"] = st.rejectedSetups; o["hook_events"] = st.hooks; o["match_queries"] = st.matchQueries; o["tokens"] = g_tokensMade;
	});
	return rc;
}
