// C16: scenarios which can be run under any reporter, and a model of what has to be reported.
#pragma once
#include "mimic++/mimic++.hpp"
#include "../common/proto.hpp"
#include "../common/loc.hpp"
#include <algorithm>
#include <functional>
#include <memory>
#include <string>
#include <vector>

namespace mm = mimicpp;
using proto::stat; using proto::Rng;

struct UserEx { int id; };
enum class OpKind { expect, call, drop, scopeThrow, seqThrow, unwindCall, moveHandle, nested, error };
struct Op
{
	OpKind kind; int exp{-1}; int mock{}; int arg{}; bool swallow{};
	// of a new expectation
	int mask{}; int lo{1}, hi{1}; int thrower{}; // thrower: 0 none, 1 std::runtime_error, 2 an int
	bool throws{}; // the operation has to report a violation
	bool handling{}; // ... while another exception is being handled
};
// kinds: N no match, I inapplicable, F full match, U unfulfilled, E exception in a requirement, S error of a sequence
// silent: reported to the reporter while another exception is unwinding
struct Ev { char kind; int exp{-1}; int arg{-1}; int mock{}; bool silent{}; auto operator<=>(const Ev&) const = default; };
inline std::string show(const Ev& e) { return std::string{e.kind} + (e.exp >= 0 ? "#" + std::to_string(e.exp) : "") + (e.arg >= 0 ? "(" + std::to_string(e.arg) + ")" : "") + (e.silent ? " while unwinding" : ""); }

struct Plan { std::vector<Op> ops; std::vector<Ev> events; bool aborted{false}; int violations{}, successes{}, warnings{}; int silents{}; };

// the model runs along with the generation
struct Planner
{
	struct E { int id, mock, mask, lo, hi, thrower, count{0}; bool live{true}; };
	Rng rng; Plan p; std::vector<E> es; bool errors;
	Planner(std::uint64_t s, bool withErrors) : rng{s}, errors{withErrors} {}
	void ev(Ev e)
	{
		p.events.push_back(e);
		if (e.silent && (e.kind == 'U' || e.kind == 'S')) ++p.silents;
		else if (e.kind == 'F') ++p.successes; else if (e.kind == 'E') ++p.warnings; else ++p.violations;
	}
	// returns whether the call is answered
	bool call(int mock, int arg, bool silent = false)
	{
		int best = -1; bool inapplicable = false;
		for (auto it = es.rbegin(); it != es.rend(); ++it)
		{
			if (!it->live || it->mock != mock) continue;
			if ((it->mask >> arg & 1) && it->thrower) { ev({'E', it->id, arg, mock, silent}); continue; }
			if (!(it->mask >> arg & 1)) continue;
			if (it->count < it->hi) { if (best < 0) best = it->id; } else inapplicable = true;
		}
		if (best >= 0) { ++es[static_cast<std::size_t>(best)].count; ev({'F', best, arg, mock, silent}); return true; }
		ev({inapplicable ? 'I' : 'N', -1, arg, mock, silent});
		return false;
	}
	Op newExp(OpKind k)
	{
		Op o{.kind = k}; o.exp = static_cast<int>(es.size()); o.mock = rng.below(2); o.mask = rng.between(1, 15); o.lo = rng.below(3); o.hi = o.lo + rng.below(2); if (o.hi == 0) o.hi = 1;
		if (rng.chance(12)) o.thrower = rng.between(1, 2);
		es.push_back({o.exp, o.mock, o.mask, o.lo, o.hi, o.thrower});
		return o;
	}
	// drops in the order newest first, while unwinding
	void unwindAll() { for (auto it = es.rbegin(); it != es.rend(); ++it) if (it->live) { it->live = false; if (it->count < it->lo) ev({'U', it->id, -1, it->mock, true}); } }
	bool violation(const Op& o) // of the running op; returns whether the scenario goes on
	{
		if (o.swallow) return true;
		p.aborted = true; unwindAll(); return false;
	}
	Plan make(int calm)
	{
		const int steps = rng.between(3, 25);
		const bool peaceful = rng.chance(calm);
		for (int i = 0; i < steps; ++i)
		{
			const int r = rng.below(100);
			Op o{};
			if (r < 30) { o = newExp(OpKind::expect); p.ops.push_back(o); }
			else if (r < 62)
			{
				o.kind = rng.chance(12) ? OpKind::nested : OpKind::call; o.mock = rng.below(2); o.arg = rng.below(4); o.swallow = rng.chance(60);
				if (peaceful)
				{
					bool ok = false;
					for (auto& e : es) ok |= e.live && e.mock == o.mock && !e.thrower && (e.mask >> o.arg & 1) && e.count < e.hi;
					if (!ok) continue;
				}
				p.ops.push_back(o);
				if (o.kind == OpKind::nested) ev({'F', 400, 99, 2, false});
				if (!call(o.mock, o.arg)) { p.ops.back().throws = true; if (!violation(o)) return p; }
			}
			else if (r < 70)
			{
				std::vector<int> c; for (auto& e : es) if (e.live && (!peaceful || e.count >= e.lo)) c.push_back(e.id);
				if (c.empty()) continue;
				o.kind = OpKind::drop; o.exp = rng.pick(c); o.swallow = rng.chance(60); p.ops.push_back(o);
				if (!drop(o)) return p;
			}
			else if (r < 78) // an exception of the user passes an expectation
			{
				o = newExp(OpKind::scopeThrow); p.ops.push_back(o);
				auto& e = es.back();
				e.live = false; if (e.count < e.lo) ev({'U', e.id, -1, e.mock, true});
			}
			else if (r < 83) // ... and a sequence
			{
				o = newExp(OpKind::seqThrow); p.ops.push_back(o);
				auto& e = es.back();
				e.live = false; if (e.count < e.lo) { ev({'U', e.id, -1, e.mock, true}); ev({'S', -1, -1, 0, true}); }
			}
			else if (r < 85) // an error without a call (what the end of a sequence is reported as)
			{
				if (peaceful || !errors) continue;
				o.kind = OpKind::error; o.arg = rng.below(1000); o.swallow = rng.chance(60); o.throws = true; p.ops.push_back(o);
				ev({'S', -1, o.arg, 0, false});
				if (!violation(o)) return p;
			}
			else if (r < 90) // a destructor calls a mock while an exception is unwinding
			{
				o.kind = OpKind::unwindCall; o.mock = rng.below(2); o.arg = rng.below(4);
				if (peaceful) continue;
				p.ops.push_back(o); p.ops.back().throws = !call(o.mock, o.arg, true);
			}
			else
			{
				std::vector<int> c; for (auto& e : es) if (e.live) c.push_back(e.id);
				if (c.empty()) continue;
				o.kind = OpKind::moveHandle; o.exp = rng.pick(c); p.ops.push_back(o);
			}
		}
		while (true)
		{
			std::vector<int> c; for (auto& e : es) if (e.live) c.push_back(e.id);
			if (c.empty()) break;
			auto& e = es[static_cast<std::size_t>(rng.pick(c))];
			while (peaceful && e.count < e.lo)
			{
				Op o{.kind = OpKind::call}; o.mock = e.mock; int a = 0; while (!(e.mask >> a & 1)) ++a; o.arg = a;
				if (e.thrower) break;
				p.ops.push_back(o);
				call(o.mock, o.arg);
			}
			Op o{.kind = OpKind::drop, .exp = e.id, .swallow = rng.chance(60)}; p.ops.push_back(o);
			if (!drop(o)) return p;
		}
		return p;
	}
	bool drop(const Op& o)
	{
		auto& e = es[static_cast<std::size_t>(o.exp)];
		e.live = false;
		if (e.count < e.lo) { p.ops.back().throws = true; ev({'U', e.id, -1, e.mock, false}); return violation(o); }
		return true;
	}
};

inline unsigned lineOf(int exp) { return 100000u + static_cast<unsigned>(exp); }
inline const std::source_location callLoc(int arg) { return testloc::at(100500u + static_cast<unsigned>(arg)); }

// what the execution itself notices (calls which return although they must not, lost exceptions, ...)
inline std::string g_problem;
inline void problem(const std::string& s) { if (g_problem.empty()) g_problem = s; }

inline void (*g_inspect)(const Op&) = nullptr; // called in the handler of a violation
inline std::function<void()> g_between;        // called before each operation
inline std::function<void(const std::string&)> g_error; // hands a message to report_error of the reporter under test
inline std::string errorText(int n) { return "something else went wrong {} %s: " + std::to_string(n) + "!"; }

// Runs the operations; violations leave as whatever the reporter throws, unless the operation swallows them.
inline void execute(const Plan& plan)
{
	mm::Mock<int(int)> m[2];
	std::vector<std::unique_ptr<mm::ScopedExpectation>> live(64); // by id; never destroyed while occupied, except by unwinding
	struct Newest { std::vector<std::unique_ptr<mm::ScopedExpectation>>& v; ~Newest() { for (std::size_t i = v.size(); i-- > 0;) v[i].reset(); } } newest{live}; // newest first
	const auto make = [&](const Op& o, auto&& with)
	{
		namespace ex = mm::expect;
		return mm::ScopedExpectation{
			with(m[o.mock].expect_call(mm::matches::predicate([mask = o.mask, thrower = o.thrower, id = o.exp](int a)
			{
				const bool hit = mask >> a & 1;
				if (hit && thrower == 1) throw std::runtime_error{"requirement of #" + std::to_string(id)};
				if (hit && thrower == 2) throw id;
				return hit;
			}, "accepts mask " + std::to_string(o.mask)))
			and ex::times(o.lo, o.hi)
			and mm::finally::returns(o.exp)), testloc::at(lineOf(o.exp))};
	};
	const auto plain = [](auto&& b) { return std::forward<decltype(b)>(b); };
	for (auto& o : plan.ops)
	{
		const auto guarded = [&](auto&& f)
		{
			try
			{
				if (!o.handling) f();
				else { try { throw UserEx{2}; } catch (const UserEx&) { ++stat("while_handling"); f(); } }
			}
			catch (...)
			{
				if (!o.throws) problem("an operation throws although nothing is violated");
				if (g_inspect) g_inspect(o);
				++stat("thrown");
				if (!o.swallow) throw;
				++stat("swallowed");
				return;
			}
			if (o.throws) problem("a violation returned to its caller normally");
		};
		if (g_between) g_between();
		switch (o.kind)
		{
		case OpKind::expect: live.at(static_cast<std::size_t>(o.exp)) = std::make_unique<mm::ScopedExpectation>(make(o, plain)); break;
		case OpKind::moveHandle:
		{
			auto n = std::make_unique<mm::ScopedExpectation>(std::move(*live.at(static_cast<std::size_t>(o.exp))));
			live[static_cast<std::size_t>(o.exp)] = std::move(n); break;
		}
		case OpKind::call:
			guarded([&] { (void)m[o.mock](o.arg, callLoc(o.arg)); });
			break;
		case OpKind::nested: // called from inside an action of another mock
			guarded([&]
			{
				mm::Mock<int(int)> outer{};
				mm::ScopedExpectation e{outer.expect_call(99) and mm::expect::times(0, 1) and mm::finally::returns_result_of([&] { return m[o.mock](o.arg, callLoc(o.arg)); }), testloc::at(100400u)};
				(void)outer(99, callLoc(99));
			});
			break;
		case OpKind::error:
			guarded([&] { g_error(errorText(o.arg)); });
			break;
		case OpKind::drop:
			guarded([&] { delete live.at(static_cast<std::size_t>(o.exp)).release(); });
			break;
		case OpKind::scopeThrow:
			try { auto e = make(o, plain); throw UserEx{o.exp}; }
			catch (const UserEx& x) { if (x.id != o.exp) problem("another exception arrives"); }
			break;
		case OpKind::seqThrow:
			try { mm::LazySequence s{}; auto e = make(o, [&](auto&& b) { return std::forward<decltype(b)>(b) and mm::expect::in_sequence(s); }); throw UserEx{o.exp}; }
			catch (const UserEx& x) { if (x.id != o.exp) problem("another exception arrives"); }
			break;
		case OpKind::unwindCall:
		{
			bool reached = false, threw = false;
			try
			{
				struct Guard
				{
					mm::Mock<int(int)>& m; int arg; bool& reached; bool& threw;
					~Guard() { try { reached = true; (void)m(arg, callLoc(arg)); } catch (...) { threw = true; ++stat("rejected_while_unwinding"); } }
				} g{m[o.mock], o.arg, reached, threw};
				throw UserEx{1};
			}
			catch (const UserEx&) {}
			if (!reached || threw != o.throws) problem("a call made while an exception is unwinding " + std::string{threw ? "is rejected although it is expected" : "returns although nothing answers it"});
			break;
		}
		}
	}
}
inline Plan makePlan(std::uint64_t seed, bool withErrors = true) { Planner p{seed, withErrors}; auto plan = p.make(35); Rng r{seed ^ 0x5eed}; for (auto& o : plan.ops) o.handling = r.chance(20); return plan; }
inline std::string describe(const Plan& p)
{
	std::string s; const char* names[] = {"expect", "call", "drop", "scopeThrow", "seqThrow", "unwindCall", "moveHandle", "nested call", "error"};
	for (auto& o : p.ops) s += std::string{names[static_cast<int>(o.kind)]} + (o.exp >= 0 ? " #" + std::to_string(o.exp) : "") + (o.kind == OpKind::call || o.kind == OpKind::unwindCall || o.kind == OpKind::nested ? " m" + std::to_string(o.mock) + "(" + std::to_string(o.arg) + ")" : "")
		+ (o.kind == OpKind::expect || o.kind == OpKind::scopeThrow || o.kind == OpKind::seqThrow ? " m" + std::to_string(o.mock) + " mask " + std::to_string(o.mask) + " " + std::to_string(o.lo) + ".." + std::to_string(o.hi) + (o.thrower ? " throwing" : "") : "") + (o.handling ? " in a handler" : "") + (o.swallow ? " swallow" : "") + "; ";
	s += " EXPECTED:"; for (auto& e : p.events) s += " " + show(e);
	return s;
}
inline void checkFacts(const Ev& e, const std::string& t)
{
	const auto has = [&](const std::string& x) { if (t.find(x) == std::string::npos) proto::fail("C16,C13", "the message of " + show(e) + " lacks `" + x + "`: " + proto::oneLine(t)); };
	switch (e.kind)
	{
	case 'N': has("No match"); break;
	case 'I': has("No applicable match"); break;
	case 'F': has("match"); break;
	case 'U': has("nfulfilled"); break;
	case 'E': has("xception"); has("accepts mask"); break;
	case 'S': if (t != errorText(e.arg)) proto::fail("C16", "an error is reported as `" + proto::oneLine(t) + "` instead of `" + errorText(e.arg) + "`"); return;
	default: break;
	}
	if (e.exp >= 0) has(std::to_string(lineOf(e.exp)));
	if (e.arg >= 0) { has(std::to_string(100500 + e.arg)); has("value: " + std::to_string(e.arg)); }
}

// a reporter which only collects the texts of the library's BasicReporter
struct Text { char kind; std::string text; auto operator<=>(const Text&) const = default; };
inline std::vector<Text> g_captured;
struct CapturedFail {};
inline void capSuccess(const mm::StringT& t) { g_captured.push_back({'+', t}); }
inline void capWarning(const mm::StringT& t) { g_captured.push_back({'w', t}); }
[[noreturn]] inline void capFail(const mm::StringT& t) { g_captured.push_back({'-', t}); throw CapturedFail{}; }
using CaptureReporter = mm::BasicReporter<&capSuccess, &capWarning, &capFail>;

// what a reporter which shows everything has to show
inline std::vector<std::pair<char, Ev>> visible(const Plan& p)
{
	std::vector<std::pair<char, Ev>> r;
	for (auto& e : p.events)
	{
		if (e.kind == 'F') r.push_back({'+', e}); else if (e.kind == 'E') r.push_back({'w', e});
		else if (!(e.silent && (e.kind == 'U' || e.kind == 'S'))) r.push_back({'-', e});
	}
	return r;
}
// runs the plan under the capturing reporter and checks the texts against the plan
inline std::vector<Text> capture(const Plan& p)
{
	mm::install_reporter<CaptureReporter>();
	const auto oldError = std::exchange(g_error, [](const std::string& t) { CaptureReporter r{}; r.report_error(t); });
	g_captured.clear(); g_problem.clear();
	bool threw = false;
	try { execute(p); } catch (const CapturedFail&) { threw = true; }
	g_error = oldError;
	const auto texts = std::move(g_captured); g_captured.clear();
	if (!g_problem.empty()) proto::fail("C16", "BasicReporter: " + g_problem);
	if (threw != p.aborted) proto::fail("C16", "BasicReporter: the scenario ended " + std::string{threw ? "early" : "normally"});
	const auto v = visible(p);
	for (std::size_t i = 0; i < std::max(v.size(), texts.size()); ++i)
	{
		if (i >= v.size()) proto::fail("C16", "BasicReporter: additional report: " + proto::oneLine(texts[i].text));
		if (i >= texts.size()) proto::fail("C16", "BasicReporter: not reported: " + show(v[i].second));
		if (texts[i].kind != v[i].first) proto::fail("C16", "BasicReporter: " + show(v[i].second) + " is reported as `" + texts[i].kind + "`: " + proto::oneLine(texts[i].text));
		checkFacts(v[i].second, texts[i].text);
	}
	return texts;
}
inline void account(const Plan& p)
{
	stat("violations") += p.violations; stat("successes") += p.successes; stat("warnings") += p.warnings; stat("silenced") += p.silents; stat("operations") += static_cast<long>(p.ops.size());
	stat(p.aborted ? "ended_by_violation" : "ended_normally") += 1;
	if (p.violations == 0) ++stat("clean_scenarios");
	std::string f; for (auto& e : p.events) f += show(e);
	if (!p.events.empty()) proto::distinct(proto::g_profile + f);
}
