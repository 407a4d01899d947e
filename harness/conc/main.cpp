// C17: expectations come and go while other threads use the mock. Watched by ThreadSanitizer and by oracles over what the threads observed.
// All bookkeeping shared by the threads uses relaxed atomics, so that it does not order (and thereby hide) anything.
#include "mimic++/mimic++.hpp"
#include "../common/proto.hpp"
#include "../common/loc.hpp"
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <deque>
#include <memory>
#include <mutex>
#include <optional>
#include <sched.h>
#include <thread>
#include <unistd.h>

namespace mm = mimicpp;
using proto::Rng;

namespace
{
	constexpr int maxThreads = 8, perThread = 4000;
	std::atomic<int> g_failed{0};
	[[noreturn]] void bad(const std::string& m)
	{
		if (g_failed.exchange(1)) { for (;;) ::pause(); }
		proto::fail("C17", m);
	}
	std::string N(long v) { return std::to_string(v); }

	// one logical clock; intervals of operations are compared, nothing is ordered by it
	std::atomic<long> g_clock{1};
	long tick() { std::atomic_signal_fence(std::memory_order_seq_cst); const long t = g_clock.fetch_add(1, std::memory_order_relaxed); std::atomic_signal_fence(std::memory_order_seq_cst); return t; }

	// life of an expectation as seen from outside
	struct Life
	{
		std::atomic<long> createBegin{0}, createEnd{0}, destroyBegin{0}, destroyEnd{0};
		std::atomic<int> answered{0};
		void reset() { createBegin = createEnd = destroyBegin = destroyEnd = 0; answered = 0; }
	};
	std::deque<Life> g_lives(maxThreads * perThread);
	std::deque<testloc::Impl> g_locs;
	std::source_location locOf(int id) { const testloc::Impl* p = &g_locs[static_cast<std::size_t>(id)]; return std::bit_cast<std::source_location>(p); }
	int idOf(const std::optional<std::source_location>& l) { return l ? static_cast<int>(l->line()) - 100000 : -1; }

	int newId(int no, int n) { return no * perThread + n; }
	struct NoMatch {}; struct Inapplicable {};
	// what the running operation of this thread reported
	struct Seen { int noMatch{}, inapplicable{}, full{}, unfulfilled{}, error{}, unhandled{}; std::vector<int> listed; int fullId{-1}, unfulfilledId{-1}; std::string arg; };
	thread_local Seen t_seen;
	thread_local std::uint64_t t_rng = 88172645463325252ull;
	void nap() // perturbs the schedule; also called while the library holds its lock
	{
		t_rng ^= t_rng << 13; t_rng ^= t_rng >> 7; t_rng ^= t_rng << 17;
		const unsigned r = static_cast<unsigned>(t_rng % 100);
		if (r < 10) ::sched_yield(); else if (r < 12) ::usleep(static_cast<unsigned>(t_rng >> 32) % 60);
	}

	std::string firstArg(const mm::CallReport& c) { return c.argDetails.empty() ? std::string{} : c.argDetails[0].stateString; }

	thread_local bool t_render{false}; thread_local std::vector<std::string> t_shown, t_rendered;
	void onText(const std::string& s) { t_rendered.push_back(s); }
	using Text = mm::BasicReporter<&onText, &onText, &onText>; // produces the texts of reports
	void note(const mm::CallReport& c)
	{
		if (!t_render) return;
		std::string s; for (std::size_t i = 0; i < 4 && i < c.argDetails.size(); ++i) s += c.argDetails[i].stateString + "|";
		t_shown.push_back(s);
	}

	class Reporter final : public mm::IReporter
	{
	public:
		void report_no_matches(mm::CallReport c, std::vector<mm::MatchReport> r) override
		{
			++t_seen.noMatch; for (auto& m : r) t_seen.listed.push_back(idOf(m.sourceLocation));
			t_seen.arg = firstArg(c); nap(); throw NoMatch{};
		}
		void report_inapplicable_matches(mm::CallReport c, std::vector<mm::MatchReport> r) override
		{
			note(c); if (t_render) onText(c.argDetails.at(1).stateString); ++t_seen.inapplicable; for (auto& m : r) t_seen.listed.push_back(idOf(m.sourceLocation));
			t_seen.arg = firstArg(c); nap(); throw Inapplicable{};
		}
		void report_full_match(mm::CallReport c, mm::MatchReport r) noexcept override { note(c); if (t_render) Text{}.report_full_match(c, r); ++t_seen.full; t_seen.fullId = idOf(r.sourceLocation); t_seen.arg = firstArg(c); nap(); }
		void report_unfulfilled_expectation(mm::ExpectationReport r) override { ++t_seen.unfulfilled; t_seen.unfulfilledId = idOf(r.sourceLocation); nap(); }
		void report_error(mm::StringT) override { ++t_seen.error; }
		void report_unhandled_exception(mm::CallReport, mm::ExpectationReport, std::exception_ptr) override { ++t_seen.unhandled; }
	};

	using M = mm::Mock<int(int), int(int) const, int(std::string)>;

	// one expectation of a thread
	struct Mine { int id; int accepts; int lo, hi; int count{0}; int ep; std::unique_ptr<mm::ScopedExpectation> h; };

	struct Thread
	{
		int no; Rng rng; M* mock; std::mutex* callMx; std::vector<Mine> mine; int next{0};
		std::uint64_t fp{1469598103934665603ull}; long ops{}, creates{}, destroys{}, calls{}, answered{}, unmatched{}, inapplicable{}, listedForeign{}, waits{};
		Thread(int n, std::uint64_t s, M* m, std::mutex* mx) : no{n}, rng{s}, mock{m}, callMx{mx} {}
		void note(long t) { fp = (fp ^ static_cast<std::uint64_t>(t)) * 1099511628211ull; }

		void create(int accepts, int lo, int hi, int ep)
		{
			const int id = newId(no, next++);
			Life& l = g_lives[static_cast<std::size_t>(id)];
			t_seen = {};
			const long b = tick(); note(b); l.createBegin.store(b, std::memory_order_relaxed);
			const auto pred = [accepts](int a) { nap(); return a == accepts; };
			Mine m{id, accepts, lo, hi, 0, ep, nullptr};
			const auto fin = [&](auto&& builder)
			{
				return std::make_unique<mm::ScopedExpectation>(std::forward<decltype(builder)>(builder)
					and mm::expect::times(lo, hi)
					and mm::then::invoke([&l] { nap(); l.answered.fetch_add(1, std::memory_order_relaxed); })
					and mm::finally::returns(id), locOf(id));
			};
			if (ep == 0) m.h = fin(mock->expect_call(mm::matches::predicate(pred, "accepts")));
			else if (ep == 1) m.h = fin(std::as_const(*mock).expect_call(mm::matches::predicate(pred, "accepts")));
			else m.h = fin(mock->expect_call(mm::matches::str::eq(N(accepts))));
			l.createEnd.store(tick(), std::memory_order_relaxed);
			quiet("creating an expectation");
			mine.push_back(std::move(m)); ++creates;
		}
		void quiet(const char* what) { if (t_seen.noMatch + t_seen.inapplicable + t_seen.full + t_seen.unfulfilled + t_seen.error + t_seen.unhandled) bad(std::string{what} + " reports something"); }
		void destroy(std::size_t i)
		{
			Mine m = std::move(mine[i]); mine.erase(mine.begin() + static_cast<std::ptrdiff_t>(i));
			Life& l = g_lives[static_cast<std::size_t>(m.id)];
			t_seen = {};
			if (m.h->is_satisfied() != (m.lo <= m.count && m.count <= m.hi)) bad("expectation says satisfied wrongly: answered " + N(m.count) + " of " + N(m.lo) + ".." + N(m.hi));
			const long b = tick(); note(b); l.destroyBegin.store(b, std::memory_order_relaxed);
			m.h.reset();
			l.destroyEnd.store(tick(), std::memory_order_relaxed);
			if (t_seen.unfulfilled != (m.count < m.lo)) bad("destroying an expectation answered " + N(m.count) + " of " + N(m.lo) + ".." + N(m.hi) + " makes " + N(t_seen.unfulfilled) + " reports");
			if (t_seen.unfulfilled && t_seen.unfulfilledId != m.id) bad("the unfulfilled report names another expectation");
			if (l.answered.load(std::memory_order_relaxed) != m.count) bad("an expectation's side effect ran " + N(l.answered) + " times for " + N(m.count) + " answered calls");
			++destroys;
		}
		void moveHandle()
		{
			if (mine.empty()) return;
			auto& m = rng.pick(mine); auto& mm_ = const_cast<Mine&>(m);
			auto n = std::make_unique<mm::ScopedExpectation>(std::move(*mm_.h)); mm_.h = std::move(n);
		}
		// the call itself
		int raw(int ep, int arg)
		{
			if (ep == 0) return (*mock)(arg);
			if (ep == 1) return std::as_const(*mock)(arg);
			return (*mock)(N(arg));
		}
		// Calls with an argument only this thread's expectations know: their model is exact.
		void call(int ep, int arg)
		{
			const Mine* want = nullptr; bool sat = false; std::vector<int> rejecting, saturated;
			for (auto it = mine.rbegin(); it != mine.rend(); ++it)
			{
				if (it->ep != ep && !(it->ep < 2 && ep < 2)) continue; // qualifiers share one list
				if (it->ep == ep && it->accepts == arg) { if (it->count < it->hi) { if (!want) want = &*it; } else { sat = true; saturated.push_back(it->id); } }
				else rejecting.push_back(it->id);
			}
			t_seen = {};
			int result = -1; int outcome = 0;
			const long b = tick(); note(b);
			try { result = raw(ep, arg); }
			catch (const NoMatch&) { outcome = 1; }
			catch (const Inapplicable&) { outcome = 2; }
			const long e = tick(); ++calls;
			const int wantOutcome = want ? 0 : sat ? 2 : 1;
			if (outcome != wantOutcome) bad("a call ends with outcome " + N(outcome) + " instead of " + N(wantOutcome) + " (0 answered, 1 no match, 2 inapplicable)");
			if (t_seen.full != (outcome == 0) || t_seen.noMatch != (outcome == 1) || t_seen.inapplicable != (outcome == 2) || t_seen.unfulfilled || t_seen.error || t_seen.unhandled) bad("a call makes other reports than one about itself");
			const std::string shown = ep == 2 ? "\"" + N(arg) + "\"" : N(arg);
			if (t_seen.arg != shown) bad("the report of a call carries the argument " + t_seen.arg + " instead of " + shown);
			if (outcome == 0)
			{
				if (result != want->id || t_seen.fullId != want->id) bad("a call is answered by expectation " + N(result) + " (reported: " + N(t_seen.fullId) + ") instead of " + N(want->id));
				++const_cast<Mine*>(want)->count; ++answered;
			}
			else checkListed(outcome == 1 ? rejecting : saturated, b, e, outcome == 1);
			if (outcome == 1) ++unmatched; if (outcome == 2) ++inapplicable;
		}
		// the expectations listed in a report: all of this thread's, and only ones which lived during the call, none twice
		void checkListed(std::vector<int> own, long begin, long end, bool others)
		{
			std::vector<int> l = t_seen.listed; std::sort(l.begin(), l.end());
			if (std::adjacent_find(l.begin(), l.end()) != l.end()) bad("a report lists an expectation twice");
			for (int id : own) if (!std::binary_search(l.begin(), l.end(), id)) bad("a report does not list expectation " + N(id) + " which exists");
			std::sort(own.begin(), own.end());
			for (int id : l)
			{
				if (std::binary_search(own.begin(), own.end(), id)) continue;
				if (!others) bad("a report about inapplicable expectations lists a foreign one");
				if (id < 0 || id >= maxThreads * perThread || id / perThread == no) bad("a report lists an expectation which does not exist: " + N(id));
				const Life& x = g_lives[static_cast<std::size_t>(id)]; ++listedForeign;
				const long cb = x.createBegin.load(std::memory_order_relaxed), de = x.destroyEnd.load(std::memory_order_relaxed);
				if (cb == 0 || cb > end) bad("a report lists an expectation before it is created");
				if (de != 0 && de < begin) bad("a report lists an expectation after it was destroyed");
			}
		}
	};

	void finishStats(std::vector<std::unique_ptr<Thread>>& ts)
	{
		std::uint64_t fp = 0; long calls = 0;
		for (auto& t : ts)
		{
			fp = fp * 1099511628211ull + t->fp; calls += t->calls;
			proto::stat("creates") += t->creates; proto::stat("destroys") += t->destroys; proto::stat("calls") += t->calls; proto::stat("answered") += t->answered;
			proto::stat("no_match") += t->unmatched; proto::stat("inapplicable") += t->inapplicable; proto::stat("listed_of_other_threads") += t->listedForeign; proto::stat("waited_actions") += t->waits;
		}
		if (calls) proto::distinct(fp); // the interleaving of all operations
	}
	void startTogether(int n, auto&& body)
	{
		std::atomic<int> ready{0};
		std::vector<std::thread> th;
		for (int i = 0; i < n; ++i) th.emplace_back([&, i]
		{
			t_rng = 88172645463325252ull + static_cast<std::uint64_t>(i) * 7919 + static_cast<std::uint64_t>(proto::g_case) * 104729;
			ready.fetch_add(1, std::memory_order_relaxed);
			while (ready.load(std::memory_order_relaxed) < n) ::sched_yield();
			body(i);
		});
		for (auto& t : th) t.join();
	}

	// Expectations come and go in all threads. Either all calls are made one after another; or nothing is ever answered; or (parallel) the threads are answered at the same time,
	// each by its own expectations (there the build for ThreadSanitizer suppresses the known race on the count of an expectation).
	void churn(std::uint64_t seed, bool matching, bool serialised)
	{
		M mock{}; std::mutex callMx;
		const int n = 3 + static_cast<int>(seed % 4);
		std::vector<std::unique_ptr<Thread>> ts;
		for (int i = 0; i < n; ++i) ts.push_back(std::make_unique<Thread>(i, seed * 31 + static_cast<std::uint64_t>(i), &mock, &callMx));
		startTogether(n, [&](int i)
		{
			Thread& t = *ts[static_cast<std::size_t>(i)];
			const bool caller = matching && serialised ? (i % 2 == 0) : true;
			for (int k = 0; k < 120; ++k)
			{
				++t.ops; nap();
				const int r = t.rng.below(100);
				if (r < 30 && t.mine.size() < 8)
				{
					// arguments of this thread: 10*no .. 10*no+3
					const int lo = matching ? t.rng.below(3) : 0, hi = matching ? lo + t.rng.below(3) : (t.rng.chance(50) ? 0 : 5);
					t.create(10 * i + t.rng.below(matching ? 3 : 2) + (hi == 0 ? 0 : matching ? 0 : 5), lo, hi, t.rng.below(3));
				}
				else if (r < 50 && !t.mine.empty()) t.destroy(static_cast<std::size_t>(t.rng.below(static_cast<int>(t.mine.size()))));
				else if (r < 58) t.moveHandle();
				else if (caller || r < 62)
				{
					if (matching)
					{
						std::unique_lock lock{callMx, std::defer_lock};
						if (serialised) lock.lock();
						t.call(t.rng.below(3), 10 * i + t.rng.below(4));
					}
					else // nothing is ever answered: the arguments match saturated expectations (limit 0) or none; not serialised
						t.call(t.rng.below(3), 10 * i + t.rng.below(4));
				}
			}
			while (!t.mine.empty()) t.destroy(static_cast<std::size_t>(t.rng.below(static_cast<int>(t.mine.size()))));
		});
		finishStats(ts);
	}

	// one thread is inside an action while others create, destroy and call: the library must not hold its lock
	void handoff(std::uint64_t seed)
	{
		M mock{}; Rng rng{seed};
		std::vector<std::unique_ptr<Thread>> ts;
		for (int i = 0; i < 2; ++i) ts.push_back(std::make_unique<Thread>(i, seed * 17 + static_cast<std::uint64_t>(i), &mock, nullptr));
		std::mutex mx; std::condition_variable cv; int inside = 0, done = 0; bool end = false;
		const auto waitFor = [&](std::unique_lock<std::mutex>& l, auto pred, const char* what)
		{
			if (!cv.wait_for(l, std::chrono::seconds{60}, pred)) bad(what);
		};
		const int rounds = 12;
		startTogether(2, [&](int i)
		{
			Thread& t = *ts[static_cast<std::size_t>(i)];
			if (i == 0)
			{
				const auto rendezvous = [&]
				{
					std::unique_lock l{mx}; ++inside; cv.notify_all(); ++t.waits;
					waitFor(l, [&] { return done == inside; }, "deadlock: other threads cannot create, destroy or call while an action is running");
				};
				for (int k = 0; k < rounds; ++k)
				{
					const bool inFinalizer = t.rng.chance(50);
					const int id = newId(0, t.next++); Life& life = g_lives[static_cast<std::size_t>(id)];
					life.createBegin.store(tick(), std::memory_order_relaxed);
					{
					const mm::ScopedExpectation e{mock.expect_call(77) and mm::expect::times(1, 2)
						and mm::then::invoke([&] { if (!inFinalizer) rendezvous(); })
						and mm::finally::returns_result_of([&] { if (inFinalizer) rendezvous(); return 5; }), locOf(id)};
					if (mock(77) != 5) bad("a call made while others use the mock yields another result");
					}
					life.destroyEnd.store(tick(), std::memory_order_relaxed);
				}
				{ std::unique_lock l{mx}; end = true; }
				cv.notify_all();
			}
			else
			{
				for (;;)
				{
					{ std::unique_lock l{mx}; waitFor(l, [&] { return end || inside > done; }, "deadlock: an action is never reached"); if (end) break; }
					for (int k = 0; k < 4; ++k)
					{
						t.create(10 + t.rng.below(3), 0, 1 + t.rng.below(2), t.rng.below(3));
						// thread 0's expectation is quiescent while its action waits: it may be asked and listed
						t.call(t.rng.below(3), 10 + t.rng.below(4));
						t.moveHandle();
						if (t.rng.chance(50)) t.destroy(static_cast<std::size_t>(t.rng.below(static_cast<int>(t.mine.size()))));
					}
					{ std::unique_lock l{mx}; ++done; }
					cv.notify_all();
				}
				while (!t.mine.empty()) t.destroy(0);
			}
		});
		finishStats(ts);
	}

	enum class Color { red };
	struct Unprintable { int x; }; struct Unwatched { virtual ~Unwatched() noexcept(false) = default; };
	// a little of everything, on own objects: nothing in the library may be shared behind the scenes
	void everything(Thread& t)
	{
		mm::Mock<int(const std::vector<int>&, std::optional<std::string>, std::tuple<int, std::string, Color>, const char*, std::wstring, const Unprintable&, std::unique_ptr<int>)> m{};
		const int a = t.rng.below(1000); const std::string s = "Text" + N(a);
		mm::SequenceT lazy{}; mm::GreedySequence greedy{};
		std::vector<int> events; Unprintable u{a};
		const auto call = [&] { return m({a, a + 1}, s, {a, s, Color::red}, s.c_str(), L"wide", u, std::make_unique<int>(a)); };
		t_seen = {}; t_shown.clear(); t_rendered.clear(); t_render = true;
		{
			const mm::ScopedExpectation e1{m.expect_call(mm::matches::range::eq(std::vector<int>{a, a + 1}), mm::matches::_, mm::matches::_, mm::matches::str::eq("tExT" + N(a), mm::case_insensitive), mm::matches::str::contains(std::wstring{L"id"}), mm::matches::instance(u), !mm::matches::eq(nullptr))
				and mm::expect::in_sequences(lazy, greedy) and mm::expect::twice()
				and mm::then::apply_arg<0>([&](const std::vector<int>& v) { nap(); events.push_back(v[1]); })
				and mm::finally::returns_apply_result_of<5>([](const Unprintable& x) { return x.x; })};
			const mm::ScopedExpectation e2{m.expect_call(mm::matches::range::each_element(mm::matches::ge(a)), mm::matches::_, mm::matches::_, mm::matches::str::starts_with("Te"), mm::matches::_, mm::matches::_, mm::matches::_)
				and mm::expect::in_sequences(lazy, greedy) and mm::expect::at_most(1)
				and mm::finally::throws(a)};
			const mm::ScopedExpectation e3{m.expect_call(mm::matches::_, mm::matches::_, mm::matches::_, mm::matches::_, mm::matches::_, mm::matches::_, mm::matches::predicate([](const auto&) -> bool { nap(); throw 1; }, "throws"))
				and mm::expect::at_most(0) and mm::finally::returns(-1)};
			if (call() != a || call() != a) bad("an own call yields another result");
			try { call(); bad("an own call does not throw its exception"); } catch (int x) { if (x != a) bad("an own call throws another exception"); } catch (...) { bad("an own call throws another exception"); }
			try { call(); bad("an own call is answered too often"); } catch (const Inapplicable&) {}
			if (t_seen.full != 3 || t_seen.inapplicable != 1 || t_seen.unhandled != 4 || t_seen.noMatch || t_seen.unfulfilled || t_seen.error) bad("own calls make other reports");
			if (events != std::vector<int>{a + 1, a + 1}) bad("own side effects saw other arguments");
		}
		const std::string want = "{ " + N(a) + ", " + N(a + 1) + " }|{ value: \"" + s + "\" }|{ " + N(a) + ", \"" + s + "\", {?} }|\"" + s + "\"|";
		for (auto& x : t_shown) if (x.substr(0, want.size()) != want) bad("an own report shows other arguments: " + x + " instead of " + want);
		if (t_shown.size() != 4 || t_rendered.size() != 4) bad("own reports are missing");
		for (auto& x : t_rendered) if (x.find(s) == std::string::npos) bad("the text of an own report lacks an argument: " + x);
		t_render = false;
		{
			mm::Watched<Unwatched, mm::LifetimeWatcher> w{}; bool died = false;
			auto p = std::make_unique<mm::Watched<Unwatched, mm::LifetimeWatcher>>(std::move(w));
			mm::ScopedExpectation e{p->expect_destruct() and mm::then::invoke([&] { died = true; })};
			p.reset();
			if (!died || !e.is_satisfied()) bad("an own destruction is not noticed");
		}
	}

	// every thread uses its own mocks, sequences and watchers
	void independent(std::uint64_t seed)
	{
		const int n = 4 + static_cast<int>(seed % 4);
		std::vector<std::unique_ptr<Thread>> ts; std::deque<M> mocks(static_cast<std::size_t>(n));
		for (int i = 0; i < n; ++i) ts.push_back(std::make_unique<Thread>(i, seed * 13 + static_cast<std::uint64_t>(i), &mocks[static_cast<std::size_t>(i)], nullptr));
		startTogether(n, [&](int i)
		{
			Thread& t = *ts[static_cast<std::size_t>(i)];
			M* shared = t.mock; M local{}; t.mock = &local; (void)shared;
			for (int k = 0; k < 60; ++k)
			{
				const int r = t.rng.below(100);
				if (r < 30 && t.mine.size() < 6) { const int lo = t.rng.below(3); t.create(t.rng.below(3), lo, lo + t.rng.below(3), t.rng.below(3)); }
				else if (r < 45 && !t.mine.empty()) t.destroy(static_cast<std::size_t>(t.rng.below(static_cast<int>(t.mine.size()))));
				else if (r < 85) t.call(t.rng.below(3), t.rng.below(4));
				else if (r < 88) everything(t);
				else if (r < 94) // an own sequence over two own mocks
				{
					t_seen = {};
					mm::Mock<int(int)> a{}, b{}; mm::SequenceT s{};
					const mm::ScopedExpectation e1{a.expect_call(mm::matches::ge(0)) and mm::expect::in_sequence(s) and mm::expect::twice() and mm::finally::returns_arg<0>()};
					const mm::ScopedExpectation e2{b.expect_call(mm::matches::_) and mm::expect::in_sequence(s) and mm::finally::returns(9)};
					if (a(3) != 3 || a(4) != 4 || b(1) != 9) bad("calls of an own sequence yield other results");
					if (t_seen.full != 3 || t_seen.noMatch || t_seen.inapplicable || t_seen.error || t_seen.unfulfilled) bad("an own sequence makes other reports");
				}
				else
				{
					t_seen = {};
					bool moved = false;
					{
						struct B {};
						mm::Watched<B, mm::RelocationWatcher> w{};
						mm::Mock<void(const std::vector<int>&, std::string_view)> m{};
						const mm::ScopedExpectation e0{w.expect_relocate() and mm::then::invoke([&] { moved = true; })};
						const mm::ScopedExpectation e1{m.expect_call(mm::matches::range::each_element(mm::matches::lt(10)), mm::matches::str::starts_with("ab"))};
						mm::Watched<B, mm::RelocationWatcher> v{std::move(w)};
						try { m({1, 2, 3}, "xy"); } catch (const NoMatch&) {} catch (...) {}
						try { m({1, 2, 3}, "abc"); } catch (...) { bad("an own call is rejected"); }
					}
					if (!moved || t_seen.unfulfilled || t_seen.noMatch != 1) bad("own watchers make other reports");
				}
				++t.ops;
			}
			while (!t.mine.empty()) t.destroy(static_cast<std::size_t>(t.rng.below(static_cast<int>(t.mine.size()))));
		});
		finishStats(ts);
	}

	// Threads create and destroy expectations which answer the calls of other threads, at any moment; the calls are made one after another.
	// Checked offline over the recorded intervals: who may have answered.
	void crossfire(std::uint64_t seed)
	{
		M mock{}; std::mutex callMx;
		const int n = 3 + static_cast<int>(seed % 4);
		struct Call { long begin, end; int arg, result; };
		struct Exp { int id; int mask; };
		std::vector<std::vector<Call>> calls(static_cast<std::size_t>(n)); std::vector<std::vector<Exp>> exps(static_cast<std::size_t>(n));
		std::vector<std::unique_ptr<Thread>> ts;
		for (int i = 0; i < n; ++i) ts.push_back(std::make_unique<Thread>(i, seed * 37 + static_cast<std::uint64_t>(i), &mock, &callMx));
		const auto make = [&](Thread& t, int mask)
		{
			const int id = newId(t.no, t.next++); Life& l = g_lives[static_cast<std::size_t>(id)];
			exps[static_cast<std::size_t>(t.no)].push_back({id, mask});
			l.createBegin.store(tick(), std::memory_order_relaxed);
			auto h = std::make_unique<mm::ScopedExpectation>(
				mock.expect_call(mm::matches::predicate([mask](int a) { nap(); return (mask >> a & 1) != 0; }, "mask"))
				and mm::expect::at_least(0)
				and mm::then::invoke([&l] { nap(); l.answered.fetch_add(1, std::memory_order_relaxed); })
				and mm::finally::returns_result_of([id] { nap(); return id; }), locOf(id));
			l.createEnd.store(tick(), std::memory_order_relaxed);
			++t.creates;
			return std::pair{id, std::move(h)};
		};
		const auto drop = [&](Thread& t, std::pair<int, std::unique_ptr<mm::ScopedExpectation>>& e)
		{
			Life& l = g_lives[static_cast<std::size_t>(e.first)];
			t_seen = {};
			l.destroyBegin.store(tick(), std::memory_order_relaxed);
			e.second.reset();
			l.destroyEnd.store(tick(), std::memory_order_relaxed);
			t.quiet("destroying an expectation without lower limit"); ++t.destroys;
		};
		auto base = make(*ts[0], 0xff); // answers whatever nothing else answers
		startTogether(n, [&](int i)
		{
			Thread& t = *ts[static_cast<std::size_t>(i)];
			std::vector<std::pair<int, std::unique_ptr<mm::ScopedExpectation>>> own;
			for (int k = 0; k < 100; ++k)
			{
				nap();
				const int r = t.rng.below(100);
				if (r < 30 && own.size() < 6) own.push_back(make(t, 1 + t.rng.below(255)));
				else if (r < 60 && !own.empty()) { const auto x = own.begin() + t.rng.below(static_cast<int>(own.size())); drop(t, *x); own.erase(x); }
				else
				{
					const std::scoped_lock lock{callMx};
					t_seen = {};
					const int arg = t.rng.below(8);
					Call c{tick(), 0, arg, -1};
					try { c.result = mock(arg); } catch (...) { bad("a call is not answered although an expectation accepting it exists all the time"); }
					c.end = tick(); t.note(c.begin); t.note(c.result); ++t.calls; ++t.answered;
					if (t_seen.full != 1 || t_seen.noMatch || t_seen.inapplicable || t_seen.unfulfilled || t_seen.error || t_seen.unhandled) bad("a call makes other reports than one about itself");
					if (t_seen.fullId != c.result) bad("a call is answered by another expectation than reported");
					calls[static_cast<std::size_t>(i)].push_back(c);
				}
			}
			for (auto& x : own) drop(t, x);
		});
		drop(*ts[0], base);
		std::map<int, int> mask, answers;
		for (auto& v : exps) for (auto& e : v) mask[e.id] = e.mask;
		const auto L = [](int id) -> Life& { return g_lives[static_cast<std::size_t>(id)]; };
		for (auto& v : calls)
			for (auto& c : v)
			{
				if (!mask.count(c.result) || !(mask[c.result] >> c.arg & 1)) bad("a call is answered by an expectation which does not accept it");
				++answers[c.result];
				if (L(c.result).createBegin > c.end || L(c.result).destroyEnd < c.begin) bad("a call is answered by an expectation which did not live during the call");
				for (auto& [id, m] : mask)
					if ((m >> c.arg & 1) && L(id).createEnd < c.begin && L(id).destroyBegin > c.end && L(id).createBegin > L(c.result).createEnd)
						bad("a call is answered by an expectation although a later one accepting it lived during the whole call");
				for (auto& [id, m] : mask) if (L(id).createEnd > c.begin && L(id).createBegin < c.end) ++proto::stat("creations_during_calls"); else if (L(id).destroyEnd > c.begin && L(id).destroyBegin < c.end) ++proto::stat("destructions_during_calls");
				if (L(c.result).destroyBegin < c.end) ++proto::stat("answering_expectation_dropped_meanwhile");
			}
		for (auto& [id, m] : mask) if (L(id).answered != answers[id]) bad("an expectation's side effect ran " + N(L(id).answered) + " times for " + N(answers[id]) + " answered calls");
		finishStats(ts);
	}

	// several threads are answered at the same time, each by expectations of its own (known finding: the library counts outside its lock)
	void concurrentMatching(std::uint64_t seed)
	{
		M mock{}; std::vector<std::unique_ptr<Thread>> ts;
		for (int i = 0; i < 3; ++i) ts.push_back(std::make_unique<Thread>(i, seed * 31 + static_cast<std::uint64_t>(i), &mock, nullptr));
		startTogether(3, [&](int i)
		{
			Thread& t = *ts[static_cast<std::size_t>(i)];
			t.create(10 * i, 0, 1000000, 0);
			for (int k = 0; k < 300; ++k) t.call(0, 10 * i);
			t.destroy(0);
		});
		finishStats(ts);
	}
}

int main(int argc, char** argv)
{
	for (int i = 0; i < maxThreads * perThread; ++i) g_locs.push_back(testloc::Impl{"f.cpp", "fn", 100000u + static_cast<unsigned>(i), 1u});
	return proto::run(argc, argv, [&](long, std::uint64_t seed)
	{
		mm::install_reporter<Reporter>();
		for (auto& l : g_lives) l.reset();
		const auto& p = proto::g_profile;
		if (p == "churn") churn(seed, true, true);
		else if (p == "unmatched") churn(seed, false, false);
		else if (p == "parallel") churn(seed, true, false);
		else if (p == "handoff") handoff(seed);
		else if (p == "crossfire") crossfire(seed);
		else if (p == "independent") independent(seed);
		else concurrentMatching(seed);
		if (proto::g_case % 61 == 0) proto::sample(p + ": operations so far " + N(g_clock.load()));
	});
}
