// Large numbers: many calls, many live expectations, long and wide sequences, deep nesting - against small models.
#include "mimic++/mimic++.hpp"
#include "../common/loc.hpp"
#include "../common/proto.hpp"
#include <algorithm>
#include <limits>
#include <memory>
#include <optional>
#include <set>
#include <vector>

namespace mm = mimicpp;
namespace ex = mm::expect;
using proto::fail; using proto::log; using proto::stat; using proto::Rng;

namespace
{
	struct NoMatch {}; struct Inapplicable {};
	std::string N(long long v) { return std::to_string(v); }
	int idOf(const std::optional<std::source_location>& l) { return l ? static_cast<int>(l->line()) - 100000 : -1; }

	// what the last operation reported
	struct Seen
	{
		int full = -1, fulls = 0, rejections = 0, unfulfilled = -1, unfulfilleds = 0, errors = 0, exceptions = 0, exceptionId = -1; bool noMatch = false; std::vector<int> listed;
		int min = 0, max = 0, count = 0; // of the one expectation reported
	} g;
	struct Reporter final : mm::IReporter
	{
		static void state(const mm::MatchReport& m) { std::visit([](auto& s) { g.min = s.min; g.max = s.max; g.count = s.count; }, m.controlReport); }
		static void list(const std::vector<mm::MatchReport>& ms) { ++g.rejections; g.listed.clear(); for (auto& m : ms) g.listed.push_back(idOf(m.sourceLocation)); if (ms.size() == 1) state(ms[0]); }
		void report_no_matches(mm::CallReport, std::vector<mm::MatchReport> m) override { list(m); g.noMatch = true; throw NoMatch{}; }
		void report_inapplicable_matches(mm::CallReport, std::vector<mm::MatchReport> m) override { list(m); g.noMatch = false; throw Inapplicable{}; }
		void report_full_match(mm::CallReport, mm::MatchReport m) noexcept override { ++g.fulls; g.full = idOf(m.sourceLocation); state(m); }
		void report_unfulfilled_expectation(mm::ExpectationReport e) override { ++g.unfulfilleds; g.unfulfilled = idOf(e.sourceLocation); }
		void report_error(mm::StringT) override { ++g.errors; }
		void report_unhandled_exception(mm::CallReport, mm::ExpectationReport e, std::exception_ptr) override { ++g.exceptions; g.exceptionId = idOf(e.sourceLocation); }
	};
	std::source_location at(int id) { return testloc::at(100000u + static_cast<unsigned>(id)); }
	using Handle = std::unique_ptr<mm::ScopedExpectation>;
	constexpr int big = std::numeric_limits<int>::max();

	enum Outcome { answered, noMatch, inapplicable, other };
	template <typename F> Outcome outcome(F&& f)
	{
		g = {};
		try { f(); return answered; }
		catch (const NoMatch&) { return noMatch; }
		catch (const Inapplicable&) { return inapplicable; }
		catch (...) { return other; }
	}

	// ---- one expectation answers very many calls
	void counts(long c, Rng& rng)
	{
		static const std::vector<int> edges{1, 2, 10, 126, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 4095, 4096, 4097, 10000, 32766, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 70001};
		const int edge = edges[static_cast<std::size_t>(c) % edges.size()];
		const int kind = static_cast<int>(c / static_cast<long>(edges.size())) % 5;
		int lo = 0, hi = 0;
		switch (kind)
		{
		case 0: lo = hi = edge; break;                                  // exactly
		case 1: lo = edge; hi = big; break;                             // at least
		case 2: lo = 0; hi = edge; break;                               // at most
		case 3: lo = edge; hi = edge + rng.below(300); break;           // range
		default: lo = std::max(0, edge - rng.below(300)); hi = edge; break;
		}
		const bool sequenced = rng.chance(40), lazy = rng.chance(50);
		log("limits " + N(lo) + ".." + N(hi) + (sequenced ? " sequenced" : ""));
		int effects = 0, results = 0, last = -1;
		mm::Mock<int(int)> mock{};
		std::optional<mm::LazySequence> ls; std::optional<mm::GreedySequence> gs; ls.emplace(); gs.emplace();
		const auto make = [&](int id, auto&& times)
		{
			auto b = mock.expect_call(mm::matches::_) and std::forward<decltype(times)>(times) and mm::then::apply_arg<0>([&](int v) { ++effects; last = v; }) and mm::finally::returns_result_of([&] { return ++results; });
			if (!sequenced) return std::make_unique<mm::ScopedExpectation>(std::move(b), at(id));
			if (lazy) return std::make_unique<mm::ScopedExpectation>(std::move(b) and ex::in_sequence(*ls), at(id));
			return std::make_unique<mm::ScopedExpectation>(std::move(b) and ex::in_sequence(*gs), at(id));
		};
		Handle h = kind == 0 ? make(1, ex::times(lo)) : kind == 1 ? make(1, ex::at_least(lo)) : kind == 2 ? make(1, ex::at_most(hi)) : make(1, ex::times(lo, hi));
		Handle next; if (sequenced) next = make(2, ex::times(0, 1)); // may only answer once the first one reached its lower limit
		const int total = hi == big ? lo + 300 : hi;
		const auto probe = [&](int done) // at most one look per call, in the neighbourhood of interesting counts
		{
			if (h->is_satisfied() != (lo <= done && done <= hi)) fail("C02", "after " + N(done) + " calls, the expectation with limits " + N(lo) + ".." + N(hi) + " says satisfied " + N(h->is_satisfied()));
			++stat("satisfied_checks");
		};
		probe(0);
		for (int i = 1; i <= total; ++i)
		{
			int r = 0;
			// a greedy sequence would hand satisfied entries over to the next one; that is the order's business (wide)
			if (sequenced && !lazy && lo <= i - 1) { probe(i - 1); break; }
			const Outcome o = outcome([&] { r = mock(i); });
			if (o != answered) fail("C02,C01", "call " + N(i) + " is not answered although the limits are " + N(lo) + ".." + N(hi));
			if (g.full != 1 || g.fulls != 1) fail("C02,C01,C04", "call " + N(i) + " is answered by expectation " + N(g.full));
			if (g.count != i - 1 && g.count != i) fail("C13,C02", "the count is reported as " + N(g.count) + " at call " + N(i));
			if (g.min != lo || g.max != hi) fail("C13,C02", "the limits are reported as " + N(g.min) + ".." + N(g.max) + " instead of " + N(lo) + ".." + N(hi));
			if (effects != i || results != i || last != i || r != i) fail("C07", "side effect and result producer ran " + N(effects) + "/" + N(results) + " times for " + N(i) + " calls");
			if (i < 300 || std::abs(i - lo) < 3 || std::abs(i - hi) < 3 || (i & (i - 1)) == 0 || (i & (i + 1)) == 0 || i % 997 == 0) probe(i);
			++stat("calls");
		}
		const int done = effects;
		probe(done);
		if (done == hi)
		{
			if (sequenced)
			{
				// now the next one answers
				if (outcome([&] { (void)mock(-1); }) != answered || g.full != 2) fail("C02,C04", "after " + N(hi) + " calls the next entry does not answer");
			}
			for (int k = 0; k < 3; ++k)
			{
				if (outcome([&] { (void)mock(-2); }) != inapplicable) fail("C02,C01", "a call beyond the upper limit " + N(hi) + " is not rejected");
				if (effects != done + (sequenced ? 1 : 0)) fail("C07,C02", "a rejected call ran side effects");
				probe(done);
			}
		}
		g = {};
		const bool moved = rng.chance(50);
		if (moved) h = std::make_unique<mm::ScopedExpectation>(std::move(*h));
		probe(done);
		h.reset();
		if (g.unfulfilleds != (done < lo)) fail("C02", "an expectation with " + N(done) + " calls and limits " + N(lo) + ".." + N(hi) + " makes " + N(g.unfulfilleds) + " unfulfilled reports");
		next.reset();
		const int before = g.errors; ls.reset(); gs.reset();
		if (g.errors != before || g.errors != 0) fail("C04", "a completed sequence is reported");
		proto::distinct("counts " + N(lo) + " " + N(hi) + N(sequenced) + N(lazy) + N(moved));
	}

	// ---- very many live expectations
	void crowd(long, Rng& rng)
	{
		const int n = std::vector<int>{40, 127, 129, 200, 255, 257, 300, 520, 1100}[static_cast<std::size_t>(rng.below(9))];
		struct E { int id, arg, hi, count = 0, lo; bool alive = true, throwing = false; Handle h; };
		std::vector<E> es;
		const int general = rng.chance(40) ? 0 : rng.chance(50) ? 2 : 30, endless = rng.chance(40) ? 0 : 3; // % accepting everything, % without upper limit
		auto mock = std::make_unique<mm::Mock<void(int)>>();
		struct Boom {};
		const auto create = [&]
		{
			E e{.id = static_cast<int>(es.size()), .arg = rng.chance(general) ? -1 : rng.below(4), .hi = rng.chance(endless) ? big : rng.chance(80) ? 1 : rng.below(4), .lo = 0};
			e.lo = rng.chance(50) ? 0 : std::min(e.hi, 1 + rng.below(2));
			e.throwing = rng.chance(2);
			const auto pred = [arg = e.arg, t = e.throwing](int v) { if (t) throw Boom{}; return arg < 0 || arg == v; };
			e.h = std::make_unique<mm::ScopedExpectation>(mock->expect_call(mm::matches::predicate(pred)) and ex::times(e.lo, e.hi), at(e.id));
			es.push_back(std::move(e));
		};
		while (static_cast<int>(es.size()) < n) create();
		const auto model = [&](int v, int& want, std::set<int>& inap, std::set<int>& none, int& throwing)
		{
			want = -1; throwing = 0;
			for (auto it = es.rbegin(); it != es.rend(); ++it)
			{
				if (!it->alive) continue;
				if (it->throwing) { ++throwing; continue; }
				if (it->arg >= 0 && it->arg != v) none.insert(it->id);
				else if (it->count >= it->hi) inap.insert(it->id);
				else if (want < 0) want = it->id;
			}
		};
		const int steps = 30 + rng.below(n > 500 ? 30 : 90);
		std::string fp;
		for (int s = 0; s < steps; ++s)
		{
			const int r = rng.below(100);
			if (r < 75)
			for (int burst = rng.chance(85) ? 1 : n / 4; burst > 0; --burst)
			{
				const int v = rng.chance(90) ? rng.below(4) : rng.below(6);
				int want, throwing; std::set<int> inap, none; model(v, want, inap, none, throwing);
				log("call " + N(v) + " expecting " + N(want));
				const Outcome o = outcome([&] { (*mock)(v); });
				const std::string tags = throwing ? ",C14" : "";
				if (g.exceptions != throwing) fail("C14", N(g.exceptions) + " exceptions are reported for " + N(throwing) + " throwing requirements");
				if (want >= 0)
				{
					if (o != answered || g.fulls != 1 || g.rejections) fail("C01,C02" + tags, "a call is not answered although expectation " + N(want) + " accepts it");
					if (g.full != want) fail("C03" + tags, "a call is answered by expectation " + N(g.full) + " instead of the newest usable one, " + N(want) + " of " + N(static_cast<long>(es.size())));
					++es[static_cast<std::size_t>(want)].count; ++stat("answered");
				}
				else
				{
					if (o != (inap.empty() ? noMatch : inapplicable) || g.fulls || g.rejections != 1) fail("C01" + tags, "a call which cannot be answered is resolved wrongly");
					const std::set<int> got(g.listed.begin(), g.listed.end());
					if (got != (inap.empty() ? none : inap) || got.size() != g.listed.size()) fail("C13,C01" + tags, "the report lists " + N(static_cast<long>(g.listed.size())) + " expectations instead of " + N(static_cast<long>((inap.empty() ? none : inap).size())));
					++stat("rejected"); stat("listed") += static_cast<long>(got.size());
				}
				fp += N(want);
				if (want < 0) break;
			}
			else if (r < 90)
			{
				// destroy a run of them (from either end or the middle)
				int k = 1 + rng.below(rng.chance(20) ? n / 2 : 4), first = rng.below(static_cast<int>(es.size()));
				for (int i = first; i < static_cast<int>(es.size()) && k > 0; ++i)
				{
					E& e = es[static_cast<std::size_t>(i)];
					if (!e.alive) continue;
					--k; g = {}; e.alive = false;
					const bool sat = e.h->is_satisfied();
					if (sat != (e.lo <= e.count && e.count <= e.hi)) fail("C02", "is_satisfied is wrong");
					e.h.reset();
					if (g.unfulfilleds != (e.count < e.lo) || (g.unfulfilleds && g.unfulfilled != e.id)) fail("C02", "destroying expectation " + N(e.id) + " makes " + N(g.unfulfilleds) + " unfulfilled reports about " + N(g.unfulfilled));
					++stat("destroyed");
				}
			}
			else if (r < 95) for (int i = 0; i < 20; ++i) create();
			else if (r < 98)
			{
				auto m = std::make_unique<mm::Mock<void(int)>>(std::move(*mock)); mock = std::move(m); ++stat("mock_moves");
			}
			else
			{
				// all handles move within one reallocating container
				std::vector<mm::ScopedExpectation> v;
				for (auto& e : es) if (e.alive) v.push_back(std::move(*e.h));
				std::size_t i = 0;
				for (auto& e : es) if (e.alive) e.h = std::make_unique<mm::ScopedExpectation>(std::move(v[i++]));
			}
		}
		if (rng.chance(50)) mock.reset();
		for (auto& e : es) if (e.alive) { g = {}; e.h.reset(); if (g.unfulfilleds != (e.count < e.lo)) fail("C02", "unfulfilled reports at the end are wrong"); }
		stat("expectations") += static_cast<long>(es.size());
		proto::distinct(fp);
	}

	// ---- sequences with very many entries; positions far from the beginning
	template <typename Seq> void longSeq(long c, Rng& rng, bool lazy)
	{
		static const std::vector<int> lengths{130, 260, 700, 33000, 66000};
		const int n = lengths[static_cast<std::size_t>(c / 2) % lengths.size()] + rng.below(20);
		std::optional<Seq> seq; seq.emplace();
		mm::Mock<void(int)> a{}; mm::Mock<int(int, int)> b{};
		struct E { int id, lo, hi, count = 0; bool onA; Handle h; bool alive = true; };
		std::vector<E> es; std::size_t first = 0; // entries before `first` are destroyed
		int cursor = 0;
		const auto create = [&]
		{
			E e{.id = static_cast<int>(es.size()), .lo = rng.chance(25) ? 0 : 1 + rng.below(2), .hi = 0, .onA = rng.chance(50)};
			e.hi = std::max(1, e.lo + rng.below(2));
			if (e.onA) e.h = std::make_unique<mm::ScopedExpectation>(a.expect_call(mm::matches::_) and ex::times(e.lo, e.hi) and ex::in_sequence(*seq), at(e.id));
			else e.h = std::make_unique<mm::ScopedExpectation>(b.expect_call(mm::matches::_, mm::matches::_) and ex::times(e.lo, e.hi) and ex::in_sequence(*seq) and mm::finally::returns(e.id), at(e.id));
			es.push_back(std::move(e));
		};
		const auto usable = [&](int i)
		{
			if (i < cursor || es[static_cast<std::size_t>(i)].count >= es[static_cast<std::size_t>(i)].hi) return false;
			for (int k = cursor; k < i; ++k) if (es[static_cast<std::size_t>(k)].count < es[static_cast<std::size_t>(k)].lo) return false;
			return true;
		};
		int answers = 0, skipped = 0;
		while (static_cast<int>(first) < n)
		{
			while (es.size() < first + 6) create();
			if (static_cast<int>(first) % 1000 == 0) log("entry " + N(static_cast<long>(first)) + " cursor " + N(cursor));
			const bool onA = rng.chance(50);
			int want = -1; bool any = false;
			for (std::size_t i = first; i < es.size(); ++i)
				if (es[i].alive && es[i].onA == onA) { any = true; if (usable(static_cast<int>(i)) && (want < 0 || !lazy)) want = static_cast<int>(i); }
			const Outcome o = outcome([&] { if (onA) a(1); else if (const int r = b(1, 2); r != g.full) fail("C07,C08", "wrong result " + N(r)); });
			if (want >= 0)
			{
				if (o != answered) fail("C04,C01", "entry " + N(want) + " of a sequence does not answer although it is its turn (position " + N(cursor) + ")");
				if (g.full != want) fail(usable(g.full) ? "C05,C04" : "C04,C05", "entry " + N(g.full) + " answers instead of " + N(want) + " (position " + N(cursor) + ")");
				skipped += want > cursor + 1;
				cursor = want; ++es[static_cast<std::size_t>(want)].count; ++answers;
			}
			else if (o != (any ? inapplicable : noMatch)) fail("C04,C01", "a call out of turn is not rejected (position " + N(cursor) + ")");
			// what is complete and passed goes
			while (first < es.size() && static_cast<int>(first) <= cursor && (static_cast<int>(first) < cursor || es[first].count >= es[first].hi))
			{
				E& e = es[first]; g = {};
				if (e.h->is_satisfied() != (e.lo <= e.count)) fail("C02", "is_satisfied is wrong");
				e.h.reset(); e.alive = false;
				if (g.unfulfilleds != (e.count < e.lo)) fail("C02", "destroying entry " + N(e.id) + " makes " + N(g.unfulfilleds) + " unfulfilled reports");
				++first;
			}
			// stuck: the next one belongs to the other mock or everything ahead is optional - the loop draws again
		}
		bool incomplete = false;
		const bool seqFirst = rng.chance(50);
		g = {};
		if (seqFirst) seq.reset();
		for (auto& e : es) { incomplete |= e.count < e.lo; if (e.alive) e.h.reset(); }
		seq.reset();
		if (g.errors != incomplete) fail("C04", N(g.errors) + " errors are reported for a sequence of " + N(static_cast<long>(es.size())) + " entries which is " + (incomplete ? "incomplete" : "complete"));
		stat("answered") += answers; stat("skips") += skipped; stat("entries") += static_cast<long>(es.size());
		stat("max_position") = std::max<long>(stat("max_position"), cursor);
		proto::distinct(static_cast<std::uint64_t>(answers) * 1000003u + static_cast<std::uint64_t>(skipped));
	}

	// ---- very many optional entries to choose from
	template <typename Seq> void wide(long c, Rng& rng, bool lazy)
	{
		static const std::vector<int> widths{2, 3, 20, 100, 126, 127, 128, 129, 130, 150, 254, 255, 256, 257, 258, 300, 400, 513, 1000, 1500};
		const int n = widths[static_cast<std::size_t>(c / 2) % widths.size()];
		std::optional<Seq> seq, second; seq.emplace();
		if (rng.chance(30)) second.emplace(); // every entry in both, so that both agree
		const int sequences = second ? 2 : 1;
		auto a = std::make_unique<mm::Mock<int(int)>>();
		struct E { int lo, hi, count = 0, arg; Handle h; bool alive = true; };
		std::vector<E> es; int cursor = 0;
		const int kinds = 1 + rng.below(4); // arguments
		const int mandatory = rng.chance(60) ? 0 : rng.chance(50) ? 1 : 5; // %
		for (int i = 0; i < n; ++i)
		{
			E e{.lo = rng.chance(mandatory) ? 1 : 0, .hi = 1 + rng.below(3), .arg = rng.below(kinds + 1) - 1};
			auto b = a->expect_call(mm::matches::predicate([arg = e.arg](int v) { return arg < 0 || arg == v; })) and ex::times(e.lo, e.hi) and mm::finally::returns(i);
			if (!second) e.h = std::make_unique<mm::ScopedExpectation>(std::move(b) and ex::in_sequence(*seq), at(i));
			else if (i % 2) e.h = std::make_unique<mm::ScopedExpectation>(std::move(b) and ex::in_sequence(*second) and ex::in_sequence(*seq), at(i));
			else e.h = std::make_unique<mm::ScopedExpectation>(std::move(b) and ex::in_sequences(*seq, *second), at(i));
			es.push_back(std::move(e));
		}
		if (rng.chance(40)) seq.reset(); // the entries keep it alive
		const bool handleGone = !seq;
		int calls = 0, rejectedInRow = 0; std::string fp = N(n) + (lazy ? "L" : "G");
		g = {};
		while (calls < 3 * n && rejectedInRow < 6 && calls < 900)
		{
			++calls;
			const int v = rng.below(kinds);
			int want = -1; bool any = false, blocked = false;
			for (int i = 0; i < n; ++i)
			{
				E& e = es[static_cast<std::size_t>(i)];
				const bool accepts = e.alive && (e.arg < 0 || e.arg == v);
				any |= accepts;
				if (i >= cursor)
				{
					if (accepts && !blocked && e.count < e.hi && (want < 0 || !lazy)) want = i;
					blocked |= e.count < e.lo;
				}
			}
			int r = -1;
			const Outcome o = outcome([&] { r = (*a)(v); });
			if (want < 0)
			{
				++rejectedInRow;
				if (o != (any ? inapplicable : noMatch)) fail("C04,C01", "a call out of turn is not rejected");
				continue;
			}
			rejectedInRow = 0;
			if (o != answered) fail("C04,C05,C01", "entry " + N(want) + " of " + N(n) + " does not answer (position " + N(cursor) + ")");
			if (r != want || g.full != want) fail("C05,C04", std::string{lazy ? "lazy" : "greedy"} + " sequence: entry " + N(g.full) + " of " + N(n) + " answers instead of " + N(want) + " (position " + N(cursor) + ")");
			stat("distance_max") = std::max<long>(stat("distance_max"), want - cursor);
			cursor = want; ++es[static_cast<std::size_t>(want)].count; ++stat("answered"); fp += "," + N(want);
			if (rng.chance(10))
			{
				// destroy some entry, possibly one ahead: an entry short of its limit keeps blocking
				const int i = rng.below(n);
				E& e = es[static_cast<std::size_t>(i)];
				if (e.alive) { g = {}; e.h.reset(); e.alive = false; if (g.unfulfilleds != (e.count < e.lo)) fail("C02", "unfulfilled reports are wrong"); if (g.errors) fail("C04", "a sequence which goes on is reported as incomplete"); ++stat("destroyed"); }
			}
			if (rng.chance(2)) { a = std::make_unique<mm::Mock<int(int)>>(std::move(*a)); ++stat("mock_moves"); }
		}
		bool incomplete = false; int errors = 0;
		for (auto& e : es) { incomplete |= e.count < e.lo; if (e.alive) { g = {}; e.h.reset(); errors += g.errors; } }
		g = {}; seq.reset(); second.reset(); errors += g.errors;
		if (errors != incomplete * sequences) fail("C04", N(errors) + " errors are reported for a sequence which is " + (incomplete ? "incomplete" : "complete") + (handleGone ? " (handle gone before)" : ""));
		stat("entries") += n;
		proto::distinct(fp);
	}

	// ---- actions which call again, very deep
	void deep(long, Rng& rng)
	{
		const int depth = std::vector<int>{3, 10, 60, 127, 128, 129, 255, 256, 257, 300, 600}[static_cast<std::size_t>(rng.below(11))];
		const int limit = rng.chance(50) ? depth + 1 : rng.chance(50) ? depth - 1 - rng.below(std::min(depth - 1, 5)) : big; // calls one expectation may answer
		const int viaResult = rng.below(2); const bool catching = rng.chance(60); const int catchAt = rng.below(depth);
		const bool sequenced = rng.chance(40);
		auto mock = std::make_unique<mm::Mock<int(int)>>();
		mm::GreedySequence seq;
		int running = 0, maxRunning = 0, effects = 0, failures = 0;
		const auto again = [&](int left) -> int
		{
			if (left == 0) return 1;
			if (catching && left == catchAt) { try { return (*mock)(left - 1) + 1; } catch (const Inapplicable&) { ++failures; return 1; } }
			return (*mock)(left - 1) + 1;
		};
		int viaEffect = 0;
		const auto make = [&]
		{
			auto b = mock->expect_call(mm::matches::_) and ex::times(0, limit)
				and mm::then::apply_arg<0>([&](int left)
				{
					++effects; ++running; maxRunning = std::max(maxRunning, running);
					struct Leave { int& r; ~Leave() { --r; } } leave{running};
					if (!viaResult) viaEffect = again(left);
				})
				and mm::finally::returns_apply_result_of<0>([&](int left) { if (viaResult) return again(left); return viaEffect; });
			if (sequenced) return std::make_unique<mm::ScopedExpectation>(std::move(b) and ex::in_sequence(seq), at(1));
			return std::make_unique<mm::ScopedExpectation>(std::move(b), at(1));
		};
		Handle h = make();
		log("depth " + N(depth) + " limit " + N(limit) + (viaResult ? " result" : " effect") + (catching ? " catching at " + N(catchAt) : ""));
		int r = -1;
		const Outcome o = outcome([&] { r = (*mock)(depth); });
		const int calls = depth + 1, got = std::min(calls, limit);
		if (effects != got) fail("C19,C02", N(effects) + " of " + N(calls) + " nested calls are answered, the limit is " + N(limit));
		if (running != 0) fail("C19,C18", "side effects are left unfinished");
		if (calls <= limit)
		{
			if (o != answered || r != depth + 1) fail("C19,C07", "the outermost of " + N(calls) + " nested calls yields " + N(r) + " instead of " + N(depth + 1));
		}
		else
		{
			// the call below the last answered one is rejected: its exception goes up to the level which catches it
			const int failing = depth - got; // argument of the rejected call
			const bool caught = catching && catchAt > failing;
			if (caught ? o != answered || failures != 1 || r != depth - catchAt + 1 : o != inapplicable) fail("C19,C01", "the rejection of the innermost call does not arrive where it is caught");
		}
		if (!h->is_satisfied()) fail("C02,C19", "a satisfied expectation says it is not");
		// and it goes on as if nothing had happened
		const Outcome o2 = outcome([&] { r = (*mock)(0); });
		if (o2 != (got < limit ? answered : inapplicable)) fail("C19,C02", "after nested calls the expectation " + std::string{o2 == answered ? "answers too often" : "answers no more"});
		g = {}; h.reset();
		if (g.unfulfilleds) fail("C02,C19", "a satisfied expectation is reported as unfulfilled");
		stat("nested_calls") += got; stat("max_depth") = std::max<long>(stat("max_depth"), got);
		proto::distinct("deep " + N(depth) + " " + N(limit) + N(viaResult) + N(catching) + N(catchAt) + N(sequenced));
	}
}

int main(int argc, char** argv)
{
	mm::install_reporter<Reporter>();
	return proto::run(argc, argv, [](long c, std::uint64_t seed)
	{
		Rng rng{seed};
		const auto& p = proto::g_profile;
		g = {};
		if (p == "counts") counts(c, rng);
		else if (p == "crowd") crowd(c, rng);
		else if (p == "long") { if (c % 2) longSeq<mm::LazySequence>(c, rng, true); else longSeq<mm::GreedySequence>(c, rng, false); }
		else if (p == "wide") { if (c % 2) wide<mm::LazySequence>(c, rng, true); else wide<mm::GreedySequence>(c, rng, false); }
		else deep(c, rng);
		if (c % 13 == 0) { std::string t = p; for (auto& l : proto::g_log) t += "; " + l; proto::sample(t); }
	});
}
