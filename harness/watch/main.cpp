// Random histories of watched objects checked online against a model of destruction and relocation expectations.
#include "watch.hpp"
#include "../common/loc.hpp"
#include <algorithm>
#include <set>

namespace
{
	struct NoMatch {}; struct Inapplicable {};
	[[noreturn]] void bad(const std::string& m, const std::string& also = "") { fail("C15" + also, m); }
	std::string N(long v) { return std::to_string(v); }

	constexpr int slots = 5;
	struct Exp { int id, mock, lo, hi, count{0}, line; std::vector<std::pair<int, int>> pos; bool live{true}; char kind; int ran{0}; };
	struct Obj { bool alive{false}; int value{0}; int life{-1}; bool flag{false}; int reloc{-1}; bool gone{false}; };
	struct Handle { std::unique_ptr<mm::ScopedExpectation> h; int exp; };

	struct World;
	World* w = nullptr;

	// what one operation is allowed to report: calls of mocks, in order
	struct CallEvent { int mock; };
	struct World
	{
		Rng rng; const IOps& ops;
		std::vector<std::unique_ptr<std::byte[]>> mem;
		Obj obj[slots];
		std::vector<Exp> exps; std::vector<Handle> handles;
		std::vector<std::unique_ptr<mm::LazySequence>> lazy; std::vector<std::unique_ptr<mm::GreedySequence>> greedy;
		std::vector<std::vector<int>> seq; // entries by expectation id; 0..1 lazy, 2..3 greedy
		std::unique_ptr<mm::Mock<void()>> other = std::make_unique<mm::Mock<void()>>();
		int mocks = 1; // 0 is `other`
		std::vector<int> pendingCalls; // mocks which have to be called by the running operation, next first
		int unfulfilledExpected = -1; bool unfulfilledSeen = false; int errorsSeen = 0;
		int lastAnswer = -1; std::string fp; int answered = 0, violations = 0, moves = 0;
		std::vector<int> ranOrder;

		World(std::uint64_t s, const IOps& o) : rng{s}, ops{o} {}

		bool applicable(const Exp& e) const
		{
			if (e.count >= e.hi) return false;
			for (auto [s, p] : e.pos)
			{
				for (int i = 0; i < p; ++i) { const Exp& q = exps[static_cast<std::size_t>(seq[static_cast<std::size_t>(s)][static_cast<std::size_t>(i)])]; if (q.count < q.lo) return false; }
				for (std::size_t i = static_cast<std::size_t>(p) + 1; i < seq[static_cast<std::size_t>(s)].size(); ++i) if (exps[static_cast<std::size_t>(seq[static_cast<std::size_t>(s)][i])].count > 0) return false;
			}
			return true;
		}
		std::vector<int> candidates(int mock, bool onlyApplicable) const
		{
			std::vector<int> r;
			for (auto& e : exps) if (e.live && e.mock == mock && (!onlyApplicable || applicable(e))) r.push_back(e.id);
			return r;
		}
		int currentMock(const char* what)
		{
			if (pendingCalls.empty()) bad(std::string{what} + " reported although nothing happened that may call a watcher (or more often than it happened)");
			const int m = pendingCalls.front(); pendingCalls.erase(pendingCalls.begin());
			return m;
		}
		const Exp* byLine(int line) const { for (auto& e : exps) if (e.line == line) return &e; return nullptr; }
	};

	class Reporter final : public mm::IReporter
	{
	public:
		void report_no_matches(mm::CallReport, std::vector<mm::MatchReport> m) override
		{
			const int mock = w->currentMock("a no-match");
			proto::log("  no match");
			if (!w->candidates(mock, false).empty()) bad("a no-match is reported although the event was expected");
			if (!m.empty()) bad("a no-match report lists " + N(static_cast<long>(m.size())) + " expectations, the object has none");
			++w->violations; ++stat("no_match");
			throw NoMatch{};
		}
		void report_inapplicable_matches(mm::CallReport, std::vector<mm::MatchReport> m) override
		{
			const int mock = w->currentMock("an inapplicable match");
			proto::log("  inapplicable");
			if (!w->candidates(mock, true).empty()) bad("an inapplicable match is reported although a usable expectation exists");
			if (m.size() != w->candidates(mock, false).size()) bad("an inapplicable match report lists " + N(static_cast<long>(m.size())) + " instead of " + N(static_cast<long>(w->candidates(mock, false).size())) + " expectations");
			++w->violations; ++stat("inapplicable");
			throw Inapplicable{};
		}
		void report_full_match(mm::CallReport c, mm::MatchReport m) noexcept override
		{
			const int mock = w->currentMock("a full match");
			const int line = m.sourceLocation ? static_cast<int>(m.sourceLocation->line()) : -1;
			const Exp* e = w->byLine(line);
			if (!e) bad("a full match names an unknown expectation");
			proto::log("  answered by #" + N(e->id));
			if (e->mock != mock) bad("expectation #" + N(e->id) + " answers an event of another object");
			const auto cand = w->candidates(mock, true);
			if (std::ranges::find(cand, e->id) == cand.end()) bad("expectation #" + N(e->id) + " answers although it may not be used");
			if (!c.argDetails.empty()) bad("the event has arguments");
			Exp& x = w->exps[static_cast<std::size_t>(e->id)];
			++x.count; w->lastAnswer = e->id; ++w->answered; ++stat("answered");
			w->fp += "a" + N(e->id);
		}
		void report_unfulfilled_expectation(mm::ExpectationReport r) override
		{
			const int line = r.sourceLocation ? static_cast<int>(r.sourceLocation->line()) : -1;
			const Exp* e = w->byLine(line);
			if (!e || e->id != w->unfulfilledExpected || w->unfulfilledSeen) bad("an unfulfilled expectation is reported unexpectedly: #" + N(e ? e->id : -1));
			w->unfulfilledSeen = true; ++stat("unfulfilled");
		}
		void report_error(mm::StringT msg) override { proto::log("  error: " + msg); ++w->errorsSeen; }
		void report_unhandled_exception(mm::CallReport, mm::ExpectationReport, std::exception_ptr) override { bad("an unhandled exception is reported"); }
	};

	// ---- operations -------------------------------------------------------------------------------------------
	void* M(int s) { return w->mem[static_cast<std::size_t>(s)].get(); }

	// is a call on `mock` going to be answered?
	bool willMatch(int mock) { return !w->candidates(mock, true).empty(); }

	// runs an operation which has to call the given mocks in this order (up to and including the first one which is not answered)
	template <typename F> bool perform(const std::string& what, std::vector<int> calls, F&& f)
	{
		proto::log(what);
		// the calls really made: the model is re-evaluated after each answer, so only the order is fixed here
		w->pendingCalls = calls;
		bool threw = false;
		try { f(); }
		catch (const NoMatch&) { threw = true; }
		catch (const Inapplicable&) { threw = true; }
		if (threw) { w->pendingCalls.clear(); ++stat("violations"); return false; }
		if (!w->pendingCalls.empty()) bad(what + ": " + N(static_cast<long>(w->pendingCalls.size())) + " of " + N(static_cast<long>(calls.size())) + " watched events were not noticed");
		return true;
	}
	Counts diff(const Counts& a) { Counts r = g_counts; r.ctor -= a.ctor; r.copy -= a.copy; r.move -= a.move; r.copyAssign -= a.copyAssign; r.moveAssign -= a.moveAssign; r.dtor -= a.dtor; return r; }
	void expectCounts(const char* what, const Counts& before, const Counts& want)
	{
		if (diff(before) != want) { const auto d = diff(before); bad(std::string{what} + ": the wrapped object was constructed/copied/moved/copy-assigned/move-assigned/destroyed " + N(d.ctor) + "/" + N(d.copy) + "/" + N(d.move) + "/" + N(d.copyAssign) + "/" + N(d.moveAssign) + "/" + N(d.dtor) + " times", ",C18"); }
	}
	void checkValue(int s)
	{
		const Obj& o = w->obj[s];
		if (o.gone) return;
		if (w->ops.read(M(s)) != o.value) bad("the wrapped object of slot " + N(s) + " reads " + N(w->ops.read(M(s))) + " instead of " + N(o.value));
	}
	void fresh(Obj& o) { if (w->ops.hasL) { o.life = w->mocks++; o.flag = false; } if (w->ops.hasR) o.reloc = w->mocks++; }

	void create(int s)
	{
		const int v = w->rng.below(1000); const Counts b = g_counts; const bool two = w->rng.chance(40);
		perform("create " + N(s), {}, [&] { w->ops.create(M(s), v, two); });
		expectCounts("create", b, Counts{.ctor = 1});
		w->obj[s] = Obj{.alive = true, .value = v}; fresh(w->obj[s]);
	}
	void copyCtor(int d, int s)
	{
		const Counts b = g_counts;
		perform("copy-construct " + N(d) + " from " + N(s), {}, [&] { w->ops.copy(M(d), M(s)); });
		expectCounts("copy construction", b, Counts{.copy = 1});
		w->obj[d] = Obj{.alive = true, .value = w->obj[s].value, .gone = w->obj[s].gone}; fresh(w->obj[d]);
	}
	void transfer(Obj& d, Obj& s)
	{
		d.life = s.life; d.flag = s.flag; d.reloc = s.reloc; d.value = s.value; d.alive = true; d.gone = s.gone;
		s.life = -1; s.gone = true;
		s.reloc = w->ops.hasR ? w->mocks++ : -1; // a moved-from object can be relocated again
		++w->moves;
	}
	bool moveCtor(int d, int s)
	{
		std::vector<int> calls; if (w->ops.hasR) calls.push_back(w->obj[s].reloc);
		const Counts b = g_counts;
		if (perform("move-construct " + N(d) + " from " + N(s), calls, [&] { w->ops.move(M(d), M(s)); }))
		{
			expectCounts("move construction", b, Counts{.move = 1});
			transfer(w->obj[d], w->obj[s]);
			return true;
		}
		expectCounts("rejected move construction", b, Counts{});
		return false;
	}
	void copyAssign(int d, int s)
	{
		Obj &D = w->obj[d], &S = w->obj[s];
		std::vector<int> calls; if (w->ops.hasL && D.life >= 0) calls.push_back(D.life);
		const Counts b = g_counts;
		if (perform("copy-assign " + N(d) + " from " + N(s), calls, [&] { w->ops.copyAssign(M(d), M(s)); }))
		{
			expectCounts("copy assignment", b, Counts{.copyAssign = 1});
			D.value = S.value; D.gone = S.gone; fresh(D);
		}
		else
		{
			expectCounts("rejected copy assignment", b, Counts{});
			D.life = -1; // overwritten, but not set up again
			D.reloc = -1; // depends on the order of the watchers: not used again
		}
	}
	void moveAssign(int d, int s)
	{
		Obj &D = w->obj[d], &S = w->obj[s];
		std::vector<int> calls; if (w->ops.hasR) calls.push_back(S.reloc);
		const Counts b = g_counts;
		if (perform("move-assign " + N(d) + " from " + N(s), calls, [&] { w->ops.moveAssign(M(d), M(s)); }))
		{
			expectCounts("move assignment", b, Counts{.moveAssign = 1});
			transfer(D, S);
		}
		else
		{
			expectCounts("rejected move assignment", b, Counts{});
			if (w->ops.hasL && !w->ops.rFirst) { D.life = S.life; D.flag = S.flag; S.life = -1; }
		}
	}
	void swapObjects(int a, int c)
	{
		Obj &A = w->obj[a], &C = w->obj[c];
		std::vector<int> calls; if (w->ops.hasR) calls = {A.reloc, C.reloc, A.reloc};
		const Counts b = g_counts;
		if (perform("swap " + N(a) + " and " + N(c), calls, [&] { w->ops.swap(M(a), M(c)); }))
		{
			expectCounts("swap", b, Counts{.move = 1, .moveAssign = 2, .dtor = 1});
			std::swap(A, C); w->moves += 3; ++stat("swaps");
		}
		else bad("swap was rejected although all relocations were expected");
	}
	void destroy(int s)
	{
		Obj& o = w->obj[s];
		std::vector<int> calls; if (w->ops.hasL && o.life >= 0) calls.push_back(o.life);
		const Counts b = g_counts;
		perform("destroy " + N(s), calls, [&] { w->ops.destroy(M(s)); });
		expectCounts("destruction", b, Counts{.dtor = 1});
		o = Obj{}; ++stat("destroyed");
	}

	std::uint32_t nextLine() { return 100000u + static_cast<std::uint32_t>(w->exps.size()); }
	Setup setupFor(Exp& e)
	{
		Setup s; s.id = e.id;
		const int r = w->rng.below(100);
		if (r < 55) s.shape = 0; else if (r < 75) s.shape = 1; else if (r < 90) s.shape = 2; else s.shape = 3;
		const int l = w->rng.below(2), g = w->rng.below(2);
		s.lazy = w->lazy[static_cast<std::size_t>(l)].get(); s.greedy = w->greedy[static_cast<std::size_t>(g)].get();
		if (s.shape & 1) { e.pos.push_back({l, static_cast<int>(w->seq[static_cast<std::size_t>(l)].size())}); }
		if (s.shape & 2) { e.pos.push_back({2 + g, static_cast<int>(w->seq[static_cast<std::size_t>(2 + g)].size())}); }
		return s;
	}
	std::source_location locFor(std::uint32_t line) { return testloc::at(line); }
	void record(Exp e, std::unique_ptr<mm::ScopedExpectation> h)
	{
		for (auto [s, p] : e.pos) w->seq[static_cast<std::size_t>(s)].push_back(e.id);
		w->fp += std::string{"+"} + e.kind + N(e.lo) + N(e.hi) + (e.pos.empty() ? "" : "s");
		w->handles.push_back({std::move(h), e.id});
		w->exps.push_back(std::move(e)); ++stat(std::string{"expect_"} + w->exps.back().kind);
	}
	void expectDestruct(int s)
	{
		Obj& o = w->obj[s];
		Exp e{.id = static_cast<int>(w->exps.size()), .mock = o.life, .lo = 1, .hi = 1, .line = static_cast<int>(nextLine()), .kind = 'D'};
		Setup st = setupFor(e); st.loc = locFor(nextLine());
		proto::log("expect destruction of " + N(s) + " as #" + N(e.id) + " shape " + N(st.shape));
		if (o.flag)
		{
			++stat("second_destruct");
			try { const auto e2 = w->ops.expectDestruct(M(s), st); bad("a second destruction expectation is accepted", ",C06"); }
			catch (const std::logic_error&) { return; }
			catch (...) { bad("a second destruction expectation is rejected with another exception than documented", ",C06"); }
		}
		try { record(std::move(e), std::make_unique<mm::ScopedExpectation>(*w->ops.expectDestruct(M(s), st))); }
		catch (const std::logic_error&) { bad("a first destruction expectation is rejected", ",C06"); }
		o.flag = true;
	}
	void expectRelocate(int s)
	{
		Obj& o = w->obj[s];
		Exp e{.id = static_cast<int>(w->exps.size()), .mock = o.reloc, .lo = 1, .hi = 1, .line = static_cast<int>(nextLine()), .kind = 'R'};
		Setup st = setupFor(e); st.loc = locFor(nextLine());
		if (w->rng.chance(60)) { st.times = true; st.lo = w->rng.below(3); st.hi = st.lo + w->rng.below(4); if (w->rng.chance(20)) st.hi = 1000; e.lo = st.lo; e.hi = st.hi; }
		proto::log("expect relocation of " + N(s) + " as #" + N(e.id) + " " + N(e.lo) + ".." + N(e.hi) + " shape " + N(st.shape));
		record(std::move(e), std::make_unique<mm::ScopedExpectation>(*w->ops.expectRelocate(M(s), st)));
	}
	void expectOther()
	{
		Exp e{.id = static_cast<int>(w->exps.size()), .mock = 0, .lo = 1, .hi = 1, .line = static_cast<int>(nextLine()), .kind = 'O'};
		Setup st = setupFor(e); st.loc = locFor(nextLine());
		e.lo = w->rng.below(2); e.hi = e.lo + w->rng.below(3);
		proto::log("expect other call as #" + N(e.id) + " " + N(e.lo) + ".." + N(e.hi) + " shape " + N(st.shape));
		record(std::move(e), std::make_unique<mm::ScopedExpectation>(attach(w->other->expect_call() and mm::expect::times(e.lo, e.hi), st)));
	}
	void dropHandle(std::size_t i)
	{
		Exp& e = w->exps[static_cast<std::size_t>(w->handles[i].exp)];
		proto::log("drop handle of #" + N(e.id));
		const bool within = e.lo <= e.count && e.count <= e.hi;
		if (w->handles[i].h->is_satisfied() != within) bad("expectation #" + N(e.id) + " says satisfied " + N(!within) + " with " + N(e.count) + " events, limits " + N(e.lo) + ".." + N(e.hi));
		if (e.ran != e.count) bad("the side effect of #" + N(e.id) + " ran " + N(e.ran) + " times for " + N(e.count) + " events");
		w->unfulfilledExpected = e.count < e.lo ? e.id : -1; w->unfulfilledSeen = false;
		w->handles[i].h.reset();
		if (w->unfulfilledExpected >= 0 && !w->unfulfilledSeen) bad("unfulfilled expectation #" + N(e.id) + " is not reported");
		w->unfulfilledExpected = -1; e.live = false; ++stat("dropped");
		w->handles.erase(w->handles.begin() + static_cast<std::ptrdiff_t>(i));
	}

	int pickSlot(auto pred) { std::vector<int> c; for (int i = 0; i < slots; ++i) if (pred(w->obj[i])) c.push_back(i); return c.empty() ? -1 : w->rng.pick(c); }

	// is the object in a state in which it may be moved from?
	bool movable(const Obj& o) { return o.alive && (!w->ops.hasR || o.reloc >= 0); }
	bool relocOk(const Obj& o, int times = 1)
	{
		if (!w->ops.hasR) return true;
		// enough usable expectations without sequences (a sufficient condition)
		int n = 0; for (auto& e : w->exps) if (e.live && e.mock == o.reloc && e.pos.empty()) n += e.hi - e.count;
		if (times == 1) return willMatch(o.reloc);
		return n >= times;
	}

	// performs an operation while the stack is unwound because of an unrelated exception
	template <typename F> void whileUnwinding(F&& f)
	{
		struct Unrelated {};
		struct Guard { F& f; ~Guard() noexcept(false) { f(); } };
		try { Guard g{f}; throw Unrelated{}; }
		catch (const Unrelated&) {}
	}

	void step(bool violate)
	{
		const auto isAlive = [](const Obj& o) { return o.alive; };
		const auto isFree = [](const Obj& o) { return !o.alive; };
		const int r = w->rng.below(100);
		if (r < 14) { const int s = pickSlot(isFree); if (s >= 0) create(s); return; }
		if (r < 36)
		{
			if (w->ops.hasL && (!w->ops.hasR || w->rng.chance(50)))
			{
				const int s = pickSlot([&](const Obj& o) { return o.alive && o.life >= 0 && (!o.flag || w->rng.chance(15)); });
				if (s >= 0) expectDestruct(s);
			}
			else
			{
				const int s = pickSlot([](const Obj& o) { return o.alive && o.reloc >= 0; });
				if (s >= 0) expectRelocate(s);
			}
			return;
		}
		if (r < 40) { expectOther(); return; }
		if (r < 45)
		{
			if (violate || willMatch(0)) perform("call other", {0}, [&] { (*w->other)(); });
			return;
		}
		if (r < 51) { const int d = pickSlot(isFree), s = pickSlot([](const Obj& o) { return o.alive; }); if (d >= 0 && s >= 0) copyCtor(d, s); return; }
		if (r < 63)
		{
			const int d = pickSlot(isFree), s = pickSlot(movable);
			if (d < 0 || s < 0) return;
			// a rejected move construction destroys the already built watchers: only tried where those have nothing to report
			if (!relocOk(w->obj[s]) && !(violate && (w->ops.rFirst || !w->ops.hasL))) return;
			moveCtor(d, s); return;
		}
		if (r < 70)
		{
			const int s = pickSlot([](const Obj& o) { return o.alive; });
			const int d = pickSlot([&](const Obj& o) { return o.alive && &o != &w->obj[s] && (o.life < 0 || violate || willMatch(o.life)); });
			if (d >= 0 && s >= 0 && d != s) copyAssign(d, s);
			return;
		}
		if (r < 80)
		{
			const int s = pickSlot([&](const Obj& o) { return movable(o) && (violate || relocOk(o)); });
			const int d = pickSlot([&](const Obj& o) { return o.alive && (o.life < 0 || !o.flag); }); // over an object without (pending) destruction expectation
			if (d >= 0 && s >= 0 && d != s) moveAssign(d, s);
			return;
		}
		if (r < 84)
		{
			const int a = pickSlot([&](const Obj& o) { return movable(o) && relocOk(o, 2); });
			const int b = pickSlot([&](const Obj& o) { return movable(o) && relocOk(o, 2); });
			if (a >= 0 && b >= 0 && a != b) swapObjects(a, b);
			return;
		}
		if (r < 92)
		{
			const int s = pickSlot([&](const Obj& o) { return o.alive && (o.life < 0 || violate || willMatch(o.life)); });
			if (s >= 0) destroy(s);
			return;
		}
		if (r < 96)
		{
			if (w->handles.empty()) return;
			dropHandle(static_cast<std::size_t>(w->rng.below(static_cast<int>(w->handles.size())))); return;
		}
		if (!w->handles.empty()) // hand the handle over
		{
			auto& h = w->handles[static_cast<std::size_t>(w->rng.below(static_cast<int>(w->handles.size())))];
			auto n = std::make_unique<mm::ScopedExpectation>(std::move(*h.h)); h.h = std::move(n);
		}
		(void)isAlive;
	}
}

void onRan(int id)
{
	Exp& e = w->exps[static_cast<std::size_t>(id)];
	++e.ran;
	if (e.ran != e.count || w->lastAnswer != id) bad("the side effect of #" + N(id) + " runs although it did not answer");
}

int main(int argc, char** argv)
{
	const OpsPtr all[] = {plainL(), plainR(), plainRL(), plainLR(), virtL(), virtR(), virtRL(), virtLR()};
	return proto::run(argc, argv, [&](long c, std::uint64_t seed)
	{
		if (proto::g_profile == "traits") { checkTraits(); return; }
		mm::install_reporter<Reporter>();
		const bool violate = proto::g_profile == "violating";
		const IOps& ops = *all[static_cast<std::size_t>(c) % 8];
		World world{seed, ops}; w = &world;
		for (int i = 0; i < slots; ++i) world.mem.push_back(std::make_unique<std::byte[]>(ops.size()));
		for (int i = 0; i < 2; ++i) { world.lazy.push_back(std::make_unique<mm::LazySequence>()); world.greedy.push_back(std::make_unique<mm::GreedySequence>()); }
		world.seq.resize(4);
		g_counts = {};
		proto::log(ops.name);
		const int steps = world.rng.between(10, 60);
		for (int i = 0; i < steps; ++i)
		{
			if (world.rng.chance(8)) { proto::log("during unwinding:"); ++stat("steps_during_unwinding"); whileUnwinding([&] { step(violate); }); }
			else step(violate);
			for (int s = 0; s < slots; ++s) if (world.obj[s].alive) checkValue(s);
		}
		// wind up, in either order
		const bool handlesFirst = violate && world.rng.chance(40);
		const auto dropAll = [&] { while (!world.handles.empty()) dropHandle(static_cast<std::size_t>(world.rng.below(static_cast<int>(world.handles.size())))); };
		const bool seqsFirst = world.rng.chance(30);
		if (seqsFirst) { for (auto& l : world.lazy) l.reset(); for (auto& g : world.greedy) g.reset(); } // kept alive by their expectations
		if (handlesFirst) dropAll();
		for (int s = 0; s < slots; ++s) if (world.obj[s].alive) { if (world.rng.chance(20)) whileUnwinding([&] { destroy(s); }); else destroy(s); }
		dropAll();
		for (auto& l : world.lazy) l.reset();
		for (auto& g : world.greedy) g.reset();
		int shortSeqs = 0;
		for (auto& s : world.seq) { bool sh = false; for (int e : s) sh |= world.exps[static_cast<std::size_t>(e)].count < world.exps[static_cast<std::size_t>(e)].lo; shortSeqs += sh; }
		if (shortSeqs != world.errorsSeen) bad(N(world.errorsSeen) + " sequence errors are reported for " + N(shortSeqs) + " sequences which did not come to their end");
		if (g_counts.ctor + g_counts.copy + g_counts.move != g_counts.dtor) bad("not every wrapped object was destroyed exactly once", ",C18");
		stat("steps") += steps; stat("moves") += world.moves; stat("sequence_errors") += shortSeqs;
		if (world.answered > 0 && (world.moves > 0 || ops.hasL)) { ++stat("nontrivial"); proto::distinct(ops.name + world.fp); }
		if (c % 97 == 0) { std::string t = ops.name; for (auto& l : proto::g_log) t += "; " + l; proto::sample(t); }
		world.handles.clear(); w = nullptr;
	});
}
