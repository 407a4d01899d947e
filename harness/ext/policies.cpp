// User-supplied requirement, side-effect, result and control policies, mixed with the built-in ones, against a model.
#include "ext.hpp"
#include <functional>

namespace
{
	struct Act { char what; int pol; int arg; };                       // 'a'sked, 'c'onsumed, 'f'inalised, 'b'uilt-in side effect
	std::vector<Act> acts;
	struct Spec { int id; char kind; unsigned accept, throws; int needs; bool described; int got = 0; }; // needs: satisfied once informed this often
	using SpecP = std::shared_ptr<Spec>;
	int g_live = 0;

	struct UserPolicy
	{
		SpecP s;
		explicit UserPolicy(SpecP p) : s{std::move(p)} { ++g_live; }
		UserPolicy(UserPolicy&& o) noexcept : s{std::move(o.s)} { ++g_live; }
		~UserPolicy() { --g_live; }
		bool is_satisfied() const noexcept { return s->needs <= s->got; }
		template <typename R, typename... A> bool matches(const mm::call::Info<R, A...>& info) const
		{
			const int v = std::get<0>(info.args).get();
			acts.push_back({'a', s->id, v});
			if (s->throws >> v & 1) throw 7;
			return s->accept >> v & 1;
		}
		std::optional<mm::StringT> describe() const { if (s->described) return "user policy #" + std::to_string(s->id) + "#"; return std::nullopt; }
		template <typename R, typename... A> void consume(const mm::call::Info<R, A...>& info) { acts.push_back({'c', s->id, std::get<0>(info.args).get()}); ++s->got; }
	};
	// policies without any data of their own; what they decide is found elsewhere. At most one per slot is in use at a time.
	template <int slot> SpecP& slotSpec() { static SpecP s; return s; }
	template <int slot> struct SlotBase
	{
		static bool is_satisfied() noexcept { return slotSpec<slot>()->needs <= slotSpec<slot>()->got; }
		template <typename R, typename... A> static bool matches(const mm::call::Info<R, A...>& info)
		{
			Spec& s = *slotSpec<slot>();
			const int v = std::get<0>(info.args).get();
			acts.push_back({'a', s.id, v});
			if (s.throws >> v & 1) throw 7;
			return s.accept >> v & 1;
		}
		static std::optional<mm::StringT> describe() { Spec& s = *slotSpec<slot>(); if (s.described) return "user policy #" + std::to_string(s.id) + "#"; return std::nullopt; }
		template <typename R, typename... A> static void consume(const mm::call::Info<R, A...>& info) { Spec& s = *slotSpec<slot>(); acts.push_back({'c', s.id, std::get<0>(info.args).get()}); ++s.got; }
	};
	template <int slot> struct EmptyPolicy : SlotBase<slot> {};
	template <int slot> struct FinalPolicy final : SlotBase<slot> {};
	template <int slot> bool slotFree() { auto& s = slotSpec<slot>(); return !s || s.use_count() == 1; }

	struct UserResult
	{
		int id; std::unique_ptr<int> value;
		int finalize_call(const mm::call::Info<int, int>& info) { acts.push_back({'f', id, std::get<0>(info.args).get()}); return *value; }
	};
	struct UserVoid
	{
		int id;
		void finalize_call(const auto& info) { acts.push_back({'f', id, std::get<0>(info.args).get()}); }
	};

	struct Exp
	{
		int id; int min, max, count = 0; int result; bool throwsResult = false; std::vector<SpecP> pols; unsigned argMask = 255; bool dead = false; std::unique_ptr<mm::ScopedExpectation> e;
		bool satisfied() const { if (count < min || max < count) return false; for (auto& p : pols) if (p->needs > p->got) return false; return true; }
		bool accepts(int v) const { if (!(argMask >> v & 1)) return false; for (auto& p : pols) if (p->kind == 'u' && !(p->accept >> v & 1)) return false; return true; }
		bool throws(int v) const { for (auto& p : pols) if (p->kind == 'u' && (p->throws >> v & 1)) return true; return false; }
	};
	struct World { Rng& rng; int nextPol = 0; std::vector<Exp> live; };

	SpecP newSpec(World& w, Exp& e, char kind)
	{
		auto s = std::make_shared<Spec>(Spec{w.nextPol++, kind, 255, 0, 0, true});
		if (kind == 'u')
		{
			s->accept = w.rng.chance(50) ? 255u : static_cast<unsigned>(w.rng.below(256)) | static_cast<unsigned>(w.rng.below(256));
			if (w.rng.chance(4)) s->throws = 1u << w.rng.below(8);
			s->needs = w.rng.chance(70) ? 0 : w.rng.between(1, 3);
			s->described = w.rng.chance(80);
		}
		e.pols.push_back(s);
		return s;
	}
	// attaches up to `depth` policies, each the user's or a built-in one, then the result and hands the expectation over
	template <int depth, bool isVoid, typename B> void attach(World& w, Exp& e, B&& b)
	{
		if constexpr (depth > 0)
		{
			constexpr int slot = depth + (isVoid ? 4 : 0);
			switch (w.rng.below(10))
			{
			case 8: case 9: // at one depth each: every further branch multiplies the instantiations
				if constexpr (depth == (isVoid ? 2 : 3)) { if (slotFree<slot>()) { slotSpec<slot>() = newSpec(w, e, 'u'); ++stat("policies_without_data"); return attach<depth - 1, isVoid>(w, e, std::move(b) && EmptyPolicy<slot>{}); } }
				else if constexpr (depth == (isVoid ? 1 : 2)) { if (slotFree<slot>()) { slotSpec<slot>() = newSpec(w, e, 'u'); ++stat("policies_without_data"); return attach<depth - 1, isVoid>(w, e, std::move(b) && FinalPolicy<slot>{}); } }
				[[fallthrough]];
			case 0: case 1: case 2: case 3: { auto s = newSpec(w, e, 'u'); return attach<depth - 1, isVoid>(w, e, std::move(b) && UserPolicy{s}); }
			case 4:
			{
				auto s = newSpec(w, e, 'b');
				return attach<depth - 1, isVoid>(w, e, std::move(b) && mm::then::invoke([id = s->id] { acts.push_back({'b', id, 0}); }));
			}
			case 5:
				if constexpr (depth == (isVoid ? 3 : 1))
				{
					const unsigned mask = static_cast<unsigned>(w.rng.below(256)) | static_cast<unsigned>(w.rng.below(256)); e.argMask &= mask;
					return attach<depth - 1, isVoid>(w, e, std::move(b) && mm::expect::arg<0>(M::predicate([mask](int v) { return (mask >> v & 1) != 0; })));
				}
				[[fallthrough]];
			default: return attach<0, isVoid>(w, e, std::move(b));
			}
		}
		else
		{
			const int k = w.rng.below(3);
			if constexpr (isVoid)
			{
				if (k == 0) e.e = std::make_unique<mm::ScopedExpectation>(std::move(b) && UserVoid{e.id});
				else e.e = std::make_unique<mm::ScopedExpectation>(std::move(b));
				e.result = k == 0 ? 1 : 0;
			}
			else
			{
				e.result = k == 0 ? 10000 + e.id : 20000 + e.id;
				if (k == 0) e.e = std::make_unique<mm::ScopedExpectation>(std::move(b) && UserResult{e.id, std::make_unique<int>(e.result)});
				else e.e = std::make_unique<mm::ScopedExpectation>(std::move(b) && mm::finally::returns(e.result));
			}
		}
	}
	// a fixed long chain
	template <bool isVoid, typename B> void longChain(World& w, Exp& e, B&& b)
	{
		auto p = [&] { return UserPolicy{newSpec(w, e, 'u')}; };
		// one at a time: the order of creation has to be the order of attachment
		auto p1 = p(); auto p2 = p(); auto p3 = p(); auto p4 = p(); auto p5 = p(); auto p6 = p(); auto p7 = p();
		if constexpr (isVoid) attach<0, true>(w, e, std::move(b) && std::move(p1) && std::move(p2) && std::move(p3) && std::move(p4) && std::move(p5) && std::move(p6) && std::move(p7));
		else attach<0, false>(w, e, std::move(b) && std::move(p1) && std::move(p2) && std::move(p3) && std::move(p4) && std::move(p5) && std::move(p6) && std::move(p7));
	}
	std::vector<std::string> described(const Exp& e) { std::vector<std::string> r; for (auto& p : e.pols) if (p->kind == 'u' && p->described) r.push_back("user policy #" + std::to_string(p->id) + "#"); return r; }
	template <typename C, typename F> std::vector<std::string> userOnly(const C& c, F f) { std::vector<std::string> r; for (auto& x : c) if (auto& d = f(x); d && has(*d, "user policy #")) r.push_back(*d); return r; }
	std::string str(const std::vector<std::string>& v) { std::string r; for (auto& s : v) r += s + "; "; return r; }

	void checkReport(const mm::MatchReport& r, const Exp& e, int v)
	{
		const auto got = userOnly(r.expectationReports, [](auto& x) -> auto& { return x.description; });
		if (got != described(e)) fail("C20,C13", "expectation #" + std::to_string(e.id) + " is described by '" + str(got) + "' instead of '" + str(described(e)) + "'");
		for (auto& p : e.pols) for (auto& x : r.expectationReports)
			if (x.description && has(*x.description, "#" + std::to_string(p->id) + "#") && x.isMatching != ((p->accept >> v & 1) != 0))
				fail("C20,C13", "user policy #" + std::to_string(p->id) + " is reported as " + (x.isMatching ? "matched" : "rejecting"));
		bool all = true; for (auto& x : r.expectationReports) all = all && x.isMatching;
		if (all != e.accepts(v)) fail("C20", "the report of expectation #" + std::to_string(e.id) + " contradicts its policies");
		const std::size_t wanted = e.pols.size();
		if (r.expectationReports.size() < wanted) fail("C20,C13", "policies are missing in the report of expectation #" + std::to_string(e.id));
	}
	void checkAsked(const Exp& e, int v, const char* why)
	{
		for (auto& p : e.pols) if (p->kind == 'u')
		{
			bool asked = false;
			for (auto& a : acts) if (a.what == 'a' && a.pol == p->id && a.arg == v) asked = true;
			if (!asked) fail("C20", "user policy #" + std::to_string(p->id) + " of expectation #" + std::to_string(e.id) + ", " + why + ", has not been asked about the call");
		}
	}
	// after a call: who was informed?
	void checkInformed(const Exp* winner, int v, bool userFinal)
	{
		std::vector<std::pair<char, int>> want, got;
		if (winner) { for (auto& p : winner->pols) want.emplace_back(p->kind == 'u' ? 'c' : 'b', p->id); if (userFinal) want.emplace_back('f', winner->id); }
		bool consumed = false;
		for (auto& a : acts)
		{
			if (a.what == 'a') { if (consumed) ++stat("asked_after_consume"); continue; }
			consumed = true;
			if (a.what != 'b' && a.arg != v) fail("C20", "a policy is informed of another argument: " + std::to_string(a.arg));
			got.emplace_back(a.what, a.pol);
		}
		if (want != got)
		{
			std::string m = "informed:"; for (auto& [k, i] : got) m += std::string(" ") + k + std::to_string(i);
			m += " instead of:"; for (auto& [k, i] : want) m += std::string(" ") + k + std::to_string(i);
			fail("C20", m);
		}
	}

	template <bool isVoid> void run(Rng& rng)
	{
		using Sig = std::conditional_t<isVoid, void(int), int(int)>;
		acts.clear();
		std::uint64_t hash = 7; int answered = 0, rejected = 0, ambiguous = 0;
		{
			World w{rng, 0, {}};
			mm::Mock<Sig> mock{};
			int nextExp = 0;
			auto destroy = [&](std::size_t i)
			{
				Exp& e = w.live[i];
				const bool sat = e.satisfied();
				if (e.e->is_satisfied() != sat) fail("C20", "expectation #" + std::to_string(e.id) + " says it is " + (sat ? "not " : "") + "satisfied");
				Rec::evs.clear(); acts.clear();
				e.e.reset();
				if (Rec::evs.size() != (sat ? 0u : 1u) || (!sat && Rec::evs[0].kind != 'U')) fail("C20,C02", "destroying expectation #" + std::to_string(e.id) + ", which is " + (sat ? "" : "not ") + "satisfied, yields " + std::to_string(Rec::evs.size()) + " reports");
				if (!sat)
				{
					const auto got = userOnly(Rec::evs[0].exp[0].expectationDescriptions, [](auto& x) -> auto& { return x; });
					if (got != described(e)) fail("C20,C13", "the unfulfilled expectation #" + std::to_string(e.id) + " is described by '" + str(got) + "' instead of '" + str(described(e)) + "'");
					++stat("unfulfilled");
				}
				for (auto& a : acts) if (a.what != 'a') fail("C20", "a policy is informed although nothing was called");
				w.live.erase(w.live.begin() + static_cast<std::ptrdiff_t>(i));
			};
			const int steps = rng.between(8, 40);
			for (int st = 0; st < steps; ++st)
			{
				if (w.live.empty() || (w.live.size() < 6 && rng.chance(30)))
				{
					w.live.push_back(Exp{.id = nextExp++, .min = rng.below(3), .max = 0, .count = 0, .result = 0});
					Exp& e = w.live.back();
					e.max = e.min + rng.below(4);
					acts.clear();
					if (rng.chance(20)) longChain<isVoid>(w, e, mock.expect_call(_) && mm::expect::times(e.min, e.max));
					else attach<3, isVoid>(w, e, mock.expect_call(_) && mm::expect::times(e.min, e.max));
					for (auto& a : acts) fail("C20", std::string("setting up an expectation already runs something: ") + a.what);
					proto::log("expectation #" + std::to_string(e.id) + " times " + std::to_string(e.min) + ".." + std::to_string(e.max) + ", " + std::to_string(e.pols.size()) + " policies");
					continue;
				}
				if (rng.chance(10)) { const std::size_t i = static_cast<std::size_t>(rng.below(static_cast<int>(w.live.size()))); proto::log("destroy #" + std::to_string(w.live[i].id)); destroy(i); continue; }
				const int v = rng.below(8);
				acts.clear(); Rec::evs.clear();
				Exp* winner = nullptr; int usable = 0, inapplicable = 0;
				for (auto it = w.live.rbegin(); it != w.live.rend(); ++it)
					if (!it->throws(v) && it->accepts(v)) { if (it->count < it->max) { ++usable; if (!winner) winner = &*it; } else ++inapplicable; }
				if (usable > 1) ++ambiguous;
				proto::log("call " + std::to_string(v) + (winner ? ", answered by #" + std::to_string(winner->id) : ", rejected"));
				bool threw = false; int result = -1;
				try { if constexpr (isVoid) mock(v); else result = mock(v); } catch (const Rejected&) { threw = true; }
				std::vector<Rec::Ev*> main_; int unhandled = 0;
				for (auto& e : Rec::evs) if (e.kind == 'X') ++unhandled; else main_.push_back(&e);
				if (main_.size() != 1) fail("C20", "a call yields " + std::to_string(main_.size()) + " reports");
				const char wantKind = winner ? 'F' : inapplicable ? 'I' : 'N';
				if (main_[0]->kind != wantKind) fail("C20", std::string("the call is reported as ") + main_[0]->kind + " instead of " + wantKind);
				if (threw == (winner != nullptr)) fail("C20", "the call was answered wrongly");
				if (winner)
				{
					++answered;
					if constexpr (!isVoid) if (result != winner->result) fail("C20", "the call yields " + std::to_string(result) + " instead of " + std::to_string(winner->result));
					checkAsked(*winner, v, "which answers");
					// informed at last: model first (the policies count on their own)
					checkInformed(winner, v, isVoid ? winner->result == 1 : winner->result < 20000);
					++winner->count;
					checkReport(main_[0]->all[0], *winner, v);
				}
				else
				{
					++rejected;
					checkInformed(nullptr, v, false);
					std::vector<const Exp*> listed;
					for (auto it = w.live.rbegin(); it != w.live.rend(); ++it) if (!it->throws(v) && (wantKind == 'N' || (it->accepts(v)))) listed.push_back(&*it);
					if (listed.size() != main_[0]->all.size()) fail("C20", std::to_string(main_[0]->all.size()) + " expectations are listed instead of " + std::to_string(listed.size()));
					for (const Exp* e : listed) checkAsked(*e, v, "which is listed");
					for (auto& r : main_[0]->all)
					{
						// which one is it? (a described policy tells; others are compared by the set of results only)
						for (const Exp* e : listed) { const auto d = described(*e); if (!d.empty()) for (auto& x : r.expectationReports) if (x.description == d[0]) checkReport(r, *e, v); }
					}
				}
				for (auto& x : w.live) if (x.e->is_satisfied() != x.satisfied()) fail("C20", "expectation #" + std::to_string(x.id) + " says it is " + (x.satisfied() ? "not " : "") + "satisfied");
				hash = hash * 1099511628211ull + static_cast<std::uint64_t>(winner ? winner->id + 2 : 1);
				for (auto& a : acts) hash = hash * 31 + static_cast<std::uint64_t>(a.pol);
				if (unhandled) ++stat("throwing_policies");
				stat("policy_events") += static_cast<long>(acts.size());
			}
			while (!w.live.empty()) destroy(static_cast<std::size_t>(rng.below(static_cast<int>(w.live.size()))));
		}
		if (g_live) fail("C20,C18", std::to_string(g_live) + " user policies outlive their expectations");
		stat("answered") += answered; stat("rejected") += rejected; stat("ambiguous") += ambiguous;
		if (answered && rejected) proto::distinct(hash);
		proto::sample(std::to_string(answered) + " calls answered, " + std::to_string(rejected) + " rejected; " + (proto::g_log.empty() ? "" : proto::g_log.back()));
	}

	// --- user supplied control policies
	struct CtlSpec { int id; int budget; int need; bool closed = false; int used = 0; };
	struct UserControl
	{
		std::shared_ptr<CtlSpec> s;
		bool is_satisfied() const noexcept { return s->need <= s->used; }
		mm::control_state_t state() const
		{
			if (s->used >= s->budget) return mm::state_saturated{.min = s->need, .max = s->budget, .count = s->used};
			if (s->closed) return mm::state_inapplicable{.min = s->need, .max = s->budget, .count = s->used, .sequenceRatings = {}, .inapplicableSequences = {mm::sequence::Tag{17}}};
			return mm::state_applicable{.min = s->need, .max = s->budget, .count = s->used};
		}
		void consume() { acts.push_back({'k', s->id, 0}); ++s->used; }
	};
}
void policiesCase(Rng& rng) { if (rng.chance(50)) run<true>(rng); else run<false>(rng); }

void controlCase(Rng& rng)
{
	using Sig = int(int);
	using Coll = mm::ExpectationCollection<Sig>;
	using BE = mm::BasicExpectation<Sig, UserControl, UserResult, UserPolicy, UserPolicy>;
	acts.clear();
	auto coll = std::make_shared<Coll>();
	struct E { int id; std::shared_ptr<CtlSpec> ctl; SpecP a, b; std::unique_ptr<mm::ScopedExpectation> e; };
	std::vector<E> live; int next = 0, answered = 0, rejected = 0; std::uint64_t hash = 11;
	auto usable = [](const E& e) { return e.ctl->used < e.ctl->budget && !e.ctl->closed; };
	for (int st = rng.between(8, 40); st > 0; --st)
	{
		if (live.empty() || (live.size() < 5 && rng.chance(25)))
		{
			const int id = next++;
			auto ctl = std::make_shared<CtlSpec>(CtlSpec{id, rng.between(0, 4), rng.below(3)});
			auto mk = [&](int k) { auto s = std::make_shared<Spec>(Spec{id * 2 + k, 'u', static_cast<unsigned>(rng.below(256)) | static_cast<unsigned>(rng.below(256)), 0, rng.chance(80) ? 0 : 1, true}); return s; };
			E e{id, ctl, mk(0), mk(1), nullptr};
			e.e = std::make_unique<mm::ScopedExpectation>(coll, std::make_shared<BE>(std::source_location::current(), UserControl{ctl}, UserResult{id, std::make_unique<int>(500 + id)}, UserPolicy{e.a}, UserPolicy{e.b}));
			live.push_back(std::move(e));
			continue;
		}
		if (rng.chance(30)) { auto& c = *rng.pick(live).ctl; c.closed = !c.closed; continue; }
		if (rng.chance(10) && live.size() > 1)
		{
			const std::size_t i = static_cast<std::size_t>(rng.below(static_cast<int>(live.size())));
			const bool sat = live[i].ctl->need <= live[i].ctl->used && live[i].a->needs <= live[i].a->got && live[i].b->needs <= live[i].b->got;
			Rec::evs.clear(); live[i].e.reset();
			if (Rec::evs.size() != (sat ? 0u : 1u)) fail("C20", "an expectation with a control policy of the user is " + std::string(sat ? "satisfied but reported" : "not satisfied but not reported"));
			live.erase(live.begin() + static_cast<std::ptrdiff_t>(i));
			continue;
		}
		int v = rng.below(8);
		const auto accepts = [&](const E& e) { return (e.a->accept >> v & 1) && (e.b->accept >> v & 1); };
		const E* winner = nullptr; bool inapplicable = false;
		for (auto it = live.rbegin(); it != live.rend(); ++it) if (accepts(*it)) { if (usable(*it)) { if (!winner) winner = &*it; } else inapplicable = true; }
		acts.clear(); Rec::evs.clear();
		bool threw = false; int result = -1;
		try { result = coll->handle_call(mm::call::Info<int, int>{.args = {std::ref(v)}, .fromCategory = mm::ValueCategory::any, .fromConstness = mm::Constness::any}); } catch (const Rejected&) { threw = true; }
		const char want = winner ? 'F' : inapplicable ? 'I' : 'N';
		if (Rec::evs.size() != 1 || Rec::evs[0].kind != want) fail("C20", std::string("control policies of the user: the call is reported as ") + (Rec::evs.empty() ? '-' : Rec::evs[0].kind) + " instead of " + want);
		int k = 0;
		for (auto& a : acts) if (a.what == 'k') { ++k; if (!winner || a.pol != winner->id) fail("C20", "the control policy of an expectation which does not answer is informed"); }
		if (k != (winner ? 1 : 0)) fail("C20", "the control policy of the answering expectation is informed " + std::to_string(k) + " times");
		if (winner)
		{
			if (threw || result != 500 + winner->id) fail("C20", "the call yields another result than that of the answering expectation");
			std::vector<int> c; for (auto& a : acts) if (a.what == 'c') c.push_back(a.pol); else if (a.what == 'f') c.push_back(-a.pol - 1);
			if (c != std::vector<int>{winner->a->id, winner->b->id, -winner->id - 1}) fail("C20", "policies besides a control policy of the user are informed wrongly");
			const auto text = mm::print(Rec::evs[0].all[0]);
			++answered;
		}
		else
		{
			++rejected; const auto text = mm::print(Rec::evs[0].call[0]);
			for (auto& r : Rec::evs[0].all) { const auto t = mm::print(r); if (want == 'I' && std::holds_alternative<mm::state_applicable>(r.controlReport)) fail("C20,C13", "an applicable expectation is listed as inapplicable"); }
		}
		hash = hash * 1099511628211ull + static_cast<std::uint64_t>(winner ? winner->id : -1) + static_cast<std::uint64_t>(want);
	}
	stat("control_answered") += answered; stat("control_rejected") += rejected;
	if (answered && rejected) proto::distinct(hash);
	live.clear();
}
