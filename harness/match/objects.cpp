#include "match.hpp"
static void obsCase(Rng& rng)
{
	const int r = rng.below(6), a = rng.below(4), b = rng.below(4);
	Obs t{a}, e{b};
	g_what = std::string{"matches::"} + relName[r] + "(object " + std::to_string(b) + ")";
	const bool want = holds(r, a, b);
	withRel(r, [&](auto&& m)
	{
		const int before = Obs::copies;
		ask(m, t, want, "object");
		if (Obs::copies != before) fail("C10,C08", g_what + ": asking copies values");
		askAll(m, t, want);
		e.v = 77; // the user goes on with the object
		ask(m, t, want, "after the user changed the original value");
		e.v = b;
	}, e);
	viaMock<const Obs&>(M::lt(e), t, a < b); viaMock<Obs&>(!M::eq(Obs{b}), t, a != b);
	withRel(r, [&](auto&& m) { askLite(m, t, want); }, Obs{b});
	if (!t.valid || t.v != a || !e.valid || e.v != b) fail("C10", g_what + " modified an object of the user");
	// references stay references when asked for explicitly
	g_what = "matches::eq(std::ref(object))";
	int x = b;
	auto m = M::eq(std::ref(x));
	int tv = a;
	ask(m, tv, a == b, "ref");
	x = a;
	ask(m, tv, true, "ref, changed");
	// move-only
	g_what = "matches on unique_ptr";
	auto p = std::make_unique<int>(3); auto* raw = p.get();
	auto pm = M::eq(raw);
	auto q = rng.chance(50) ? std::move(p) : std::make_unique<int>(3);
	auto pr = M::predicate([raw](const std::unique_ptr<int>& u) { return u.get() == raw; });
	int* qr = q.get();
	askAll(pr, q, qr == raw); askAll(pm, qr, qr == raw);
	if (q.get() != qr) fail("C10", "a matcher moved from its target");
	// inequality with null
	std::shared_ptr<int> sp = rng.chance(50) ? nullptr : std::make_shared<int>(1);
	const bool isNull = sp == nullptr;
	g_what = "matches::eq/ne(nullptr)";
	askAll(M::eq(nullptr), sp, isNull); askAll(M::ne(nullptr), sp, !isNull);
	++stat("object_cases");
}

struct CountingPred
{
	unsigned mask; int* calls; int* copies; bool alive = true;
	CountingPred(unsigned m, int* c, int* k) : mask{m}, calls{c}, copies{k} {}
	CountingPred(const CountingPred& o) : mask{o.mask}, calls{o.calls}, copies{o.copies}, alive{o.alive} { ++*copies; }
	CountingPred(CountingPred&& o) noexcept : mask{o.mask}, calls{o.calls}, copies{o.copies}, alive{o.alive} { o.alive = false; }
	bool operator()(int v) const { if (!alive) fail("C10", "moved-from predicate invoked"); ++*calls; return (mask >> (v & 7)) & 1u; }
};
static void predicateCase(Rng& rng)
{
	const unsigned mask = static_cast<unsigned>(rng.below(256));
	int calls = 0, copies = 0;
	CountingPred p{mask, &calls, &copies};
	g_what = "matches::predicate(mask " + std::to_string(mask) + ")";
	for (int v = 0; v < 8; ++v)
	{
		int t = v;
		const bool want = (mask >> v) & 1u;
		askAll(M::predicate(p), t, want);
		askAll(M::predicate(p, "described " + std::to_string(v), "not described"), t, want);
		askAll(M::predicate(CountingPred{mask, &calls, &copies}, "d{{", "nd}}"), t, want);
		viaMock<int>(M::predicate(p), v, want);
		viaMock<int&>(!M::predicate(p), t, !want);
		if (t != v) fail("C10", "predicate matcher modified the target");
	}
	auto d = M::predicate(p, "yes text", "no text");
	if (d.describe() != "yes text" || (!d).describe() != "no text") fail("C10,C13", "predicate matcher is not described with the texts of the user");
	if (!p.alive) fail("C10", "predicate of the user was moved from");
	// mutable target given to the predicate by lvalue reference
	int seen = 5; const int* addr = nullptr;
	auto am = M::predicate([&](int& x) { addr = &x; return x == 5; });
	ask(am, seen, true, "by reference");
	if (addr != &seen) fail("C10,C08", "a predicate does not see the argument itself");
	struct Mem { int x; bool odd() const { return x & 1; } };
	Mem mem{rng.below(10)};
	g_what = "matches::predicate(member)";
	askAll(M::predicate(&Mem::odd), mem, (mem.x & 1) != 0);
	++stat("predicate_cases");
}
static void instanceCase(Rng& rng)
{
	struct Evil { int v; Evil* operator&() { return nullptr; } const Evil* operator&() const { return nullptr; } };
	std::vector<int> v(6, 3); std::array<Evil, 4> ev{};
	const auto i = static_cast<std::size_t>(rng.below(6)), k = static_cast<std::size_t>(rng.below(6));
	g_what = "matches::instance #" + std::to_string(i);
	askAll(M::instance(v[i]), v[k], i == k);
	askAll(M::instance(std::as_const(v[i])), v[k], i == k);
	viaMock<int&>(M::instance(v[i]), v[k], i == k);
	viaMock<const int&>(!M::instance(v[i]), v[k], i != k);
	askAll(M::instance(ev[i % 4]), ev[k % 4], i % 4 == k % 4);
	int copy = v[i];
	askAll(M::instance(v[i]), copy, false);
	struct Base { virtual ~Base() = default; int b = 1; }; struct Other { virtual ~Other() = default; int o = 2; };
	struct Derived : Other, Base {} d, d2;
	g_what = "matches::instance(base part)";
	Base& b = d;
	askAll(M::instance(b), d, true); askAll(M::instance(b), d2, false);
	++stat("instance_cases");
}
void objectsCase(Rng& rng) { for (int i = 0; i < 5; ++i) obsCase(rng); predicateCase(rng); instanceCase(rng); }
