#include "setup.hpp"
namespace ex = mm::expect;
// the sequences taking part: lazy ones by L(i), greedy ones by G(i)
#define L(i) s.lazy[static_cast<std::size_t>(p.l[i])]
#define G(i) s.greedy[static_cast<std::size_t>(p.g[i])]
static bool dup(std::vector<int> v) { std::sort(v.begin(), v.end()); return std::adjacent_find(v.begin(), v.end()) != v.end(); }
template <typename F> static bool tried(F&& f, const std::string& what)
{
	try { f(); return false; }
	catch (const std::invalid_argument& e) { if (!*e.what()) fail("C06", what + ": rejected without explanation"); return true; }
	catch (...) { fail("C06", what + ": rejected with an exception of an undocumented type"); }
}
int shapeCount() { return 14; }
bool attemptShape(int shape, Shared& s, const Pick& p, int mock, bool& want, std::string& what)
{
	auto& m = s.mocks[static_cast<std::size_t>(mock)];
	const auto l = [&](int n) { return dup(std::vector<int>(p.l, p.l + n)); };
	const auto g = [&](int n) { return dup(std::vector<int>(p.g, p.g + n)); };
	const auto base = [&] { return m.expect_call(mm::matches::_) && ex::times(0, 3); };
	switch (shape)
	{
	case 0: want = l(2); what = "in_sequences(L,L)"; return tried([&] { (void)(base() && ex::in_sequences(L(0), L(1))); }, what);
	case 1: want = g(2); what = "in_sequences(G,G)"; return tried([&] { (void)(base() && ex::in_sequences(G(0), G(1))); }, what);
	case 2: want = l(3); what = "in_sequences(L,L,L)"; return tried([&] { (void)(base() && ex::in_sequences(L(0), L(1), L(2))); }, what);
	case 3: want = l(2); what = "in_sequences(L,G,L)"; return tried([&] { (void)(base() && ex::in_sequences(L(0), G(0), L(1))); }, what);
	case 4: want = l(2) || g(2); what = "in_sequences(L,G,G,L)"; return tried([&] { (void)(base() && ex::in_sequences(L(0), G(0), G(1), L(1))); }, what);
	case 5: want = l(2); what = "in_sequence(L) && in_sequence(L)"; return tried([&] { (void)(base() && ex::in_sequence(L(0)) && ex::in_sequence(L(1))); }, what);
	case 6: want = g(2); what = "in_sequence(G) && in_sequence(G)"; return tried([&] { (void)(base() && ex::in_sequence(G(0)) && ex::in_sequence(G(1))); }, what);
	case 7: want = l(3); what = "in_sequences(L,L) && in_sequence(L)"; return tried([&] { (void)(base() && ex::in_sequences(L(0), L(1)) && ex::in_sequence(L(2))); }, what);
	case 8: want = l(3); what = "in_sequence(L) && in_sequences(L,L)"; return tried([&] { (void)(base() && ex::in_sequence(L(0)) && ex::in_sequences(L(1), L(2))); }, what);
	case 9: want = g(2); what = "in_sequence(G) && in_sequence(L) && in_sequence(G)"; return tried([&] { (void)(base() && ex::in_sequence(G(0)) && ex::in_sequence(L(0)) && ex::in_sequence(G(1))); }, what);
	case 10: want = l(2) || g(2); what = "in_sequences(L,G) && in_sequences(G,L)"; return tried([&] { (void)(base() && ex::in_sequences(L(0), G(0)) && ex::in_sequences(G(1), L(1))); }, what);
	case 11: want = l(4); what = "in_sequences(L,L,L,L)"; return tried([&] { (void)(base() && ex::in_sequences(L(0), L(1), L(2), L(3))); }, what);
	case 12: want = l(2); what = "builder with actions && in_sequence(L) twice"; return tried([&] { (void)(base() && ex::in_sequence(L(0)) && mm::then::invoke([] {}) && mm::finally::returns(1) && ex::in_sequence(L(1))); }, what);
	default: want = l(2) || g(2); what = "in_sequence L,L,G,G one by one"; return tried([&] { (void)(base() && ex::in_sequence(L(0)) && ex::in_sequence(G(0)) && ex::in_sequence(L(1)) && ex::in_sequence(G(1))); }, what);
	}
}
