#include "setup.hpp"
namespace ex = mm::expect;
struct Accept { int mask; bool operator()(int v) const { return (mask >> (v & 7)) & 1; } };
template <typename M> static mm::ScopedExpectation make(Shared& s, M& m, int mask, int id, int min, int max, int seqShape, int a, int b)
{
	auto base = m.expect_call(mm::matches::predicate(Accept{mask}, "id " + std::to_string(id)))
		&& ex::times(min, max) && mm::finally::returns_apply_all_result_of([id](int v) { return onCall(id, v); });
	auto& l = s.lazy[static_cast<std::size_t>(a)]; auto& g = s.greedy[static_cast<std::size_t>(b)];
	switch (seqShape)
	{
	case 0: return mm::ScopedExpectation{std::move(base)};
	case 1: return mm::ScopedExpectation{std::move(base) && ex::in_sequence(l)};
	case 2: return mm::ScopedExpectation{std::move(base) && ex::in_sequence(g)};
	default: return mm::ScopedExpectation{std::move(base) && ex::in_sequences(l, g)};
	}
}
mm::ScopedExpectation makeExp(Shared& s, int mock, bool cm, int mask, int id, int min, int max, int seqShape, int a, int b)
{
	return cm ? make(s, s.cmocks[static_cast<std::size_t>(mock)], mask, id, min, max, seqShape, a, b) : make(s, s.mocks[static_cast<std::size_t>(mock)], mask, id, min, max, seqShape, a, b);
}
