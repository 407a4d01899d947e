// C06: set-ups are accepted exactly if they are valid, and rejected (or abandoned) ones leave no trace.
// Oracle for the traces: the same history with and without the attempts must be indistinguishable (twin runs).
#pragma once
#include "mimic++/mimic++.hpp"
#include "../common/proto.hpp"
#include <deque>
#include <limits>
#include <memory>
#include <optional>
#include <vector>

namespace mm = mimicpp;
using proto::fail; using proto::stat; using proto::Rng;

using Mock = mm::Mock<int(int)>;
using CMock = mm::Mock<int(int), int(int) const>;

struct Shared // everything which outlives an attempt
{
	std::deque<Mock> mocks; std::deque<CMock> cmocks;
	std::deque<mm::LazySequence> lazy; std::deque<mm::GreedySequence> greedy;
};
// attempts to attach one expectation to sequences chosen by `pickL`/`pickG`; returns whether an std::invalid_argument came out.
// `want` says whether it has to.
struct Pick { int l[5], g[5]; };
bool attemptShape(int shape, Shared& s, const Pick& p, int mock, bool& want, std::string& what);
int shapeCount();
// expectation on a mock with a shape without duplicates, or std::nullopt if the shape has too many sequences
mm::ScopedExpectation makeExp(Shared& s, int mock, bool cm, int mask, int id, int min, int max, int seqShape, int a, int b);
int onCall(int id, int arg);
