#include "engine.hpp"
namespace eng { namespace {
using M = mm::Mock<int(int, int)>;
struct Impl final : IMock
{
	std::unique_ptr<M> m{std::make_unique<M>()};
	int kind() const override { return 0; }
	std::unique_ptr<IMock> moveConstruct() override { auto r = std::make_unique<Impl>(); r->m = std::make_unique<M>(std::move(*m)); return r; }
	void moveAssignFrom(IMock& o) override { *m = std::move(*static_cast<Impl&>(o).m); }
	int call(int, int a, int b, const std::source_location& loc) override { return (*m)(a, b, loc); }
	mm::ScopedExpectation expect(int, const Config& c) override { return expectOn<true, true, true>(*m, c); }
};
}
std::unique_ptr<IMock> makeMock0() { return std::make_unique<Impl>(); }
}
