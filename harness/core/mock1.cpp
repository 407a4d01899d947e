#include "engine.hpp"
namespace eng { namespace {
using M = mm::Mock<int(int, int), int(int, int) const>;
struct Impl final : IMock
{
	std::unique_ptr<M> m{std::make_unique<M>()};
	int kind() const override { return 1; }
	std::unique_ptr<IMock> moveConstruct() override { auto r = std::make_unique<Impl>(); r->m = std::make_unique<M>(std::move(*m)); return r; }
	void moveAssignFrom(IMock& o) override { *m = std::move(*static_cast<Impl&>(o).m); }
	int call(int e, int a, int b, const std::source_location& loc) override { return e == 0 ? (*m)(a, b, loc) : std::as_const(*m)(a, b, loc); }
	mm::ScopedExpectation expect(int e, const Config& c) override
	{
		return e == 0 ? expectOn<false, true, true>(*m, c) : expectOn<false, true, true>(std::as_const(*m), c);
	}
};
}
std::unique_ptr<IMock> makeMock1() { return std::make_unique<Impl>(); }
}
