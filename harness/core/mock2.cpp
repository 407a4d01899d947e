#include "engine.hpp"
namespace eng { namespace {
using M = mm::Mock<int(int, int) &, int(int, int) const&, int(int, int) &&, int(int, int) const&&>;
struct Impl final : IMock
{
	std::unique_ptr<M> m{std::make_unique<M>()};
	int kind() const override { return 2; }
	std::unique_ptr<IMock> moveConstruct() override { auto r = std::make_unique<Impl>(); r->m = std::make_unique<M>(std::move(*m)); return r; }
	void moveAssignFrom(IMock& o) override { *m = std::move(*static_cast<Impl&>(o).m); }
	int call(int e, int a, int b, const std::source_location& loc) override
	{
		switch (e)
		{
		case 0: return (*m)(a, b, loc);
		case 1: return std::as_const(*m)(a, b, loc);
		case 2: return std::move(*m)(a, b, loc);
		default: return std::move(std::as_const(*m))(a, b, loc);
		}
	}
	mm::ScopedExpectation expect(int e, const Config& c) override
	{
		switch (e)
		{
		case 0: return expectOn<false, false, true>(*m, c);
		case 1: return expectOn<false, false, true>(std::as_const(*m), c);
		case 2: return expectOn<false, false, true>(std::move(*m), c);
		default: return expectOn<false, false, true>(std::move(std::as_const(*m)), c);
		}
	}
};
}
std::unique_ptr<IMock> makeMock2() { return std::make_unique<Impl>(); }
}
