#include "support.hpp"
#include <algorithm>
int main(int argc, char** argv)
{
	mm::install_reporter<ovl::Reporter>();
	std::ranges::sort(ovl::cases(), {}, [](const ovl::Case& c) { return std::string{c.what}; });
	return proto::run(argc, argv, [](long no, std::uint64_t seed)
	{
		Rng r{seed};
		const auto& c = ovl::cases().at(static_cast<std::size_t>(no) % ovl::cases().size());
		c.fn(r);
		proto::sample(c.what);
	});
}
