#include "support.hpp"
#include <algorithm>
int main(int argc, char** argv)
{
	mimicpp::install_reporter<wide::Reporter>();
	std::ranges::sort(wide::cases(), {}, [](const wide::Case& c) { return std::string{c.what}; });
	return proto::run(argc, argv, [](long no, std::uint64_t seed)
	{
		wide::Rng r{seed};
		const auto& c = wide::cases().at(static_cast<std::size_t>(no) % wide::cases().size());
		try { c.fn(r); } catch (const std::exception& e) { proto::fail("C08,C09", std::string{c.what} + ": unexpected exception " + e.what()); }
		proto::sample(c.what);
		proto::distinct(proto::fnv(c.what) * 31 + static_cast<std::uint64_t>(r.below(1 << 30)));
	});
}
