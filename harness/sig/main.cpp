#include "support.hpp"
#include <algorithm>
int main(int argc, char** argv)
{
	mm::install_reporter<mm::DefaultReporter>();
	std::ranges::sort(sup::cases(), {}, [](const sup::Case& c) { return std::string{c.what}; });
	return proto::run(argc, argv, [](long no, std::uint64_t seed)
	{
		Rng r{seed};
		const auto& c = sup::cases().at(static_cast<std::size_t>(no) % sup::cases().size());
		const long live = sup::g_counts.live;
		const auto body = [&]
		{
		try { c.fn(r); }
		catch (const std::exception& e) { fail("C07,C08,C09", std::string{c.what} + ": unexpected exception " + e.what()); }
		catch (...) { fail("C01,C07,C08,C09", std::string{c.what} + ": the call was not answered"); }
		};
		if (seed % 4 == 1) { struct Other {}; try { throw Other{}; } catch (const Other&) { body(); } } // while another exception is being handled
		else body();
		if (sup::g_counts.live != live) fail("C08,C18", std::string{c.what} + ": " + std::to_string(sup::g_counts.live - live) + " objects were not destroyed exactly once");
		proto::sample(c.what);
		proto::distinct(proto::fnv(c.what) * 31 + static_cast<std::uint64_t>(r.below(1 << 30)));
	});
}
