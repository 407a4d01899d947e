#include "ext.hpp"
int main(int argc, char** argv)
{
	mm::install_reporter<Rec>();
	return proto::run(argc, argv, [](long no, std::uint64_t seed)
	{
		Rng rng{seed};
		Rec::evs.clear();
		const auto& p = proto::g_profile;
		if (p == "policies") { if (no % 3 == 2) controlCase(rng); else policiesCase(rng); }
		else if (p == "matchers") matchersCase(rng);
		else stringsCase(rng);
	});
}
